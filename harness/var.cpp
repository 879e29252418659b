// variants (C18); -DORDER="VA,VB,long,Box" gives the list of alternatives;
// -DWIDE=32 gives the first kind of alternative that alignment
#ifndef WIDE
#define WIDE alignof(long)
#endif
#include <cstdint>
#include "elems.h"
#include "Primitives/Variant.h"
using namespace vf;
using namespace vl;

struct KA { long v; };
struct KB { long v; };
struct KL { long v; operator long()const { return v; } };

struct alignas(WIDE) VA : Tracked
{
	char pad[40];
	VA() :Tracked(0) { place(); }
	VA(KA k) :Tracked(k.v) { place(); }
	VA(const VA& a) :Tracked(a) { place(); }
	VA(VA&& a) :Tracked(std::move(a)) { place(); }
	VA& operator=(const VA& a) { Tracked::operator=(a); return *this; }
	VA& operator=(VA&& a) { Tracked::operator=(std::move(a)); return *this; }
	// an object lives at an address its type allows
	void place() { volatile uintptr_t a = (uintptr_t)this; if (a % WIDE) Life::bad++; for (auto& c : pad) c = 'p'; }
	// and all of it belongs to it
	bool whole()const { for (auto c : pad) if (c != 'p') return false; return true; }
};
struct VB : CopyOnly
{
	VB() :CopyOnly(0) {}
	VB(KB k) :CopyOnly(k.v) {}
	VB(const VB& b) : CopyOnly(b) {}
	VB& operator=(const VB& b) { CopyOnly::operator=(b); return *this; }
};
struct Box;
typedef Variant<ORDER> V;
struct Box
{
	V* p = nullptr;
	KA ka{ 7 };
	Box() { Life::born(this); }
	explicit Box(V* _p) :p(_p) { Life::born(this); }
	Box(const Box& b);
	Box(Box&& b) :p(b.p) { Life::used(&b); Life::born(this); b.p = nullptr; }
	~Box();
	Box& operator=(const Box& b);
	Box& operator=(Box&& b);
};
Box::Box(const Box& b) : p(nullptr) { Life::used(&b); Life::born(this); if (b.p) p = new V(*b.p); }
Box::~Box() { Life::died(this); delete p; p = nullptr; ka.v = -88; }
Box& Box::operator=(const Box& b) { Life::used(this); Life::used(&b); if (this != &b) { V* n = b.p ? new V(*b.p) : nullptr; delete p; p = n; } return *this; }
Box& Box::operator=(Box&& b) { Life::used(this); Life::used(&b); if (this != &b) { V* n = b.p; b.p = nullptr; delete p; p = n; } return *this; }

static std::map<std::string, V*> vs;
static long rd(const VA& a) { if (!a.whole()) Life::bad++; return a.rd(); }
static long rd(const VB& b) { return b.rd(); }
static long rd(const long& l) { return l; }

static std::string show(const V& v)
{
	// read through Index and the raw-type access only; the visitors are checked by their own operations
	std::string r = "[\"?\",0]";
	if (auto a = v.TryGet<VA>()) return "[\"a\"," + js(rd(*a)) + "]";
	if (auto a = v.TryGet<VB>()) return "[\"b\"," + js(rd(*a)) + "]";
	if (auto a = v.TryGet<long>()) return "[\"l\"," + js(*a) + "]";
	if (auto a = v.TryGet<Box>()) { Life::used(a); return "[\"x\"," + (a->p ? show(*a->p) : std::string("[]")) + "]"; }
	return r;
}
static Raw state()
{
	Obj o;
	for (auto& p : vs) o.f(p.first.c_str(), Raw{ show(*p.second) });
	return o.raw();
}
static Raw val(long v) { return ret("v", v); }

template<typename T, typename K> static Raw typed(const Toks& t, V& c)
{
	auto& n = t[0];
	const V& cc = c;
	long x = t.size() > 3 ? num(t[3]) : 0;
	auto repl = [&](V* k) { delete &c; vs[t[1]] = k; return ret("ok"); };
	auto mk = [&]() { return T(K{ x }); };
	if (n == "new") { const T y = mk(); return repl(new V(y)); }
	if (n == "newm") return repl(new V(mk()));
	if (n == "newidx") return repl(new V(VariantIndex<V::IndexOf<T>>{}, K{ x }));
	if (n == "newcast") return repl(new V(K{ x }));
	if (n == "set") { const T y = mk(); c = y; return ret("ok"); }
	if (n == "setm") { c = mk(); return ret("ok"); }
	if (n == "setidx") { c.Set(VariantIndex<V::IndexOf<T>>{}, K{ x }); return ret("ok"); }
	if (n == "setcast") { c = K{ x }; return ret("ok"); }
	if (n == "get") return val(rd(c.Get<T>()));
	if (n == "getc") return val(rd(cc.Get<T>()));
	if (n == "getm") { T y = std::move(c).template Get<T>(); return val(rd(y)); }
	if (n == "tryget") { auto p = c.TryGet<T>(); return p ? val(rd(*p)) : ret("none"); }
	if (n == "trygetc") { auto p = cc.TryGet<T>(); return p ? val(rd(*p)) : ret("none"); }
	if (n == "tryapply")
	{
		long got = -1; int calls = 0;
		bool b = c.TryApply([&](T& y) { calls++; got = rd(y); });
		if (b != (calls == 1) || calls > 1) return ret("calls", calls);
		return b ? val(got) : ret("none");
	}
	if (n == "tryapplyc")
	{
		long got = -1; int calls = 0;
		bool b = cc.TryApply([&](const T& y) { calls++; got = rd(y); });
		if (b != (calls == 1) || calls > 1) return ret("calls", calls);
		return b ? val(got) : ret("none");
	}
	bad_input("op " + n);
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	V& c = *vs[t[1]];
	const V& cc = c;
	if (t.size() > 2 && t[2] == "a") return typed<VA, KA>(t, c);
	if (t.size() > 2 && t[2] == "b") return typed<VB, KB>(t, c);
	if (t.size() > 2 && t[2] == "l") return typed<long, KL>(t, c);
	V* d = t.size() > 2 ? vs[t[2]] : nullptr;
	auto repl = [&](V* k) { delete &c; vs[t[1]] = k; return ret("ok"); };
	if (n == "newdef") return repl(new V);
	if (n == "copyctor") return repl(new V(const_cast<const V&>(*d)));
	if (n == "movector") return repl(new V(std::move(*d)));
	if (n == "copy") { c = const_cast<const V&>(*d); return ret("ok"); }
	if (n == "move") { c = std::move(*d); return ret("ok"); }
	if (n == "index") return ret("i", cc.Index());
	if (n == "apply" || n == "applyc")
	{
		int calls = 0; long idx = -1, v = 0;
		auto f = Overloading(
			[&](const VA& a) { calls++; idx = V::IndexOf<VA>; v = rd(a); },
			[&](const VB& a) { calls++; idx = V::IndexOf<VB>; v = rd(a); },
			[&](const long& a) { calls++; idx = V::IndexOf<long>; v = a; },
			[&](const Box& a) { calls++; idx = V::IndexOf<Box>; });
		if (n == "apply") c.Apply(f); else cc.Apply(f);
		if (calls != 1) return ret("calls", calls);
		return Raw{ "[\"ap\",[" + js(idx) + "," + js(v) + "]]" };
	}
	if (n == "applymut")
	{
		c.Apply(Overloading(
			[&](VA& a) { a.v++; }, [&](VB& b) { ++*b.p; }, [&](long& l) { l++; }, [&](Box& b) { b = Box(); }));
		return ret("ok");
	}
	if (n == "wrap") { const Box b(new V(const_cast<const V&>(*d))); c = b; return ret("ok"); }
	if (n == "wrapm") { c = Box(new V(const_cast<const V&>(*d))); return ret("ok"); }
	if (n == "setself")
	{
		if (auto p = cc.TryGet<VA>()) c = *p;
		else if (auto p = cc.TryGet<VB>()) c = *p;
		else if (auto p = cc.TryGet<long>()) c = *p;
		else if (auto p = cc.TryGet<Box>()) c = *p;
		else return ret("none");
		return ret("ok");
	}
	Box* b = c.TryGet<Box>();
	if (n == "unwrapk") { if (!b) return ret("skip"); c = b->ka; return ret("ok"); }
	if (!b || !b->p) return ret("skip");
	V& in = *b->p;
	if (n == "unwrap") { c = const_cast<const V&>(in); return ret("ok"); }
	if (n == "unwrapm") { c = std::move(in); return ret("ok"); }
	if (n == "unwrapv" || n == "unwrapvm")
	{
		bool m = n == "unwrapvm";
		if (auto p = in.TryGet<VA>()) { if (m) c = std::move(*p); else c = const_cast<const VA&>(*p); return ret("ok"); }
		if (auto p = in.TryGet<VB>()) { if (m) c = std::move(*p); else c = const_cast<const VB&>(*p); return ret("ok"); }
		if (auto p = in.TryGet<long>()) { if (m) c = std::move(*p); else c = const_cast<const long&>(*p); return ret("ok"); }
		if (auto p = in.TryGet<Box>()) { if (m) c = std::move(*p); else c = const_cast<const Box&>(*p); return ret("ok"); }
		return ret("none");
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long mem = 0;
		if (t[0] == "reset")
		{
			for (auto& p : vs) delete p.second;
			vs.clear();
			if (Life::live) Life::bad++;
			mem = Mem::left();
			for (auto& n : items(t[1])) vs[n] = new V;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		long live = Life::live;
		auto s = state();
		emit(Obj().f("o", echo(t)).f("r", r).f("s", s).f("live", live).f("bad", Life::bad).f("mem", mem));
		Life::bad = 0;
	});
}

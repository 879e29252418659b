// optional values (C17)
#include "elems.h"
#include "Primitives/Nullable.h"
using namespace vf;
using namespace vl;

namespace vf
{
	// constructible but not assignable
	struct Frozen
	{
		const long v;
		Frozen(long _v) :v(_v) { Life::born(this); }
		Frozen(const Frozen& o) :v(o.rd()) { Life::born(this); }
		Frozen(Frozen&& o) :v(o.rd()) { Life::born(this); }
		~Frozen() { Life::died(this); const_cast<long&>(v) = -88; }
		Frozen& operator=(const Frozen&) = delete;
		long rd()const { Life::used(this); return v; }
		auto operator<=>(const Frozen& o)const { return rd() <=> o.rd(); }
		bool operator==(const Frozen& o)const { return rd() == o.rd(); }
	};
	template<> struct El<Frozen> { static constexpr bool tracked = true, copyable = true; static Frozen mk(long v) { return Frozen(v); } static long rd(const Frozen& t) { return t.rd(); } };
}
#ifndef ELEM
#define ELEM vf::Tracked
#endif
typedef ELEM T;
typedef El<T> E;
typedef Nullable<T> N;
static std::map<std::string, N*> ns;

static Raw state()
{
	Obj o;
	for (auto& p : ns)
	{
		std::vector<long> v;
		if (*p.second) v.push_back(E::rd(p.second->Value()));
		o.f(p.first.c_str(), v);
	}
	return o.raw();
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	auto i = [&](int k) { return num(t[k]); };
	N& c = *ns[t[1]];
	const N& cc = c;
	N* d = t.size() > 2 && ns.count(t[2]) ? ns[t[2]] : nullptr;
	if constexpr (E::copyable)
	{
		if (n == "new") { const T x = E::mk(i(2)); N* k = new N(x); delete &c; ns[t[1]] = k; return ret("ok"); }
		if (n == "set") { const T x = E::mk(i(2)); c = x; return ret("ok"); }
		if (n == "copyctor") { delete &c; ns[t[1]] = new N(const_cast<const N&>(*d)); return ret("ok"); }
		if (n == "copy") { c = const_cast<const N&>(*d); return ret("ok"); }
		if (n == "setempty") { c = N::Empty; return ret("ok"); }
		if (n == "setfrom") { c = d->Value(); return ret("ok"); }
	}
	if (n == "newm") { N* k = new N(E::mk(i(2))); delete &c; ns[t[1]] = k; return ret("ok"); }
	if (n == "setm") { c = E::mk(i(2)); return ret("ok"); }
	if (n == "newempty") { delete &c; ns[t[1]] = new N; return ret("ok"); }
	if (n == "clear") { c.Reset(); return ret("ok"); }
	if (n == "movector") { delete &c; ns[t[1]] = new N(std::move(*d)); return ret("ok"); }
	if (n == "move") { c = std::move(*d); return ret("ok"); }
	if (n == "swap") { N x = std::move(c); c = std::move(*d); *d = std::move(x); return ret("ok"); }
	if (n == "value") return ret("v", E::rd(cc.Value()));
	if (n == "bool") return ret("b", (bool)cc);
	if (n == "cmp")
	{
		auto o = cc <=> *d;
		return ret("i", o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 9);
	}
	if (n == "eq")
	{
		bool b = cc == *d;
		if ((cc != *d) == b) return ret("b", 9);
		return ret("b", b);
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	E::mk(1);
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long mem = 0;
		if (t[0] == "reset")
		{
			for (auto& p : ns) delete p.second;
			ns.clear();
			if (E::tracked && Life::live) Life::bad++;
			mem = Mem::left();
			for (auto& n : items(t[1])) ns[n] = new N;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		long live = Life::live;
		emit(Obj().f("o", echo(t)).f("r", r).f("s", state()).f("live", live).f("bad", Life::bad).f("mem", mem));
		Life::bad = 0;
	});
}

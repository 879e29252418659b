// sorted lists, dictionaries and groups (C04, C05, C06, C07)
// -DMODE=1 sorted list of VF_KT, 2 dictionary VF_KT->VF_VT, 3 group VF_KT->VF_VT
#include "elems.h"
#include "Collections/Dictionary.h"
using namespace vf;
using namespace vl;
using namespace vl::collections;

namespace vf
{
	// ordered by v / 10 only: equal elements can be told apart
	struct Weak
	{
		long v;
		Weak() :v(0) { Life::born(this); }
		Weak(long _v) :v(_v) { Life::born(this); }
		Weak(const Weak& o) :v(o.rd()) { Life::born(this); }
		Weak(Weak&& o) :v(o.rd()) { Life::born(this); o.v = -77; }
		~Weak() { Life::died(this); v = -88; }
		Weak& operator=(const Weak& o) { Life::used(this); v = o.rd(); return *this; }
		Weak& operator=(Weak&& o) { Life::used(this); auto t = o.rd(); o.v = -77; v = t; return *this; }
		long rd()const { Life::used(this); return v; }
		std::weak_ordering operator<=>(const Weak& o)const { return rd() / 10 <=> o.rd() / 10; }
		bool operator==(const Weak& o)const { return rd() / 10 == o.rd() / 10; }
	};
	template<> struct El<Weak> : ElObj<Weak> { static constexpr bool tracked = true; static long rd(const Weak& t) { return t.rd(); } };
}

#ifndef VF_KT
#define VF_KT vf::Tracked
#endif
#ifndef VF_VT
#define VF_VT vf::Tracked
#endif
typedef VF_KT K;
typedef VF_VT V;
typedef El<K> EK;
typedef El<V> EV;
#if MODE == 1
typedef SortedList<K> C;
static const bool tracked = EK::tracked;
#elif MODE == 2
typedef Dictionary<K, V> C;
static const bool tracked = EK::tracked && EV::tracked;
#else
typedef Group<K, V> C;
static const bool tracked = EK::tracked && EV::tracked;
#endif

static std::map<std::string, C*> cs;

static std::vector<long> contents(const List<V>& l) { std::vector<long> v; for (vint i = 0; i < l.Count(); i++) v.push_back(EV::rd(l.Get(i))); return v; }

static Raw state()
{
	Obj o;
	for (auto& p : cs)
	{
		auto& c = *p.second;
#if MODE == 1
		std::vector<long> v;
		for (vint i = 0; i < c.Count(); i++) v.push_back(EK::rd(c.Get(i)));
		o.f(p.first.c_str(), v);
#elif MODE == 2
		std::vector<std::pair<long, long>> v;
		if (c.Keys().Count() != c.Values().Count()) v.push_back({ -1, -1 });
		else for (vint i = 0; i < c.Count(); i++) v.push_back({ EK::rd(c.Keys().Get(i)), EV::rd(c.Values().Get(i)) });
		o.f(p.first.c_str(), v);
#else
		std::vector<std::pair<long, std::vector<long>>> v;
		for (vint i = 0; i < c.Count(); i++) v.push_back({ EK::rd(c.Keys().Get(i)), contents(c.GetByIndex(i)) });
		o.f(p.first.c_str(), v);
#endif
	}
	return o.raw();
}

#if MODE != 1
static Raw enumerated()
{
	Obj o;
	for (auto& p : cs)
	{
		std::vector<std::pair<long, long>> v;
		auto e = p.second->CreateEnumerator();
		while (e->Next()) v.push_back({ EK::rd(e->Current().key), EV::rd(e->Current().value) });
		delete e;
		o.f(p.first.c_str(), v);
	}
	return o.raw();
}
#endif

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	auto i = [&](int k) { return (vint)ext(t[k]); };
	C& c = *cs[t[1]];
	const C& cc = c;
	if (n == "move") { c = std::move(*cs[t[2]]); return ret("ok"); }
	if (n == "movector") { delete &c; cs[t[1]] = new C(std::move(*cs[t[2]])); return ret("ok"); }
	if (n == "fresh") { delete &c; cs[t[1]] = new C; return ret("ok"); }
	if (n == "clear") return ret("b", c.Clear());
#if MODE == 1
	if (n == "add") { const K x = EK::mk(i(2)); return ret("i", c.Add(x)); }
	if (n == "addm") return ret("i", c.Add(EK::mk(i(2))));
	if (n == "addself") return ret("i", c.Add(cc[i(2)]));
	if (n == "indexof") { auto k = EK::key(i(2)); return ret("i", cc.IndexOf(k)); }
	if (n == "contains") { auto k = EK::key(i(2)); return ret("b", cc.Contains(k)); }
	if (n == "remove") { auto k = EK::key(i(2)); return ret("b", c.Remove(k)); }
	if (n == "removeself") { auto& x = cc[i(2)]; return ret("b", c.Remove(KeyType<K>::GetKeyValue(x))); }
	if (n == "removeat") return ret("b", c.RemoveAt(i(2)));
	if (n == "removerange") return ret("b", c.RemoveRange(i(2), i(3)));
	if (n == "get") return ret("v", EK::rd(cc.Get(i(2))));
	if (n == "at") return ret("v", EK::rd(cc[i(2)]));
	if (n == "copyctor") { C* k = new C(const_cast<const C&>(*cs[t[2]])); delete &c; cs[t[1]] = k; return ret("ok"); }
#else
	if (n == "add") { const K k = EK::mk(i(2)); const V v = EV::mk(i(3)); return ret("b", c.Add(k, v)); }
	if (n == "addcm") { const K k = EK::mk(i(2)); return ret("b", c.Add(k, EV::mk(i(3)))); }
	if (n == "addmc") { const V v = EV::mk(i(3)); return ret("b", c.Add(EK::mk(i(2)), v)); }
	if (n == "addmm") return ret("b", c.Add(EK::mk(i(2)), EV::mk(i(3))));
	if (n == "addpair") { const Pair<K, V> p(EK::mk(i(2)), EV::mk(i(3))); return ret("b", c.Add(p)); }
	if (n == "addpairm") return ret("b", c.Add(Pair<K, V>(EK::mk(i(2)), EV::mk(i(3)))));
	if (n == "count") return ret("i", cc.Count());
#endif
#if MODE == 2
	if (n == "set") { const K k = EK::mk(i(2)); const V v = EV::mk(i(3)); return ret("b", c.Set(k, v)); }
	if (n == "setcm") { const K k = EK::mk(i(2)); return ret("b", c.Set(k, EV::mk(i(3)))); }
	if (n == "setmc") { const V v = EV::mk(i(3)); return ret("b", c.Set(EK::mk(i(2)), v)); }
	if (n == "setmm") return ret("b", c.Set(EK::mk(i(2)), EV::mk(i(3))));
	if (n == "addself") { auto k2 = EK::key(i(3)); const K k = EK::mk(i(2)); return ret("b", c.Add(k, cc.Get(k2))); }
	if (n == "setself") { auto k2 = EK::key(i(3)); const K k = EK::mk(i(2)); return ret("b", c.Set(k, cc.Get(k2))); }
	if (n == "remove") { auto k = EK::key(i(2)); return ret("b", c.Remove(k)); }
	if (n == "removeself") { auto& k = cc.Keys()[i(2)]; return ret("b", c.Remove(KeyType<K>::GetKeyValue(k))); }
	if (n == "get") { auto k = EK::key(i(2)); return ret("v", EV::rd(cc.Get(k))); }
	if (n == "at") { auto k = EK::key(i(2)); return ret("v", EV::rd(cc[k])); }
	if (n == "haskey") { auto k = EK::key(i(2)); if (cc.Keys().Contains(k) != (cc.Keys().IndexOf(k) != -1)) return ret("i", -9); return ret("i", cc.Keys().IndexOf(k)); }
#endif
#if MODE == 3
	auto L = [](const List<V>& l) { return Raw{ "[\"l\"," + js(contents(l)) + "]" }; };
	if (n == "addself") { auto k2 = EK::key(i(3)); const K k = EK::mk(i(2)); if (!cc.Contains(k2)) return ret("err"); return ret("b", c.Add(k, cc.Get(k2)[i(4)])); }
	if (n == "removekey") { auto k = EK::key(i(2)); return ret("b", c.Remove(k)); }
	if (n == "remove") { auto k = EK::key(i(2)); auto v = EV::key(i(3)); return ret("b", c.Remove(k, v)); }
	if (n == "removeself") { auto k = EK::key(i(2)); if (!cc.Contains(k)) return ret("err"); auto& v = cc.Get(k)[i(3)]; return ret("b", c.Remove(k, KeyType<V>::GetKeyValue(v))); }
	if (n == "haskey") { auto k = EK::key(i(2)); return ret("b", cc.Contains(k)); }
	if (n == "has") { auto k = EK::key(i(2)); auto v = EV::key(i(3)); return ret("b", cc.Contains(k, v)); }
	if (n == "get") { auto k = EK::key(i(2)); return L(cc.Get(k)); }
	if (n == "at") { auto k = EK::key(i(2)); return L(cc[k]); }
	if (n == "getbyindex") return L(cc.GetByIndex(i(2)));
	if (n == "join")
	{
		std::vector<std::string> calls;
		auto call = [&](int kind, const K& k, const List<V>* a, const List<V>* b)
		{
			std::vector<long> e;
			calls.push_back("[" + js(kind) + "," + js(EK::rd(k)) + "," + js(a ? contents(*a) : e) + "," + js(b ? contents(*b) : e) + "]");
		};
		GroupInnerJoin(cc, *cs[t[2]],
			[&](const K& k, const List<V>& a) { call(1, k, &a, nullptr); },
			[&](const K& k, const List<V>& b) { call(2, k, nullptr, &b); },
			[&](const K& k, const List<V>& a, const List<V>& b) { call(3, k, &a, &b); });
		return Raw{ "[\"j\"," + arr(calls).t + "]" };
	}
#endif
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	EK::mk(1); EV::mk(1);
	return run(argc, argv, [&](const Toks& t)
	{
		if (t[0] == "reset")
		{
			for (auto& p : cs) delete p.second;
			cs.clear();
			long left = tracked ? Life::live : 0, bad = Life::bad;
			if (tracked) Life::reset(); else Life::bad = 0;
			long mem = Mem::left();
			Obj o;
			for (auto& n : items(t[1])) cs[n] = new C;
			o.f("o", echo(t)).f("r", ret("ok")).f("s", state()).f("live", left).f("bad", bad).f("mem", mem);
#if MODE != 1
			o.f("en", enumerated());
#endif
			emit(o);
		}
		else
		{
			Raw r;
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
			long live = tracked ? Life::live : -1;
			Obj o;
			o.f("o", echo(t)).f("r", r).f("s", state()).f("live", live).f("bad", Life::bad).f("mem", 0);
#if MODE != 1
			o.f("en", enumerated());
#endif
			emit(o);
		}
	});
}

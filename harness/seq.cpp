// lists and arrays of ELEM (C03, C04)
#include "elems.h"
#include "Collections/List.h"

using namespace vf;
using namespace vl;
using namespace vl::collections;
#ifndef ELEM
#define ELEM vf::Tracked
#endif
typedef ELEM T;
typedef El<T> E;
typedef List<T> L;
typedef Array<T> A;

static std::map<std::string, L*> lists;
static std::map<std::string, A*> arrays;
static size_t baseline = 0;

static void drop()
{
	for (auto& p : lists) delete p.second;
	for (auto& p : arrays) delete p.second;
	lists.clear(); arrays.clear();
}

static Raw state()
{
	Obj o;
	for (auto& p : lists)
	{
		std::vector<long> v;
		for (vint i = 0; i < p.second->Count(); i++) v.push_back(E::rd(p.second->Get(i)));
		o.f(p.first.c_str(), v);
	}
	for (auto& p : arrays)
	{
		std::vector<long> v;
		for (vint i = 0; i < p.second->Count(); i++) v.push_back(E::rd(p.second->Get(i)));
		o.f(p.first.c_str(), v);
	}
	return o.raw();
}

template<typename C> static bool common(C& c, const Toks& t, Raw& r)
{
	auto& n = t[0];
	auto i = [&](int k) { return (vint)ext(t[k]); };
	if constexpr (E::copyable)
	{
		if (n == "set") { const T x = E::mk(i(3)); r = ret("b", c.Set(i(2), x)); return true; }
		if (n == "setself") { r = ret("b", c.Set(i(2), c[i(3)])); return true; }
	}
	if (n == "setm") { r = ret("b", c.Set(i(2), E::mk(i(3)))); return true; }
	if (n == "assignat") { T x = E::mk(i(3)); c[i(2)] = std::move(x); r = ret("ok"); return true; }
	if (n == "get") { r = ret("v", E::rd(c.Get(i(2)))); return true; }
	if (n == "at") { const C& cc = c; r = ret("v", E::rd(cc[i(2)])); return true; }
	if (n == "atm") { r = ret("v", E::rd(c[i(2)])); return true; }
	if (n == "indexof") { auto k = E::key(i(2)); r = ret("i", c.IndexOf(k)); return true; }
	if (n == "contains") { auto k = E::key(i(2)); r = ret("b", c.Contains(k)); return true; }
	return false;
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	auto i = [&](int k) { return (vint)ext(t[k]); };
	Raw r;
	if (lists.count(t[1]))
	{
		L& c = *lists[t[1]];
		if (common(c, t, r)) return r;
		if constexpr (E::copyable)
		{
			if (n == "add") { const T x = E::mk(i(2)); return ret("i", c.Add(x)); }
			if (n == "addself") return ret("i", c.Add(const_cast<const L&>(c)[i(2)]));
			if (n == "insert") { const T x = E::mk(i(3)); return ret("i", c.Insert(i(2), x)); }
			if (n == "insertself") return ret("i", c.Insert(i(2), const_cast<const L&>(c)[i(3)]));
			if (n == "removeself") { auto& x = const_cast<const L&>(c)[i(2)]; return ret("b", c.Remove(KeyType<T>::GetKeyValue(x))); }
		}
		if (n == "addselfm") { vint p = i(2); vint at = c.Add(std::move(c[p])); T x = E::mk(i(3)); c[p] = std::move(x); return ret("i", at); }
		if (n == "addm") return ret("i", c.Add(E::mk(i(2))));
		if (n == "insertm") return ret("i", c.Insert(i(2), E::mk(i(3))));
		if (n == "removeat") return ret("b", c.RemoveAt(i(2)));
		if (n == "remove") { auto k = E::key(i(2)); return ret("b", c.Remove(k)); }
		if (n == "removerange") return ret("b", c.RemoveRange(i(2), i(3)));
		if (n == "clear") return ret("b", c.Clear());
		if (n == "move") { c = std::move(*lists[t[2]]); return ret("ok"); }
		if (n == "movector") { delete &c; lists[t[1]] = new L(std::move(*lists[t[2]])); return ret("ok"); }
		if (n == "fresh") { delete &c; lists[t[1]] = new L; return ret("ok"); }
	}
	else if (arrays.count(t[1]))
	{
		A& c = *arrays[t[1]];
		if (common(c, t, r)) return r;
		auto fill = [&](A& a, vint from) { if constexpr (E::trivialDefault) for (vint k = from; k < a.Count(); k++) a.Set(k, E::mk(0)); };
		if (n == "new") { A* a = new A(i(2)); delete &c; arrays[t[1]] = a; fill(*a, 0); return ret("ok"); }
		if (n == "resize") { vint old = c.Count(); c.Resize(i(2)); fill(c, old); return ret("ok"); }
		if constexpr (E::copyable)
		{
			if (n == "fromraw")
			{
				auto v = nums(t[2]);
				T* raw = (T*)malloc(sizeof(T) * (v.size() + 1));
				for (size_t k = 0; k < v.size(); k++) new(&raw[k])T(E::mk(v[k]));
				A* a = new A(raw, (vint)v.size());
				for (size_t k = 0; k < v.size(); k++) raw[k].~T();
				free(raw);
				delete &c; arrays[t[1]] = a;
				return ret("ok");
			}
		}
		if (n == "move") { c = std::move(*arrays[t[2]]); return ret("ok"); }
		if (n == "movector") { delete &c; arrays[t[1]] = new A(std::move(*arrays[t[2]])); return ret("ok"); }
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	E::mk(1);
	size_t mem0 = 0;
	return run(argc, argv, [&](const Toks& t)
	{
		if (t[0] == "reset")
		{
			// reset LISTS ARRAYS: all containers of the previous program are destroyed first
			drop();
			long left = E::tracked ? Life::live : 0;
			long bad = Life::bad;
			if (E::tracked) Life::reset(); else Life::bad = 0;
			long mem = Mem::left();
			Obj o;
			o.f("o", echo(t)).f("mem", mem);
			for (auto& n : items(t[1])) lists[n] = new L;
			for (auto& n : items(t[2])) arrays[n] = new A;
			o.f("r", ret("ok")).f("s", state()).f("live", left).f("bad", bad);
			emit(o);
		}
		else
		{
			Obj o;
			o.f("o", echo(t)).f("mem", 0);
			Raw r;
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
			long live = E::tracked ? Life::live : -1;
			o.f("r", r).f("s", state()).f("live", live).f("bad", Life::bad);
			emit(o);
		}
	});
}

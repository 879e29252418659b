// C25: CopyFrom between containers, raw ranges, strings and lazy sequences.
#include "elems.h"
#include <memory>
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationCopyFrom.h"
#include "Collections/OperationString.h"
using namespace vl;
using namespace vl::collections;
using namespace vf;

#ifdef WITH_STRING
namespace vf
{
	template<> struct El<wchar_t>
	{
		static constexpr bool tracked = false;
		static wchar_t mk(long v) { return v ? (wchar_t)(v + 64) : L'\0'; }
		static long rd(const wchar_t& v) { return v ? (long)v - 64 : 0; }
	};
}
typedef wchar_t E;
#else
typedef ELEM E;
#endif
typedef El<E> X;
typedef Pair<E, E> PE;
typedef Pair<const E&, const E&> PR;

struct All
{
	std::string kind;
	std::unique_ptr<List<E>> list;
	std::unique_ptr<Array<E>> array;
	std::unique_ptr<SortedList<E>> sorted;
	std::unique_ptr<List<PE>> plist;
	std::unique_ptr<Array<PE>> parray;
	std::unique_ptr<Dictionary<E, E>> dict;
	std::unique_ptr<Group<E, E>> group;
	std::unique_ptr<ObjectString<wchar_t>> str;
	void make(const std::string& k)
	{
		kind = k;
		if (k == "list") list.reset(new List<E>);
		else if (k == "array") array.reset(new Array<E>);
		else if (k == "sorted") sorted.reset(new SortedList<E>);
		else if (k == "plist") plist.reset(new List<PE>);
		else if (k == "parray") parray.reset(new Array<PE>);
		else if (k == "dict") dict.reset(new Dictionary<E, E>);
		else if (k == "group") group.reset(new Group<E, E>);
		else if (k == "str") str.reset(new ObjectString<wchar_t>());
		else bad_input(k);
	}
	static std::string el(const E& e) { return js(X::rd(e)); }
	static std::string el(const E& k, const E& v) { return "[" + el(k) + "," + el(v) + "]"; }
	std::string read(long& n)
	{
		std::vector<std::string> r;
		if (list) for (vint i = 0; i < list->Count(); i++) { r.push_back(el(list->Get(i))); n++; }
		if (array) for (vint i = 0; i < array->Count(); i++) { r.push_back(el(array->Get(i))); n++; }
		if (sorted) for (vint i = 0; i < sorted->Count(); i++) { r.push_back(el(sorted->Get(i))); n++; }
		if (plist) for (vint i = 0; i < plist->Count(); i++) { r.push_back(el(plist->Get(i).key, plist->Get(i).value)); n += 2; }
		if (parray) for (vint i = 0; i < parray->Count(); i++) { r.push_back(el(parray->Get(i).key, parray->Get(i).value)); n += 2; }
		if (dict) for (vint i = 0; i < dict->Count(); i++) { r.push_back(el(dict->Keys()[i], dict->Values()[i])); n += 2; }
		if (group) for (vint i = 0; i < group->Count(); i++)
		{
			n++;
			for (vint j = 0; j < group->GetByIndex(i).Count(); j++) { r.push_back(el(group->Keys()[i], group->GetByIndex(i)[j])); n++; }
		}
#ifdef WITH_STRING
		if (str) for (vint i = 0; i < str->Length(); i++) r.push_back(el((*str)[i]));
#endif
		return arr(r).t;
	}
};
static std::map<std::string, All> slots;

template<typename F> void withNum(All& a, F f) { if (a.list) f(*a.list); else if (a.array) f(*a.array); else if (a.sorted) f(*a.sorted); else bad_input("numbers"); }
template<typename F> void withPair(All& a, F f) { if (a.plist) f(*a.plist); else if (a.parray) f(*a.parray); else if (a.dict) f(*a.dict); else if (a.group) f(*a.group); else bad_input("pairs"); }
static bool pairs(All& a) { return a.plist || a.parray || a.dict || a.group; }

static void copyNum(All& d, All& s, bool append)
{
#ifdef WITH_STRING
	if (s.str && d.str) bad_input("string to string");
	if (s.str) { withNum(d, [&](auto& x) { CopyFrom(x, *s.str, append); }); return; }
	if (d.str) { withNum(s, [&](auto& y) { CopyFrom(*d.str, y, append); }); return; }
#endif
	withNum(d, [&](auto& x) { withNum(s, [&](auto& y) { CopyFrom(x, y, append); }); });
}
template<typename L> void lazyTo(All& d, L lazy, bool append)
{
	if constexpr (std::is_same_v<typename L::ElementType, E>)
	{
#ifdef WITH_STRING
		if (d.str) { CopyFrom(*d.str, lazy, append); return; }
#endif
		withNum(d, [&](auto& x) { CopyFrom(x, lazy, append); });
	}
	else withPair(d, [&](auto& x) { CopyFrom(x, lazy, append); });
}
static long keyOf(const E& e) { return X::rd(e); }
template<typename P, typename Q> static long keyOf(const Pair<P, Q>& p) { return X::rd(p.key); }

static void perform(const Toks& t)
{
	auto& n = t[0];
	if (!slots.count(t[1])) bad_input(t[1]);
	All& d = slots[t[1]];
	if (n == "copy")
	{
		All& s = slots[t[2]];
		bool a = num(t[3]);
		if (pairs(d) != pairs(s)) bad_input("mixed");
		if (!pairs(d)) copyNum(d, s, a);
		else withPair(d, [&](auto& x) { withPair(s, [&](auto& y) { CopyFrom(x, y, a); }); });
	}
	else if (n == "lazy")
	{
		All& s = slots[t[2]];
		auto& how = t[3];
		bool a = num(t[4]);
		if (pairs(d) != pairs(s) || &d == &s) bad_input("mixed");
		auto go = [&](auto& y)
		{
			auto l = From(y);
			typedef typename decltype(l)::ElementType T;
			if (how == "all") lazyTo(d, l, a);
			else if (how == "some") lazyTo(d, LazyList<T>(l.Where([](const T& e) { long k = keyOf(e); return std::is_same_v<T, E> ? k % 2 == 1 : k % 2 == 0; })), a);
			else if (how == "twice") lazyTo(d, LazyList<T>(l.Concat(From(y))), a);
			else if (how == "back")
			{
				if constexpr (!std::is_same_v<T, PR>) lazyTo(d, LazyList<T>(l.Reverse()), a);
				else bad_input("references cannot be reversed");
			}
			else bad_input(how);
		};
		if (s.str) bad_input("no lazy string");
		if (pairs(s)) withPair(s, go); else withNum(s, go);
	}
	else if (n == "raw")
	{
		auto& how = t[2];
		bool a = num(t[4]);
		if (!pairs(d))
		{
			std::vector<E> v;
			for (long x : nums(t[3])) v.push_back(X::mk(x));
			auto go = [&](auto& x)
			{
				if (how == "count") CopyFrom(x, v.data(), (vint)v.size(), a); else CopyFrom(x, (const E*)v.data(), (const E*)(v.data() + v.size()), a);
			};
#ifdef WITH_STRING
			if (d.str)
			{
				// a string takes a container
				Array<E> src((vint)v.size());
				for (size_t i = 0; i < v.size(); i++) src[(vint)i] = v[i];
				CopyFrom(*d.str, src, a);
				return;
			}
#endif
			withNum(d, go);
		}
		else
		{
			std::vector<PE> v;
			for (auto& x : items(t[3])) { auto p = nums(x); v.push_back(PE(X::mk(p[0]), X::mk(p[1]))); }
			withPair(d, [&](auto& x)
			{
				if (how == "count") CopyFrom(x, v.data(), (vint)v.size(), a); else CopyFrom(x, (const PE*)v.data(), (const PE*)(v.data() + v.size()), a);
			});
		}
	}
	else if (n == "clear") { auto k = d.kind; slots[t[1]] = All(); slots[t[1]].make(k); }
	else bad_input(n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [](const Toks& t)
	{
		{
			Obj o;
			o.f("o", echo(t));
			long left = 0;
			if (t[0] == "reset")
			{
				slots.clear();
				left = X::tracked ? Life::live : 0;
				Life::reset();
				for (auto& x : items(t[1])) { auto p = items(x); slots[p[0]].make(p[1]); }
			}
			else perform(t);
			std::vector<std::string> c;
			long n = 0;
			for (auto& s : slots) c.push_back("[" + js(s.first) + "," + s.second.read(n) + "]");
			long extra = X::tracked ? Life::live - n : 0;
			o.f("r", Raw{ "[\"ok\"]" }).f("c", arr(c)).f("bad", Life::bad).f("extra", extra);
			if (t[0] == "reset") o.f("left", left);
			emit(o);
		}
	});
}

// C24: comparison of composite values.
#include "vf.h"
#include <cmath>
#include "Primitives/Tuple.h"
#include "Primitives/Nullable.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationCopyFrom.h"
using namespace vl;
using namespace vl::collections;
using namespace vf;

// text to value
template<typename T> struct Mk;
template<> struct Mk<vint> { static vint mk(const std::string& s) { return num(s); } };
template<> struct Mk<int> { static int mk(const std::string& s) { return (int)num(s); } };
template<> struct Mk<double> { static double mk(const std::string& s) { long v = num(s); return v == 99 ? NAN : (double)v; } };
template<typename A, typename B> struct Mk<Pair<A, B>> { static Pair<A, B> mk(const std::string& s) { auto p = items(s); return Pair<A, B>(Mk<A>::mk(p[0]), Mk<B>::mk(p[1])); } };
template<> struct Mk<Tuple<>> { static Tuple<> mk(const std::string&) { return {}; } };
template<typename A> struct Mk<Tuple<A>> { static Tuple<A> mk(const std::string& s) { auto p = items(s); return Tuple<A>(Mk<A>::mk(p[0])); } };
template<typename A, typename B> struct Mk<Tuple<A, B>> { static Tuple<A, B> mk(const std::string& s) { auto p = items(s); return Tuple<A, B>(Mk<A>::mk(p[0]), Mk<B>::mk(p[1])); } };
template<typename A, typename B, typename C> struct Mk<Tuple<A, B, C>> { static Tuple<A, B, C> mk(const std::string& s) { auto p = items(s); return Tuple<A, B, C>(Mk<A>::mk(p[0]), Mk<B>::mk(p[1]), Mk<C>::mk(p[2])); } };
template<typename A, typename B, typename C, typename D> struct Mk<Tuple<A, B, C, D>> { static Tuple<A, B, C, D> mk(const std::string& s) { auto p = items(s); return Tuple<A, B, C, D>(Mk<A>::mk(p[0]), Mk<B>::mk(p[1]), Mk<C>::mk(p[2]), Mk<D>::mk(p[3])); } };
template<typename A> struct Mk<Nullable<A>> { static Nullable<A> mk(const std::string& s) { auto p = items(s); Nullable<A> r; if (p.size()) r = Mk<A>::mk(p[0]); return r; } };

static const char* nm(std::partial_ordering o) { return o < 0 ? "lt" : o > 0 ? "gt" : o == 0 ? "eq" : "un"; }
static Raw res(const char* c, int eq, const char* r) { return Raw{ "[" + js(c) + "," + js(eq) + "," + js(r) + "]" }; }

template<typename A, typename B> Raw both(const A& a, const B& b)
{
	auto c = nm(a <=> b);
	auto r = nm(b <=> a);
	bool eq = a == b;
	// the derived operators say the same
	bool ok = (b == a) == eq && (a != b) == !eq && (a < b) == (c == std::string("lt")) && (a > b) == (c == std::string("gt"))
		&& (a <= b) == (c == std::string("lt") || c == std::string("eq")) && (a >= b) == (c == std::string("gt") || c == std::string("eq"));
	return res(ok ? c : "derived", eq, r);
}
template<typename A, typename B = A> Raw plain(const Toks& t) { return both(Mk<A>::mk(t[2]), Mk<B>::mk(t[3])); }

// sequences: several kinds of container on either side
template<typename T, typename F> Raw with(const std::string& kind, const std::string& text, F f)
{
	if (kind == "list") { List<T> x; for (auto& e : items(text)) x.Add(Mk<T>::mk(e)); return f(x); }
	if (kind == "array") { auto v = items(text); Array<T> x((vint)v.size()); for (size_t i = 0; i < v.size(); i++) x[(vint)i] = Mk<T>::mk(v[i]); return f(x); }
	if (kind == "lazy") { List<T> x; for (auto& e : items(text)) x.Add(Mk<T>::mk(e)); return f(From(x).Where([](const T&) { return true; })); }
	if (kind == "lazylist") { auto x = Ptr(new List<T>); for (auto& e : items(text)) x->Add(Mk<T>::mk(e)); return f(LazyList<T>(x)); }
	if (kind == "concat")
	{
		List<T> x, y; auto v = items(text);
		for (size_t i = 0; i < v.size(); i++) (i < v.size() / 2 ? x : y).Add(Mk<T>::mk(v[i]));
		return f(From(x).Concat(y));
	}
	if constexpr (std::is_same_v<T, vint>)
	{
		if (kind == "sorted") { SortedList<T> x; for (auto& e : items(text)) x.Add(Mk<T>::mk(e)); return f(x); }
	}
	bad_input(kind);
}
template<typename F> Raw withPairs(const std::string& kind, const std::string& text, F f)
{
	if (kind == "dict") { Dictionary<vint, vint> x; for (auto& e : items(text)) { auto p = nums(e); x.Add(p[0], p[1]); } return f(x); }
	if (kind == "group") { Group<vint, vint> x; for (auto& e : items(text)) { auto p = nums(e); x.Add(p[0], p[1]); } return f(x); }
	return with<Pair<vint, vint>>(kind, text, f);
}
static auto cmp = [](auto& x, auto& y) { return res(nm(CompareEnumerable(x, y)), -1, nm(CompareEnumerable(y, x))); };
template<typename T> Raw seqs(const Toks& t)
{
	return with<T>(t[4], t[2], [&](const auto& x) { return with<T>(t[5], t[3], [&](const auto& y) { return cmp(x, y); }); });
}

static Raw perform(const Toks& t)
{
	auto& k = t[1];
	auto form = t[4] + t[5];
	if (k == "ii")
	{
		if (form == "pp") return plain<Pair<vint, vint>>(t);
		if (form == "tt") return plain<Tuple<vint, vint>>(t);
		if (form == "ts") return plain<Tuple<vint, vint>, Tuple<int, vint>>(t);
		if (form == "ps") return plain<Pair<vint, vint>, Pair<int, vint>>(t);
		if (form == "rr")
		{
			auto a = nums(t[2]), b = nums(t[3]);
			vint a0 = a[0], a1 = a[1], b0 = b[0], b1 = b[1];
			// references follow what they refer to
			vint x = 7, y = 7;
			Tuple<const vint&, vint> l(x, a1); Tuple<const vint&, vint> r(y, b1);
			x = a0; y = b0;
			return both(l, r);
		}
	}
	if (k == "id") return form == "pp" ? plain<Pair<vint, double>>(t) : form == "tt" ? plain<Tuple<vint, double>>(t) : plain<Tuple<vint, double>, Tuple<int, double>>(t);
	if (k == "di") return form == "pp" ? plain<Pair<double, vint>>(t) : plain<Tuple<double, vint>>(t);
	if (k == "dd") return form == "pp" ? plain<Pair<double, double>>(t) : plain<Tuple<double, double>>(t);
	if (k == "t0") return plain<Tuple<>>(t);
	if (k == "t1") return plain<Tuple<double>>(t);
	if (k == "idi") return plain<Tuple<vint, double, vint>>(t);
	if (k == "iii") return form == "tt" ? plain<Tuple<vint, vint, vint>>(t) : plain<Tuple<vint, vint, vint>, Tuple<int, vint, int>>(t);
	if (k == "iiii") return plain<Tuple<vint, vint, vint, vint>>(t);
	if (k == "ni") return plain<Nullable<vint>>(t);
	if (k == "nd") return plain<Nullable<double>>(t);
	if (k == "nid") return plain<Nullable<Pair<vint, double>>>(t);
	if (k == "nn") return plain<Nullable<Nullable<vint>>>(t);
	if (k == "tn") return form == "pp" ? plain<Pair<Nullable<vint>, Nullable<double>>>(t) : plain<Tuple<Nullable<vint>, Nullable<double>>>(t);
	if (k == "pt") return form == "pp" ? plain<Pair<Tuple<vint, double>, Nullable<vint>>>(t) : plain<Tuple<Pair<vint, double>, Nullable<vint>>>(t);
	if (k == "si") return seqs<vint>(t);
	if (k == "sd") return seqs<double>(t);
	if (k == "sn") return seqs<Nullable<vint>>(t);
	if (k == "spd") return seqs<Pair<vint, double>>(t);
	if (k == "sp") return withPairs(t[4], t[2], [&](const auto& x) { return withPairs(t[5], t[3], [&](const auto& y) { return cmp(x, y); }); });
	bad_input(k);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		if (t[0] == "reset") o.f("r", Raw{ "[\"ok\"]" }).f("left", Mem::left());
		else o.f("r", perform(t));
		emit(o);
	});
}

// builds lazy sequences from the expressions of spec/SeqAlg.tla
#pragma once
#include "vf.h"
#include <memory>
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationCopyFrom.h"
#include "Collections/OperationForEach.h"

namespace vf
{
	using namespace vl;
	using namespace vl::collections;
	typedef LazyList<long> LL;
	typedef Pair<const long&, const long&> KV;
	typedef LazyList<KV> KVL;
	typedef Pair<long, long> PP;

	struct Num { long v; virtual ~Num() {} };
	struct OddNum : Num {};

	// containers the sequences refer to; kept until the next program
	inline std::vector<std::shared_ptr<void>> arena;
	template<typename T> T& keep() { auto p = std::make_shared<T>(); arena.push_back(p); return *p; }
	inline std::function<LL(const std::string&, const std::string&)> named;	// src and var

	inline long calls;	// of functions that belong to the program
	inline long fn(const std::string& f, long x)
	{
		calls++;
		if (f == "inc") return x + 1;
		if (f == "neg") return -x;
		if (f == "mod3") return ((x % 3) + 3) % 3;
		if (f == "zero") return 0;
		if (f == "ten") return x * 10;
		if (f == "id") return x;
		bad_input("function " + f);
	}
	inline bool pr(const std::string& p, long x)
	{
		calls++;
		if (p == "odd") return x % 2 != 0;
		if (p == "gt1") return x > 1;
		if (p == "none") return false;
		if (p == "all") return true;
		bad_input("predicate " + p);
	}

	inline Dictionary<long, long>& dict(const std::string& s)
	{
		auto& d = keep<Dictionary<long, long>>();
		auto v = nums(s);
		for (size_t i = 0; i + 1 < v.size(); i += 2) d.Set(v[i], v[i + 1]);
		return d;
	}
	inline Group<long, long>& group(const std::string& s)
	{
		auto& d = keep<Group<long, long>>();
		auto v = nums(s);
		for (size_t i = 0; i + 1 < v.size(); i += 2) d.Add(v[i], v[i + 1]);
		return d;
	}

	// sequences of key-value pairs that stay pairs of references throughout
	inline bool isKV(const std::string& e)
	{
		auto t = items(e);
		if (t[0] == "dict" || t[0] == "group") return true;
		if (t[0] == "take" || t[0] == "skip" || t[0] == "repeat") return isKV(t[2]);
		if (t[0] == "copy") return isKV(t[1]);
		if (t[0] == "concat") return isKV(t[1]) && isKV(t[2]);
		return false;
	}
	inline KVL buildKV(const std::string& e)
	{
		auto t = items(e);
		if (t[0] == "dict") return From(dict(t[1]));
		if (t[0] == "group") return From(group(t[1]));
		if (t[0] == "take") return buildKV(t[2]).Take(ext(t[1]));
		if (t[0] == "skip") return buildKV(t[2]).Skip(ext(t[1]));
		if (t[0] == "repeat") return buildKV(t[2]).Repeat(num(t[1]));
		if (t[0] == "copy") { KVL x = buildKV(t[1]); KVL y(x); return y; }
		if (t[0] == "concat") return buildKV(t[1]).Concat(buildKV(t[2]));
		bad_input("pairs " + e);
	}

	// one object per number, so that a sequence may contain the same object more than once
	inline std::map<long, Ptr<Num>> numbers;
	inline Ptr<Num> number(long x)
	{
		auto& p = numbers[x];
		if (!p) { p = x % 2 ? Ptr<Num>(new OddNum) : Ptr(new Num); p->v = x; }
		return p;
	}

	inline LL build(const std::string& e);
	inline LazyList<PP> zip(const std::vector<std::string>& t) { return build(t[1]).Pairwise(build(t[2])); }

	template<typename C> C& filled(const std::string& s) { auto& c = keep<C>(); for (auto x : nums(s)) c.Add(x); return c; }
	inline Array<long>& filledArray(const std::string& s)
	{
		auto& c = keep<Array<long>>();
		auto v = nums(s);
		c.Resize((vint)v.size());
		for (size_t i = 0; i < v.size(); i++) c.Set((vint)i, v[i]);
		return c;
	}

	inline LL build(const std::string& e)
	{
		if (isKV(e)) return buildKV(e).Select([](KV p) { return p.key * 100 + p.value; });
		auto t = items(e);
		auto& n = t[0];
		if (n == "src" || n == "var") return named(n, t[1]);
		if (n == "empty") return LL();
		if (n == "list") return From(filled<List<long>>(t[1]));
		if (n == "array") return From(filledArray(t[1]));
		if (n == "sorted") return From(filled<SortedList<long>>(t[1]));
		if (n == "iter") { auto& v = keep<std::vector<long>>(); v = nums(t[1]); v.reserve(v.size() + 1); return From((const long*)v.data(), (const long*)v.data() + v.size()); }
		if (n == "ptrlist") { auto l = Ptr(new List<long>); for (auto x : nums(t[1])) l->Add(x); return LL(l); }
		if (n == "range") return Range<vint>(num(t[1]), num(t[2])).Select([](vint x) { return (long)x; });
		if (n == "select") { auto f = t[1]; return build(t[2]).Select([f](long x) { return fn(f, x); }); }
		if (n == "where") { auto f = t[1]; return build(t[2]).Where([f](long x) { return pr(f, x); }); }
		if (n == "take") return build(t[2]).Take(ext(t[1]));
		if (n == "skip") return build(t[2]).Skip(ext(t[1]));
		if (n == "repeat") return build(t[2]).Repeat(num(t[1]));
		if (n == "distinct") return build(t[1]).Distinct();
		if (n == "reverse") return build(t[1]).Reverse();
		if (n == "concat") return build(t[1]).Concat(build(t[2]));
		if (n == "pairwise") return zip(t).Select([](PP p) { return p.key * 100 + p.value; });
		if (n == "intersect") return build(t[1]).Intersect(build(t[2]));
		if (n == "except") return build(t[1]).Except(build(t[2]));
		if (n == "union") return build(t[1]).Union(build(t[2]));
		if (n == "orderself") return build(t[1]).OrderBySelf();
		if (n == "orderdesc") return build(t[1]).OrderBy([](long a, long b) { return b <=> a; });
		if (n == "orderkeyneg") return build(t[1]).OrderByKey([](long a) { return -a; });
		if (n == "evaluate") return build(t[1]).Evaluate();
		if (n == "force") return build(t[1]).Evaluate(true);
		if (n == "copy") { LL x = build(t[1]); LL y(x); LL z; z = y; LL w(std::move(z)); LL q; q = std::move(w); return q; }
		if (n == "selectmany")
		{
			auto f = t[1];
			return build(t[2]).SelectMany([f](long x)
			{
				List<long> r;
				if (f == "twice") { r.Add(x); r.Add(x + 10); }
				if (f == "count") for (long i = 0; i < fn("mod3", x); i++) r.Add(x);
				return From(r).Evaluate(true);
			});
		}
		if (n == "groupby")
		{
			auto f = t[1];
			return build(t[2]).GroupBy([f](long x) { return fn(f, x); })
				.SelectMany([](Pair<long, LL> p) { List<long> r; r.Add(1000 + p.key); CopyFrom(r, p.value, true); return From(r).Evaluate(true); });
		}
		if (n == "findtype" || n == "cast")
		{
			LazyList<Ptr<Num>> ps = build(t[1]).Select([](long x) { return number(x); });
			if (n == "findtype") return ps.FindType<OddNum>().Select([](Ptr<OddNum> p) { return p->v; });
			// a failed cast gives an empty pointer: read the number from the original then
			return ps.Pairwise(ps.Cast<OddNum>()).Select([](Pair<Ptr<Num>, Ptr<OddNum>> p) { return (p.key->v % 2 != 0) == (bool)p.value && (!p.value || p.value->v == p.key->v) ? p.key->v : 99999; });
		}
		bad_input("expression " + e);
	}

	template<typename E> std::vector<long> listed(const E& xs) { std::vector<long> r; for (auto&& x : xs) r.push_back(x); return r; }
	inline Raw seqret(const std::vector<long>& v) { return Raw{ "[\"seq\"," + js(v) + "]" }; }
}

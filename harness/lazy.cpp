// lazy sequences over changing sources (C09)
#include "lazy.h"
using namespace vf;

static std::map<std::string, List<long>*> srcs;
static std::map<std::string, LL> lazies;

static Raw aggregate(const std::string& a, const LL& xs)
{
	auto fold = [](long x, long y) { return (((x * 3 - y) % 1009) + 1009) % 1009; };
	long v;
	if (a == "count") v = xs.Count();
	else if (a == "isempty") v = xs.IsEmpty();
	else if (a == "first") v = xs.First();
	else if (a == "last") v = xs.Last();
	else if (a == "firstor") v = xs.First(77);
	else if (a == "lastor") v = xs.Last(77);
	else if (a == "firstor2") v = xs.First(2);
	else if (a == "lastor2") v = xs.Last(2);
	else if (a == "max") v = xs.Max();
	else if (a == "min") v = xs.Min();
	else if (a == "fold") v = xs.Aggregate(fold);
	else if (a == "foldfrom") v = xs.Aggregate(5L, fold);
	else if (a == "allodd") v = xs.All([](long x) { return pr("odd", x); });
	else if (a == "anyodd") v = xs.Any([](long x) { return pr("odd", x); });
	else if (a == "allgt1") v = xs.All([](long x) { return pr("gt1", x); });
	else if (a == "anygt1") v = xs.Any([](long x) { return pr("gt1", x); });
	else bad_input("aggregate " + a);
	return ret("v", v);
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	if (n == "set")
	{
		auto l = srcs[t[1]];
		l->Clear();
		for (auto x : nums(t[2])) l->Add(x);
		return ret("ok");
	}
	if (n == "bind") { calls = 0; LL x = build(t[2]); lazies[t[1]] = x; return ret("ok", calls > 0); }
	if (n == "movebind") { auto& d = lazies[t[1]]; auto& x = (d = std::move(lazies[t[2]])); return ret(&x == &d ? "ok" : "self"); }
	if (n == "movenew") { LL x(std::move(lazies[t[2]])); lazies[t[1]] = x; return ret("ok"); }
	if (n == "read") { calls = 0; auto a = listed(lazies[t[1]]), b = listed(lazies[t[1]]); return a != b ? ret("differs") : calls ? Raw{ "[\"seqcalc\"," + js(a) + "]" } : seqret(a); }
	if (n == "eval") { auto x = build(t[1]); auto a = listed(x), b = listed(x); List<long> c; CopyFrom(c, x); return a == b && a == listed(c) ? seqret(a) : ret("differs"); }
	if (n == "agg") { auto x = build(t[2]); return aggregate(t[1], x); }
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	named = [](const std::string& k, const std::string& n) { return k == "src" ? From(*srcs[n]) : lazies[n]; };
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long left = 0;
		if (t[0] == "reset")
		{
			for (auto& p : srcs) delete p.second;
			decltype(lazies)().swap(lazies); decltype(arena)().swap(arena); numbers.clear(); decltype(srcs)().swap(srcs);
			left = Mem::left();
			for (auto& n : items(t[1])) srcs[n] = new List<long>;
			for (auto& n : items(t[2])) lazies[n] = LL();
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		Obj s;
		for (auto& p : srcs) { std::vector<long> v; for (vint i = 0; i < p.second->Count(); i++) v.push_back(p.second->Get(i)); s.f(p.first.c_str(), v); }
		emit(Obj().f("o", echo(t)).f("r", r).f("src", s.raw()).f("left", left));
	});
}

// dependency ordering (C11)
#include "vf.h"
#include "Collections/PartialOrdering.h"
#include "Collections/Operation.h"
using namespace vf;
using namespace vl;
using namespace vl::collections;

struct Thing { long id; };
static PartialOrderingProcessor* pop;
static bool sub;
static std::vector<Ptr<Thing>> things;

static Raw perform(const Toks& t)
{
	if (t[0] == "new") { delete pop; pop = new PartialOrderingProcessor; sub = false; return ret("ok"); }
	if (t[0] == "sort") { pop->Sort(); return ret("ok"); }
	auto& how = t[1];
	long n = num(t[2]);
	std::vector<std::pair<long, long>> es;
	for (auto& e : items(t[3])) { auto v = nums(e); es.push_back({ v[0], v[1] }); }
	auto cls = nums(t[4]);
	auto id = [](long i) { return (vint)((i * 37 + 11) % 101); };	// scrambles the order of the items' values
	if (how == "group" || how == "array" || how == "sub" || how == "func")
	{
		List<vint> l;
		Array<vint> a(n);
		for (long i = 0; i < n; i++) { l.Add(id(i)); a.Set(i, id(i)); }
		Group<vint, vint> g;
		for (auto& e : es) g.Add(id(e.first), id(e.second));
		if (how == "group") pop->InitWithGroup(l, g);
		else if (how == "array") pop->InitWithGroup(a, g);
		else if (how == "func") { pop->InitWithFunc(l, [&](vint x, vint y) { return g.Contains(x, y); }); }
		else
		{
			Dictionary<vint, WString> d;
			for (long i = 0; i < n; i++) if (cls[i] >= 0) d.Add(id(i), itow(9 - cls[i]));
			pop->InitWithSubClass(l, g, d);
			sub = true;
		}
		return ret("ok");
	}
	if (how == "sorted")
	{
		SortedList<vint> l;
		for (long i = n - 1; i >= 0; i--) l.Add(i * 3);
		Group<vint, vint> g;
		for (auto& e : es) g.Add(e.first * 3, e.second * 3);
		pop->InitWithGroup(l, g);
		return ret("ok");
	}
	if (how == "strings")
	{
		List<WString> l;
		for (long i = 0; i < n; i++) l.Add(L"n" + itow(id(i)));
		Group<WString, WString> g;
		for (auto& e : es) g.Add(L"n" + itow(id(e.first)), L"n" + itow(id(e.second)));
		pop->InitWithGroup(l, g);
		return ret("ok");
	}
	if (how == "pointers")
	{
		things.clear();
		long m = n;
		for (auto& e : es) m = std::max(m, std::max(e.first, e.second) + 1);
		for (long i = 0; i < m; i++) things.push_back(Ptr(new Thing{ i }));
		List<Ptr<Thing>> l;
		for (long i = 0; i < n; i++) l.Add(things[i]);
		Group<Ptr<Thing>, Ptr<Thing>> g;
		for (auto& e : es) g.Add(things[e.first], things[e.second]);
		pop->InitWithGroup(l, g);
		return ret("ok");
	}
	bad_input("init " + how);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		if (t[0] == "reset") { delete pop; pop = new PartialOrderingProcessor; sub = false; }
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		std::vector<std::string> ns;
		std::vector<long> at;
		for (vint i = 0; i < pop->nodes.Count(); i++)
		{
			auto& nd = pop->nodes[i];
			std::vector<long> its, in, out;
			if (sub) for (vint j = 0; j < nd.subClassItemCount; j++) its.push_back((long)nd.firstSubClassItem[j]); else its.push_back((long)i);
			for (auto x : *nd.ins) in.push_back((long)x);
			for (auto x : *nd.outs) out.push_back((long)x);
			ns.push_back(Obj().f("items", its).f("ins", in).f("outs", out).str());
			at.push_back((long)nd.component);
		}
		std::vector<std::vector<long>> cs;
		for (vint i = 0; i < pop->components.Count(); i++)
		{
			auto& c = pop->components[i];
			cs.push_back({});
			for (vint j = 0; j < c.nodeCount; j++) cs.back().push_back((long)c.firstNode[j]);
		}
		emit(Obj().f("o", echo(t)).f("r", r).f("nodes", arr(ns)).f("comps", cs).f("at", at));
	});
}

// push-only allocators and byte maps (C23); programs: "reset <block size of objects> <block size of map nodes> <maps>"
#include "vf.h"
#include "Collections/List.h"
using namespace vf;
using namespace vl;
using namespace vl::collections;

struct Thing
{
	long v;
	char fill[FILL];
	Thing() :v(0) { Life::born(this); memset(fill, 1, sizeof(fill)); }
	Thing(const Thing&) = delete;
	~Thing() { Life::died(this); }
};
typedef ByteObjectMap<Thing> Map;
static PushOnlyAllocator<Thing>* objs;
static Map::Allocator* nodes;
static std::map<std::string, Map*> maps;
static std::vector<Thing*> given;
static char* values;	// the addresses values+1.. are what the maps store

static void wipe()
{
	for (auto& p : maps) delete p.second;
	maps.clear();
	given.clear();
	delete objs; objs = nullptr;
	delete nodes; nodes = nullptr;
}

static long number(void* p)
{
	for (size_t i = 0; i < given.size(); i++) if (given[i] == p) return (long)i + 1;
	return 0;
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	if (n == "create") { auto p = objs->Create(); if (!p) return ret("null"); long k = number(p); if (k) return ret("obj", k); if (p->v) return ret("notdefault", p->v); given.push_back(p); return ret("obj", (long)given.size()); }
	if (n == "get") { auto p = objs->Get(num(t[1])); return p ? ret("obj", number(p)) : ret("null"); }
	if (n == "write") { size_t i = num(t[1]); if (i >= given.size()) return ret("skip"); given[i]->v = num(t[2]); return ret("ok"); }
	auto& m = maps[t[1]];
	if (n == "put") { long v = num(t[3]); m->Set((vuint8_t)num(t[2]), v ? (Thing*)(values + v) : nullptr, *nodes); return ret("ok"); }
	if (n == "look") { auto p = m->Get((vuint8_t)num(t[2])); return ret("v", p ? (char*)p - values : 0); }
	if (n == "dump")
	{
		std::vector<long> v;
		for (int i = 0; i < 256; i++) { auto p = m->Get((vuint8_t)i); v.push_back(p ? (char*)p - values : 0); }
		return Raw{ "[\"all\"," + js(v) + "]" };
	}
	if (n == "renew") { delete m; m = new Map; return ret("ok"); }
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	values = new char[1024];
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long left = 0;
		if (t[0] == "reset")
		{
			wipe();
			left = Life::live;
			if (left) Life::reset();
			if (num(t[1]) > 0) objs = new PushOnlyAllocator<Thing>(num(t[1])); else objs = new PushOnlyAllocator<Thing>;
			nodes = new Map::Allocator(num(t[2]));
			for (auto& n : items(t[3])) maps[n] = new Map;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		std::vector<long> v;
		bool same = true;
		for (size_t i = 0; i < given.size(); i++) { v.push_back(given[i]->v); Life::used(given[i]); same = same && objs->Get(i) == given[i]; }
		if (given.size() && objs->Get((vint)given.size())) same = false;
		emit(Obj().f("o", echo(t)).f("r", r).f("objs", v).f("same", same ? 1 : 0).f("live", Life::live).f("bad", Life::bad).f("left", left));
	});
}

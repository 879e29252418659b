// observers of collections (C22); -DKIND=1 array 2 list 3 sorted list 4 dictionary 5 group 6 lazy list 7 iterator range 8 the keys of a dictionary 9 the values of a dictionary
#include "vf.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationCopyFrom.h"
#include "Collections/OperationForEach.h"
using namespace vf;
using namespace vl;
using namespace vl::collections;

static long data[3] = { 1, 2, 3 };
#if KIND == 1
typedef Array<long> C;
static C* mk() { return new C(2); }
static void touch(C& c) { c.Resize(c.Count() + 1); c.Set(0, 7); }
#elif KIND == 2
typedef List<long> C;
static C* mk() { return new C; }
static void touch(C& c) { c.Add(1); c.Insert(0, 2); if (c.Count() > 6) c.Clear(); }
#elif KIND == 3
typedef SortedList<long> C;
static C* mk() { return new C; }
static void touch(C& c) { c.Add(3); c.Add(1); if (c.Count() > 6) c.Clear(); }
#elif KIND == 4 || KIND == 8 || KIND == 9
typedef Dictionary<long, long> C;
static C* mk() { return new C; }
static void touch(C& c) { c.Set(1, 2); c.Set(2, 3); if (c.Count() > 1) c.Remove(1); }
#elif KIND == 5
typedef Group<long, long> C;
static C* mk() { return new C; }
static void touch(C& c) { c.Add(1, 2); c.Add(2, 3); if (c.Count() > 1) c.Remove(1); }
#elif KIND == 6
typedef LazyList<long> C;
static C* mk() { return new C(Range<vint>(1, 3).Select([](vint i) { return (long)i; })); }
static void touch(C& c) { c = c.Concat(c); if (c.Count() > 40) c = LazyList<long>(); }
#else
typedef FromIteratorEnumerable<long, const long*> C;
static C* mk() { return new C(&data[0], &data[3]); }
static void touch(C& c) { From(c).Count(); }
#endif

#if KIND == 8
static auto& of(C& c) { return const_cast<SortedList<long>&>(c.Keys()); }
#elif KIND == 9
static auto& of(C& c) { return const_cast<std::remove_cvref_t<decltype(c.Values())>&>(c.Values()); }
#else
static C& of(C& c) { return c; }
#endif
static std::vector<long> told;
static long alive = 0;
struct Observer : public Object, public ICollectionReference
{
	long id;
	Observer(long i) :id(i) { alive++; }
	~Observer() { alive--; }
	void OnDisposed()override { told[id - 1]++; }
};
struct Other : public Object, public ICollectionReference { void OnDisposed()override {} };
static std::map<std::string, C*> cs;
static std::map<long, Ptr<Observer>> keep;

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	C*& c = cs[t[1]];
	if (n == "create") { delete c; c = nullptr; c = mk(); return ret("ok"); }
	if (n == "delete") { delete c; c = nullptr; return ret("ok"); }
	if (n == "movector" || n == "copyctor")
	{
		C* d = cs[t[2]];
		if (!d) return ret("skip");
#if KIND == 3 || KIND == 6 || KIND == 7
		C* k = n == "movector" ? new C(std::move(*d)) : new C(const_cast<const C&>(*d));
#else
		C* k = new C(std::move(*d));
#endif
		delete c; c = k;
		return ret("ok");
	}
	if (!c) return ret("skip");
	if (n == "attach")
	{
		told.push_back(0);
		auto o = Ptr(new Observer((long)told.size()));
		if (o->id % 2) keep[o->id] = o;       // half of the observers are owned by the collection only
		of(*c).SetCollectionReference(o);
		return ret("ok");
	}
	if (n == "again") { auto r = of(*c).GetCollectionReference(); if (!r) return ret("skip"); of(*c).SetCollectionReference(r); return ret("ok"); }
	if (n == "ref") { auto r = of(*c).GetCollectionReference(); return ret("i", r ? r.Cast<Observer>()->id : 0); }
	if (n == "tryref") { auto r = of(*c).TryGetCollectionReference<Observer>(); return ret("i", r ? r->id : 0); }
	if (n == "wrongref") { of(*c).TryGetCollectionReference<Other>(); return ret("ok"); }
	if (n == "none") { of(*c).SetCollectionReference(nullptr); return ret("ok"); }
	if (n == "who") { return ret("i", of(*c).GetCollectionObject() == &of(*c) ? 1 : 0); }
	if (n == "touch") { touch(*c); return ret("ok"); }
	if (n == "loop")
	{
		long k = 0, out = 0;
		auto e = c->CreateEnumerator();
		while (e->Next()) k++;
		delete e;
#if KIND != 7
		for (auto&& x : *c) out++;
#else
		for (auto&& x : From(*c)) out++;
#endif
		return ret(out == k ? "ok" : "no");
	}
	if (n == "selfmove")
	{
#if KIND != 7
		C& same = *c;
		*c = std::move(same);
#endif
		return ret("ok");
	}
	C* d = cs[t[2]];
	if (!d) return ret("skip");
	if (n == "move" || n == "copy")
	{
#if KIND == 6
		if (n == "copy") *c = const_cast<const C&>(*d); else
#endif
#if KIND != 7		// iterator ranges cannot be assigned
		*c = std::move(*d);
#endif
		return ret("ok");
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		if (t[0] == "reset")
		{
			for (auto& p : cs) delete p.second;
			cs.clear(); told.clear(); keep.clear();
			for (auto& n : items(t[1])) cs[n] = nullptr;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		emit(Obj().f("o", echo(t)).f("r", r).f("told", told).f("alive", alive));
	});
}

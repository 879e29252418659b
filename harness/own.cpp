// shared pointers and COM pointers (C01)
#include "vf.h"
#include "Basic.h"
#include "Primitives/Pointer.h"
using namespace vf;
using namespace vl;

static long bad = 0;
static std::vector<const void*> ids;		// identity of object i (most derived address)
static std::vector<long> alive;
static std::vector<long> kinds;
struct Base; struct Com;
static std::vector<Base*> asBase;
static std::vector<Com*> asCom;

static std::vector<std::string> byes;	// the variable that the destructor of object i clears
static void farewell(long id);
static void born(long id, const void* p) { ids.push_back(p); alive.push_back(1); if ((long)ids.size() != id) bad++; }
static void died(long id) { if (id < 1 || id > (long)alive.size() || !alive[id - 1]) bad++; else { alive[id - 1] = 0; farewell(id); } }

struct Base
{
	long id; Ptr<Base> next;
	Base(long i) :id(i) {}
	virtual ~Base() { died(id); id = -5; }
	Base(const Base&) = delete;
};
struct Plain : Base { Plain(long i) :Base(i) {} };
struct Other
{
	long tag; long pad[3];
	Other(long t) :tag(t) {}
	virtual long first() { return tag; }
	virtual long second() { return tag + 1; }
	// not virtual: only the type an object was created with is able to destroy it
	~Other() { if (tag != 4711) bad++; tag = 0; }
};
struct Derived : Other, Base
{
	long extra;
	Derived(long i) :Other(4711), Base(i), extra(i * 7) {}
	~Derived() { if (extra != id * 7) bad++; }
};
struct Com
{
	long id; ComPtr<Com> next;
	Com(long i) :id(i) {}
	void Release() { delete this; }
	~Com() { died(id); id = -5; }
};

static std::map<std::string, Ptr<Base>*> B;
static std::map<std::string, Ptr<Derived>*> D;
static std::map<std::string, Ptr<Other>*> O;
static std::map<std::string, ComPtr<Com>*> C;

static long idOf(const Base* b) { if (!b) return 0; for (size_t i = 0; i < asBase.size(); i++) if (alive[i] && asBase[i] == b) return i + 1; return -1; }
static long idOf(const Derived* d) { if (!d) return 0; for (size_t i = 0; i < ids.size(); i++) if (alive[i] && kinds[i] == 2 && static_cast<const Derived*>(asBase[i]) == d) return i + 1; return -1; }
static long idOf(const Other* o) { if (!o) return 0; for (size_t i = 0; i < ids.size(); i++) if (alive[i] && kinds[i] == 2 && static_cast<const Other*>(static_cast<const Derived*>(asBase[i])) == o) return i + 1; return -1; }
static long idOf(const Com* c) { if (!c) return 0; for (size_t i = 0; i < asCom.size(); i++) if (alive[i] && asCom[i] == c) return i + 1; return -1; }

static Raw state()
{
	Obj sl;
	for (auto& p : B) sl.f(p.first.c_str(), idOf(p.second->Obj()));
	for (auto& p : D) sl.f(p.first.c_str(), idOf(p.second->Obj()));
	for (auto& p : O) sl.f(p.first.c_str(), idOf(p.second->Obj()));
	for (auto& p : C) sl.f(p.first.c_str(), idOf(p.second->Obj()));
	std::vector<long> nx;
	for (size_t i = 0; i < ids.size(); i++)
		nx.push_back(!alive[i] ? 0 : kinds[i] == 3 ? idOf(asCom[i]->next.Obj()) : idOf(asBase[i]->next.Obj()));
	return Obj().f("slot", sl.raw()).f("alive", alive).f("next", nx).raw();
}

// called by a destructor: no variable refers to the object any more
static void farewell(long id)
{
	auto gone = [&](const auto& m) { for (auto& p : m) if (idOf(p.second->Obj()) < 0) bad++; };
	gone(B); gone(D); gone(O); gone(C);
	std::string b = byes[id - 1];
	byes[id - 1] = "-";
	if (B.count(b)) *B[b] = nullptr; else if (D.count(b)) *D[b] = nullptr;
	else if (O.count(b)) *O[b] = nullptr; else if (C.count(b)) *C[b] = nullptr;
}

static long make(long k)
{
	long id = ids.size() + 1;
	kinds.push_back(k); byes.push_back("-");
	if (k == 3) { auto p = new Com(id); asCom.push_back(p); asBase.push_back(nullptr); born(id, p); }
	else if (k == 2) { auto p = new Derived(id); asBase.push_back(p); asCom.push_back(nullptr); born(id, p); }
	else { auto p = new Plain(id); asBase.push_back(p); asCom.push_back(nullptr); born(id, p); }
	return id - 1;
}

static void drop()
{
	for (auto& b : byes) b = "-";
	// cut every field first (so that cycles do not stay), keeping their targets until the end
	{
		std::vector<Ptr<Base>> kb; std::vector<ComPtr<Com>> kc;
		kb.reserve(ids.size()); kc.reserve(ids.size());
		for (size_t i = 0; i < ids.size(); i++) if (alive[i])
		{
			if (kinds[i] == 3) kc.push_back(std::move(asCom[i]->next)); else kb.push_back(std::move(asBase[i]->next));
		}
		auto b = B; auto d = D; auto o = O; auto c = C;
		B.clear(); D.clear(); O.clear(); C.clear();
		for (auto& p : b) delete p.second;
		for (auto& p : d) delete p.second;
		for (auto& p : o) delete p.second;
		for (auto& p : c) delete p.second;
	}
}

template<typename P> static bool same(std::map<std::string, P*>& m, const Toks& t, Raw& r)
{
	auto& n = t[0];
	if (!m.count(t[1])) return false;
	P*& d = m[t[1]];
	if (n == "null") { *d = nullptr; r = ret("ok"); return true; }
	if (n == "drop") { P* old = d; d = new P; delete old; r = ret("ok"); return true; }
	if (n == "bool") { r = ret("b", (bool)*d); return true; }
	if (t.size() < 3 || !m.count(t[2])) return false;
	P* s = m[t[2]];
	if (n == "copy") { P& x = (*d = *s); if (&x != d) bad++; r = ret("ok"); return true; }
	if (n == "move") { P& x = (*d = std::move(*s)); if (&x != d) bad++; r = ret("ok"); return true; }
	if (n == "copyctor") { P* k = new P(*s); P* old = d; d = k; delete old; r = ret("ok"); return true; }
	if (n == "movector") { P* k = new P(std::move(*s)); P* old = d; d = k; delete old; r = ret("ok"); return true; }
	if (n == "eq")
	{
		bool e = (*d == *s);
		if (e != (*d == s->Obj()) || e != ((*d <=> *s) == 0) || e != (s->Obj() == d->Obj())) bad++;
		// a pointer is ordered by where it refers to, whether compared with a pointer or with an address
		if ((*d <=> *s) != (*d <=> s->Obj()) || (*d <=> *s) != (d->Obj() <=> s->Obj())) bad++;
		if ((*d < *s) == (*d >= *s) || (*d < *s) != (*s > *d) || (*d != *s) == e) bad++;
		r = ret("b", e); return true;
	}
	return false;
}

template<typename P> static bool fields(std::map<std::string, P*>& m, const Toks& t, Raw& r)
{
	auto& n = t[0];
	if (!m.count(t[1])) return false;
	P& d = *m[t[1]];
	if (n == "unlink")
	{
		if (!d || !d->next) { r = ret("skip"); return true; }
		d->next = d->next->next; r = ret("ok"); return true;
	}
	if (t.size() < 3 || !m.count(t[2])) return false;
	P& s = *m[t[2]];
	if (n == "load") { if (!s) { r = ret("skip"); return true; } d = s->next; r = ret("ok"); return true; }
	if (n == "loadmove") { if (!s) { r = ret("skip"); return true; } d = std::move(s->next); r = ret("ok"); return true; }
	if (n == "store") { if (!d) { r = ret("skip"); return true; } d->next = s; r = ret("ok"); return true; }
	if (n == "storemove") { if (!d) { r = ret("skip"); return true; } d->next = std::move(s); r = ret("ok"); return true; }
	return false;
}

template<typename S> static Raw castTo(const std::string& d, S& s)
{
	if (B.count(d)) *B[d] = s.template Cast<Base>();
	else if (D.count(d)) *D[d] = s.template Cast<Derived>();
	else if (O.count(d)) *O[d] = s.template Cast<Other>();
	else bad_input("cast");
	return ret("ok");
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	Raw r;
	if (n == "new" || n == "newctor")
	{
		long i = make(num(t[2]));
		bool ctor = n == "newctor";
		if (B.count(t[1]))
		{
			if (ctor) { auto k = new Ptr<Base>(asBase[i]); auto old = B[t[1]]; B[t[1]] = k; delete old; }
			else if (kinds[i] == 2) *B[t[1]] = Ptr(static_cast<Derived*>(asBase[i]));
			else *B[t[1]] = Ptr(asBase[i]);
		}
		else if (D.count(t[1])) *D[t[1]] = Ptr(static_cast<Derived*>(asBase[i]));
		else if (O.count(t[1])) *O[t[1]] = Ptr(static_cast<Derived*>(asBase[i]));
		else if (ctor) { auto k = new ComPtr<Com>(asCom[i]); auto old = C[t[1]]; C[t[1]] = k; delete old; }
		else *C[t[1]] = asCom[i];
		return ret("ok");
	}
	if (n == "cut")
	{
		long i = num(t[1]) - 1;
		if (i >= (long)ids.size() || !alive[i]) return ret("skip");
		if (kinds[i] == 3) asCom[i]->next = nullptr; else asBase[i]->next = nullptr;
		return ret("ok");
	}
	if (n == "bye")
	{
		long x = B.count(t[1]) ? idOf(B[t[1]]->Obj()) : D.count(t[1]) ? idOf(D[t[1]]->Obj()) : O.count(t[1]) ? idOf(O[t[1]]->Obj()) : idOf(C[t[1]]->Obj());
		if (x <= 0) return ret("skip");
		byes[x - 1] = t[2];
		return ret("ok");
	}
	if (same(B, t, r) || same(D, t, r) || same(O, t, r) || same(C, t, r)) return r;
	if (fields(B, t, r) || fields(C, t, r)) return r;
	if (n == "up") { if (B.count(t[1])) *B[t[1]] = *D[t[2]]; else *O[t[1]] = *D[t[2]]; return ret("ok"); }
	if (n == "upmove") { *B[t[1]] = std::move(*D[t[2]]); return ret("ok"); }
	if (n == "cast")
	{
		if (B.count(t[2])) return castTo(t[1], *B[t[2]]);
		if (D.count(t[2])) return castTo(t[1], *D[t[2]]);
		return castTo(t[1], *O[t[2]]);
	}
	if (n == "detach")
	{
		if (B.count(t[1])) return ret("i", idOf(B[t[1]]->Detach()));
		if (D.count(t[1])) return ret("i", idOf(D[t[1]]->Detach()));
		return ret("i", idOf(O[t[1]]->Detach()));
	}
	if (n == "adopt")
	{
		long i = num(t[2]) - 1;
		if (i >= (long)ids.size() || !alive[i] || kinds[i] == 3) return ret("skip");
		// only objects without owner are handed in again
		for (auto& p : B) if (idOf(p.second->Obj()) == i + 1) return ret("skip");
		for (auto& p : D) if (idOf(p.second->Obj()) == i + 1) return ret("skip");
		for (auto& p : O) if (idOf(p.second->Obj()) == i + 1) return ret("skip");
		for (size_t k = 0; k < ids.size(); k++) if (alive[k] && kinds[k] != 3 && asBase[k]->next && idOf(asBase[k]->next.Obj()) == i + 1) return ret("skip");
		if (B.count(t[1])) *B[t[1]] = Ptr<Base>(asBase[i]);
		else if (kinds[i] != 2) return ret("skip");
		else if (D.count(t[1])) *D[t[1]] = Ptr<Derived>(static_cast<Derived*>(asBase[i]));
		else *O[t[1]] = Ptr<Derived>(static_cast<Derived*>(asBase[i]));
		return ret("ok");
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		Raw r = ret("ok");
		if (t[0] == "reset")
		{
			drop();
			long b = bad;
			bad = 0; ids.clear(); alive.clear(); kinds.clear(); byes.clear(); asBase.clear(); asCom.clear();
			for (auto& x : items(t[1]))
			{
				auto p = x.find(':'); auto nm = x.substr(0, p), ty = x.substr(p + 1);
				if (ty == "b") B[nm] = new Ptr<Base>; else if (ty == "d") D[nm] = new Ptr<Derived>;
				else if (ty == "o") O[nm] = new Ptr<Other>; else C[nm] = new ComPtr<Com>;
			}
			o.f("r", r).f("s", state()).f("bad", b);
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
			o.f("r", r).f("s", state()).f("bad", bad);
		}
		emit(o);
	});
}

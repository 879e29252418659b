// function objects (C16)
#include "elems.h"
#include "Primitives/Function.h"
using namespace vf;
using namespace vl;

typedef Func<long(long)> F;
typedef Func<long long(int)> G;

// what the innermost callable saw in the last call
static std::vector<std::string> seen;
static void saw(const char* kind, long id, long cnt, long x) { seen.push_back("[" + js(kind) + "," + js(id) + "," + js(cnt) + "," + js(x) + "]"); }
static long liveFunctors = 0, bad = 0;
static long nfun = 0;

static long Static1(long x) { saw("s", 1, 1, x); return x * 3 + 1; }
static long Static2(long x) { saw("s", 2, 1, x); return x * 3 + 2; }
static long long StaticG1(int x) { saw("s", 1, 1, x); return x * 3 + 1; }
static long long StaticG2(int x) { saw("s", 2, 1, x); return x * 3 + 2; }
static short Other1(long long x) { saw("s", 1, 1, (long)x); return (short)(x * 3 + 1); }
static short Other2(long long x) { saw("s", 2, 1, (long)x); return (short)(x * 3 + 2); }

struct Target
{
	long id;
	virtual ~Target() {}
	virtual long MF(long x) { saw("m", id, 1, x); return x * 3 + id; }
	virtual long long MG(int x) { saw("m", id, 1, x); return x * 3 + id; }
};
struct Derived : Target {};
static Target target1;
static Derived target2;

// the captured state: one per function object, whatever the number of copies of that
struct State
{
	long id; long count = 0; unsigned long magic = 0x600d;
	State(long i) :id(i) { liveFunctors++; }
	~State() { if (magic != 0x600d) bad++; magic = 0xdead; liveFunctors--; }
	long hit(long x) { if (magic != 0x600d) bad++; count++; saw("l", id, count, x); return x * 3 + id; }
};
struct Functor
{
	Ptr<State> s;
	long local = 0;          // state of the functor itself, must be shared by copies of the function object
	long operator()(long x) { local++; long r = s->hit(x); if (local != s->count) bad++; return r; }
};
// functor kept behind a pointer-sized callable, const call operator
struct CFunctor
{
	Ptr<State> s;
	long operator()(long x)const { return s->hit(x); }
};

static std::map<std::string, F*> fs;
static std::map<std::string, G*> gs;

template<typename X> static void eqs(std::map<std::string, X*>& m, std::vector<std::string>& same)
{
	for (auto& a : m) for (auto& b : m)
	{
		bool e = *a.second == *b.second, ne = *a.second != *b.second;
		if (e == ne) bad++;
		same.push_back("[" + js(a.first) + "," + js(b.first) + "," + (e ? "1" : "0") + "]");
	}
}

template<typename R> static Raw called(R r, long expectRet)
{
	if (seen.size() != 1) return ret("calls", (long)seen.size());
	if ((long)r != expectRet) return ret("result", (long)r);
	return Raw{ "[\"call\"," + seen[0] + "]" };
}

template<typename X, typename Y> static bool slot(std::map<std::string, X*>& m, std::map<std::string, Y*>& om, const Toks& t, Raw& r, X s1, X s2)
{
	auto& n = t[0];
	if (!m.count(t[1])) return false;
	X& c = *m[t[1]];
	auto repl = [&](X* k) { delete &c; m[t[1]] = k; r = ret("ok"); return true; };
	r = ret("ok");
	if (n == "static") { c = num(t[2]) == 1 ? s1 : s2; return true; }
	if (n == "pointer") { if (num(t[2]) == 1) c = X(&Other1); else c = X(&Other2); return true; }
	if (n == "functor") { Functor f{ Ptr(new State(++nfun)) }; c = X(f); return true; }
	if (n == "functorm") { Functor f{ Ptr(new State(++nfun)) }; X* k = new X(std::move(f)); if (f.s) bad++; return repl(k); }
	if (n == "lambda") { auto s = Ptr(new State(++nfun)); auto l = [s](long x) { return s->hit(x); }; s = nullptr; c = l; return true; }
	if (n == "null") { c = X(); return true; }
	if (n == "bool") { r = ret("b", (bool)c); return true; }
	if (n == "convert") { const Y& y = *om[t[2]]; c = y; return true; }
	if (n == "convertctor") { Y& y = *om[t[2]]; return repl(new X(y)); }
	if (n == "convertm") { c = X(std::move(*om[t[2]])); return true; }
	if (n == "call")
	{
		if (!c) { r = ret("skip"); return true; }
		seen.clear();
		long x = num(t[2]);
		const X& cc = c;
		auto v = cc((int)x);
		long id = 0;
		if (seen.size() == 1) { auto p = seen[0].find(','); id = atol(seen[0].c_str() + p + 1); }
		r = called(v, x * 3 + id);
		return true;
	}
	X* d = t.size() > 2 && m.count(t[2]) ? m[t[2]] : nullptr;
	if (!d) return false;
	if (n == "copy") { c = const_cast<const X&>(*d); return true; }
	if (n == "move") { if (d == &c) { return true; } c = std::move(*d); return true; }
	if (n == "copyctor") return repl(new X(const_cast<const X&>(*d)));
	if (n == "movector") return repl(new X(std::move(*d)));
	if (n == "eq") { r = ret("b", c == *d); return true; }
	return false;
}

// other signatures ----------------------------------------------------------
static void RefS(long& x) { seen.push_back(js(x)); x++; }
static long CRefS(const Tracked& x) { seen.push_back(js(x.rd())); return x.rd(); }
static long ValS(Tracked x) { seen.push_back(js(x.rd())); x.v = -5; return 0; }
static long RvS(MoveOnly&& x) { seen.push_back(js(x.rd())); return 0; }
static MoveOnly MoS(MoveOnly x) { seen.push_back(js(x.rd())); return x; }
static long& RrS(long& x) { seen.push_back(js(x)); return x; }
static long ManyS(long a, short b, const WString& c, Tracked d) { seen.push_back(js(a)); return a + b + c.Length() + d.rd(); }
static long noneCalls = 0;
static void NoneS() { noneCalls++; seen.push_back("0"); }
struct Sigs
{
	void Ref(long& x) { RefS(x); }
	long CRef(const Tracked& x) { return CRefS(x); }
	long Val(Tracked x) { return ValS(x); }
	long Rv(MoveOnly&& x) { return RvS(std::move(x)); }
	MoveOnly Mo(MoveOnly x) { return MoS(std::move(x)); }
	long& Rr(long& x) { return RrS(x); }
	long Many(long a, short b, const WString& c, Tracked d) { return ManyS(a, b, c, d); }
	void None() { NoneS(); }
};
static Sigs sigs;
template<typename Fn, typename S, typename M, typename L> static Fn how(const std::string& h, S s, M m, L l)
{
	if (h == "static") return Fn(s);
	if (h == "method") return Fn(&sigs, m);
	if (h == "lambda") return Fn(l);
	Fn a(l);
	Fn b = a; a = Fn();
	Fn c = std::move(b);
	return c;
}
static Raw sig(const Toks& t)
{
	auto& k = t[1]; auto& h = t[2]; long x = num(t[3]);
	seen.clear();
	long after = -1;
	if (k == "ref") { auto f = how<Func<void(long&)>>(h, &RefS, &Sigs::Ref, [](long& y) { RefS(y); }); long v = x; f(v); after = v; }
	else if (k == "constref") { auto f = how<Func<long(const Tracked&)>>(h, &CRefS, &Sigs::CRef, [](const Tracked& y) { return CRefS(y); }); Tracked v(x); long r = f(v); after = r == x ? v.rd() : -3; }
	else if (k == "byvalue") { auto f = how<Func<long(Tracked)>>(h, &ValS, &Sigs::Val, [](Tracked y) { return ValS(y); }); Tracked v(x); f(v); after = v.rd(); }
	else if (k == "rvalue") { auto f = how<Func<long(MoveOnly&&)>>(h, &RvS, &Sigs::Rv, [](MoveOnly&& y) { return RvS(std::move(y)); }); MoveOnly v(x); f(std::move(v)); after = v.rd(); }
	else if (k == "moveonly") { auto f = how<Func<MoveOnly(MoveOnly)>>(h, &MoS, &Sigs::Mo, [](MoveOnly y) { return MoS(std::move(y)); }); MoveOnly v(x); auto r = f(std::move(v)); after = r.rd() == x ? v.rd() : -3; }
	else if (k == "refresult") { auto f = how<Func<long&(long&)>>(h, &RrS, &Sigs::Rr, [](long& y) -> long& { return RrS(y); }); long v = x; f(v) += 10; after = v; }
	else if (k == "many") { auto f = how<Func<long(long, short, const WString&, Tracked)>>(h, &ManyS, &Sigs::Many, [](long a, short b, const WString& c, Tracked d) { return ManyS(a, b, c, d); }); after = f(x, 1, L"ab", Tracked(3)); }
	else { auto f = how<Func<void()>>(h, &NoneS, &Sigs::None, []() { NoneS(); }); noneCalls = 0; f(); after = noneCalls; }
	if (seen.size() != 1) return ret("calls", (long)seen.size());
	return Raw{ "[\"sig\",[" + seen[0] + "," + js(after) + "]]" };
}

static void clear()
{
	for (auto& p : fs) delete p.second;
	for (auto& p : gs) delete p.second;
	fs.clear(); gs.clear();
}

int main(int argc, char** argv)
{
	target1.id = 1; target2.id = 2;
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		bad = 0; Life::bad = 0;
		if (t[0] == "reset")
		{
			clear(); nfun = 0;
			for (auto& n : items(t[1])) fs[n] = new F;
			for (auto& n : items(t[2])) gs[n] = new G;
		}
		else
		{
			try
			{
				if (t[0] == "sig") r = sig(t);
				else if (t[0] == "finish") { for (auto& p : fs) *p.second = F(); for (auto& p : gs) *p.second = G(); }
				else if (t[0] == "method" && fs.count(t[1])) { if (num(t[2]) == 1) *fs[t[1]] = F(&target1, &Target::MF); else *fs[t[1]] = F((Target*)&target2, &Target::MF); }
				else if (t[0] == "method") { if (num(t[2]) == 1) *gs[t[1]] = G(&target1, &Target::MG); else *gs[t[1]] = G((Target*)&target2, &Target::MG); }
				else if (!slot(fs, gs, t, r, F(&Static1), F(&Static2)) && !slot(gs, fs, t, r, G(&StaticG1), G(&StaticG2))) bad_input("op " + t[0]);
			}
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		Obj set;
		for (auto& p : fs) set.f(p.first.c_str(), (long)(bool)*p.second);
		for (auto& p : gs) set.f(p.first.c_str(), (long)(bool)*p.second);
		std::vector<std::string> same;
		eqs(fs, same); eqs(gs, same);
		emit(Obj().f("o", echo(t)).f("r", r).f("set", set.raw()).f("same", arr(same)).f("live", liveFunctors).f("bad", bad + Life::bad + Life::live));
	});
}

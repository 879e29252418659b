// events (C15)
#include "elems.h"
#include "Primitives/Event.h"
using namespace vf;
using namespace vl;

typedef Event<void(Tracked, long&)> E;
typedef Func<void(Tracked, long&)> F;

static long liveFuns = 0, badFuns = 0, funs = 0;
static std::map<std::string, E*> es;
static std::vector<Ptr<EventHandler>*> hs;
static std::vector<E*> at;      // the event each handler was attached to, nullptr when that was destroyed
static void step(const Toks& t);

static void line(const Raw& o, const Raw& r)
{
	emit(Obj().f("o", o).f("r", r).f("live", liveFuns).f("bad", badFuns + Life::bad));
}

// what a handler calls; watches its own lifetime while it runs
struct Callee
{
	long id;
	bool ran = false;
	std::vector<Toks> script;
	unsigned long magic = 0x600d;
	Callee(long _id, std::vector<Toks> s) :id(_id), script(s) { liveFuns++; }
	~Callee() { liveFuns--; magic = 0xdead; }
	void hit(Tracked x, long& n)
	{
		if (magic != 0x600d) badFuns++;
		line(Raw{ "[\"call\"," + js(id) + "," + js(x.rd()) + "," + js(n) + "]" }, ret("ok"));
		n++;
		if (!ran) { ran = true; for (auto& t : script) step(t); }
		if (magic != 0x600d) { badFuns++; return; }
		line(Raw{ "[\"ret\"," + js(id) + "]" }, ret("ok"));
	}
};
// owned by the function object: shared by all copies of it
struct Owned
{
	Ptr<Callee> c;
	void operator()(Tracked x, long& n)const
	{
		auto p = c.Obj();     // not an owner: if the handler is destroyed while running, it shows
		p->hit(x, n);
	}
};

static std::vector<Ptr<Callee>*> methods;

static void step(const Toks& t)
{
	auto& n = t[0];
	auto o = echo(t);
	auto script = [&]()
	{
		std::vector<Toks> r;
		for (auto& i : items(t[2])) { Toks k; for (auto& x : items(i)) k.push_back(x); r.push_back(k); }
		return r;
	};
	auto known = [&](int k) { long h = num(t[k]) - 1; return h >= 0 && h < (long)hs.size() && *hs[h] ? h : -1L; };
	auto keep = [&](Ptr<EventHandler> h, E* e) { hs.push_back(new Ptr<EventHandler>(h)); at.push_back(e); };
	if (n == "add" || n == "addtwice")
	{
		E* e = es[t[1]];
		F f;
		{ Owned ow; ow.c = Ptr(new Callee(++funs, script())); f = F(std::move(ow)); }
		keep(e->Add(f), e);
		long h = (long)hs.size();
		if (n == "addtwice") keep(e->Add(f), e);
		f = F();
		return line(o, ret("i", h));
	}
	if (n == "addmethod")
	{
		// a method of an object, wrapped by the event itself; the object is kept by the test until the handler goes
		E* e = es[t[1]];
		auto c = Ptr(new Callee(++funs, script()));
		struct Guard { Ptr<Callee> c; void operator()(Tracked x, long& n)const { F(c.Obj(), &Callee::hit)(x, n); } };
		keep(e->Add(F(Guard{ c })), e);
		c = nullptr;
		return line(o, ret("i", (long)hs.size()));
	}
	if (n == "remove") { long h = known(2); return line(o, h < 0 ? ret("skip") : ret("b", es[t[1]]->Remove(*hs[h]))); }
	if (n == "drop") { long h = known(1); if (h < 0) return line(o, ret("skip")); *hs[h] = nullptr; return line(o, ret("ok")); }
	if (n == "isattached") { long h = known(1); if (h < 0 || !at[h]) return line(o, ret("skip")); return line(o, ret("b", (*hs[h])->IsAttached())); }
	static int depth = 0;
	if (n == "renew")
	{
		if (depth) return line(o, ret("skip"));
		E* old = es[t[1]];
		for (size_t i = 0; i < hs.size(); i++) if (at[i] == old && *hs[i] && (*hs[i])->IsAttached()) at[i] = nullptr;
		delete old; es[t[1]] = new E;
		return line(o, ret("ok"));
	}
	if (n == "raise" || n == "raisem")
	{
		long cnt = 0, x = num(t[2]);
		line(o, ret("ok"));
		depth++;
		if (n == "raise") { Tracked v(x); (*es[t[1]])(v, cnt); if (v.rd() != x) Life::bad++; }
		else (*es[t[1]])(Tracked(x), cnt);
		depth--;
		return line(Raw{ "[\"end\"," + js(t[1]) + "," + js(cnt) + "]" }, ret("ok"));
	}
	if (n == "finish")
	{
		for (auto h : hs) delete h;
		hs.clear(); at.clear();
		for (auto& p : es) delete p.second;
		es.clear();
		return line(o, ret("ok"));
	}
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		if (t[0] == "reset")
		{
			for (auto h : hs) delete h;
			hs.clear(); at.clear(); funs = 0;
			for (auto& p : es) delete p.second;
			es.clear();
			for (auto& n : items(t[1])) es[n] = new E;
			line(echo(t), ret("ok"));
		}
		else step(t);
	});
}

// enumerators of every collection and lazy sequence (C08)
#include "lazy.h"
using namespace vf;

struct Box
{
	bool at = false;
	virtual ~Box() {}
	virtual bool next() = 0;
	virtual long index() = 0;
	virtual long cur() = 0;
	virtual Box* clone() = 0;
	virtual void rewind() = 0;
};
inline long shown(long x) { return x; }
inline long shown(const KV& p) { return p.key * 100 + p.value; }
inline long shown(const PP& p) { return p.key * 100 + p.value; }
template<typename T> struct BoxOf : Box
{
	IEnumerator<T>* e;
	BoxOf(IEnumerator<T>* _e) :e(_e) {}
	~BoxOf() { delete e; }
	bool next()override { return e->Next(); }
	long index()override { return (long)e->Index(); }
	long cur()override { return shown(e->Current()); }
	Box* clone()override { auto b = new BoxOf(e->Clone()); b->at = at; return b; }
	void rewind()override { e->Reset(); }
};
template<typename T> Box* box(IEnumerator<T>* e) { return new BoxOf<T>(e); }
static std::map<std::string, Box*> bs;

static Box* open(const std::string& e)
{
	auto t = items(e);
	if (t[0] == "dict") return box(dict(t[1]).CreateEnumerator());
	if (t[0] == "group") return box(group(t[1]).CreateEnumerator());
	if (isKV(e)) return box(buildKV(e).CreateEnumerator());
	if (t[0] == "pairwise") return box(zip(t).CreateEnumerator());
	if (t[0] == "list") return box(filled<List<long>>(t[1]).CreateEnumerator());
	if (t[0] == "array") return box(filledArray(t[1]).CreateEnumerator());
	if (t[0] == "sorted") return box(filled<SortedList<long>>(t[1]).CreateEnumerator());
	if (t[0] == "range") return box(Range<vint>(num(t[1]), num(t[2])).CreateEnumerator());
	return box(build(e).CreateEnumerator());
}

template<typename C> static Raw looped(const C& c, bool idx)
{
	std::vector<long> r;
	if (!idx) { for (auto&& x : c) r.push_back(shown(x)); }
	else { for (auto [x, i] : indexed(c)) { r.push_back(shown(x)); r.push_back((long)i); } }
	return seqret(r);
}
static Raw loop(const std::string& e, bool idx)
{
	auto t = items(e);
	if (t[0] == "dict") return looped(dict(t[1]), idx);
	if (t[0] == "group") return looped(group(t[1]), idx);
	if (isKV(e)) return looped(buildKV(e), idx);
	if (t[0] == "pairwise") return looped(zip(t), idx);
	if (t[0] == "list") return looped(filled<List<long>>(t[1]), idx);
	if (t[0] == "array") return looped(filledArray(t[1]), idx);
	if (t[0] == "sorted") return looped(filled<SortedList<long>>(t[1]), idx);
	return looped(build(e), idx);
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	if (n == "loop") return loop(t[1], false);
	if (n == "iloop") return loop(t[1], true);
	auto& b = bs[t[1]];
	if (n == "open") { auto k = open(t[2]); delete b; b = k; return ret("ok"); }
	if (n == "close") { delete b; b = nullptr; return ret("ok"); }
	if (!b) return ret("skip");
	if (n == "next") { b->at = false; b->at = b->next(); return ret("b", b->at); }
	if (n == "rewind") { b->at = false; b->rewind(); return ret("ok"); }
	if (n == "clone") { auto k = b->clone(); auto& d = bs[t[2]]; delete d; d = k; return ret("ok"); }
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long left = 0;
		if (t[0] == "reset")
		{
			for (auto& p : bs) delete p.second;
			decltype(bs)().swap(bs); decltype(arena)().swap(arena); numbers.clear();
			left = Mem::left();
			for (auto& n : items(t[1])) bs[n] = nullptr;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		Obj s;
		for (auto& p : bs)
		{
			std::vector<long> v;
			if (p.second && p.second->at)
			{
				try { v.push_back(p.second->index()); v.push_back(p.second->cur()); }
				catch (const Error&) { v = { -99 }; }
			}
			s.f(p.first.c_str(), v);
		}
		emit(Obj().f("o", echo(t)).f("r", r).f("en", s.raw()).f("left", left));
	});
}

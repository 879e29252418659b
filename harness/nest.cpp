// owners that own owners (C28)
#include "vf.h"
#include "Basic.h"
#include "Primitives/Pointer.h"
#include "Primitives/Nullable.h"
#include "Primitives/Variant.h"
#include "Primitives/Function.h"
#include "Collections/List.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include <memory>
using namespace vf;
using namespace vl;
using namespace vl::collections;

#define K_LIST 1
#define K_ARRAY 2
#define K_SORTED 3
#define K_DICT 4
#define K_GROUP 5
#define K_NULLABLE 6
#define K_FROZEN 7
#define K_VARIANT 8
#define K_PTR 9
#define K_COM 10
#define K_FUNC 11
#define K_LAZY 12
#ifndef KIND
#define KIND K_LIST
#endif

struct Node;
// an owner that needs a complete type, kept on the heap; copies copy it, and assignments take the new one before they release the old one
template<typename H> struct Box
{
	mutable H* p = nullptr;
	Box() = default;
	Box(const Box& o);
	Box(Box&& o) :p(o.p) { o.p = nullptr; }
	~Box();
	Box& operator=(const Box& o) { Box x(o); std::swap(p, x.p); return *this; }
	Box& operator=(Box&& o) { Box x(std::move(o)); std::swap(p, x.p); return *this; }
	H& get();
};

struct Nothing {};
struct Visitor { Node* node = nullptr; };
#if KIND == K_LIST
typedef List<Node> H;
#elif KIND == K_ARRAY
typedef Array<Node> H;
#elif KIND == K_SORTED
typedef SortedList<Node> H;
#elif KIND == K_DICT
typedef Dictionary<long, Node> H;
#elif KIND == K_GROUP
typedef Group<long, Node> H;
#elif KIND == K_NULLABLE || KIND == K_FROZEN
typedef Nullable<Node> H;
#define BOXED
#elif KIND == K_VARIANT
typedef Variant<Nothing, Node> H;
#define BOXED
#elif KIND == K_PTR
typedef Ptr<Node> H;
#elif KIND == K_COM
typedef ComPtr<Node> H;
#elif KIND == K_FUNC
typedef Func<void(Visitor*)> H;
#elif KIND == K_LAZY
typedef LazyList<Node*> H;
#endif
#if KIND >= K_NULLABLE && KIND != K_COM && KIND != K_PTR
#define COPYABLE
#endif
#if KIND >= K_NULLABLE
#define ONE
#endif

struct Node
{
#if KIND == K_FROZEN
	const long v;
#else
	long v;
#endif
#ifdef BOXED
	Box<H> box;
	H& kids() { return box.get(); }
	Node(Node&& o) :v(o.rd()), box(std::move(o.box)) { Life::born(this); }
	Node(const Node& o) :v(o.rd()), box(o.box) { Life::born(this); }
#if KIND == K_FROZEN
	Node& operator=(const Node&) = delete;
	Node& operator=(Node&&) = delete;
#else
	Node& operator=(const Node& o) { Life::used(this); v = o.rd(); box = o.box; return *this; }
	Node& operator=(Node&& o) { Life::used(this); v = o.rd(); box = std::move(o.box); return *this; }
#endif
#else
	mutable H own;
	H& kids() { return own; }
	Node(Node&& o) :v(o.rd()), own(std::move(o.own)) { Life::born(this); }
	Node& operator=(Node&& o) { Life::used(this); v = o.rd(); own = std::move(o.own); return *this; }
#ifdef COPYABLE
	Node(const Node& o) :v(o.rd()), own(o.own) { Life::born(this); }
#endif
#endif
	Node() :v(0) { Life::born(this); }
	Node(long _v) :v(_v) { Life::born(this); }
	~Node() { Life::died(this); const_cast<long&>(v) = -88; }
	long rd()const { Life::used(this); return v; }
	std::strong_ordering operator<=>(const Node& o)const { return rd() <=> o.rd(); }
	bool operator==(const Node& o)const { return rd() == o.rd(); }
	void Release() { delete this; }
	Node* operator()(vint)const { return const_cast<Node*>(this); }
	void operator()(Visitor* visitor)const { visitor->node = const_cast<Node*>(this); }
};
template<typename H> Box<H>::Box(const Box& o) :p(o.p ? new H(*o.p) : nullptr) {}
template<typename H> Box<H>::~Box() { auto x = p; p = nullptr; delete x; }
template<typename H> H& Box<H>::get() { if (!p) p = new H; return *p; }

static vint count(H& h)
{
#if KIND <= K_SORTED
	return h.Count();
#elif KIND == K_DICT || KIND == K_GROUP
	return h.Keys().Count();
#elif KIND == K_VARIANT
	return h.Index();
#elif KIND == K_LAZY
	return h.Count();
#else
	return (bool)h;
#endif
}
static Node& at(H& h, vint i)
{
#if KIND <= K_SORTED
	return const_cast<Node&>(h.Get(i));
#elif KIND == K_DICT
	return const_cast<Node&>(h.Values()[i]);
#elif KIND == K_GROUP
	return const_cast<Node&>(h.GetByIndex(i)[0]);
#elif KIND == K_NULLABLE || KIND == K_FROZEN
	return const_cast<Node&>(h.Value());
#elif KIND == K_VARIANT
	return h.Get<Node>();
#elif KIND == K_PTR || KIND == K_COM
	return *h.Obj();
#elif KIND == K_LAZY
	return *h.First();
#else
	Visitor v; h(&v); return *v.node;
#endif
}
static void add(H& h, Node&& n)
{
#if KIND == K_LIST || KIND == K_SORTED
	h.Add(std::move(n));
#elif KIND == K_ARRAY
	h.Resize(h.Count() + 1); h[h.Count() - 1] = std::move(n);
#elif KIND == K_DICT || KIND == K_GROUP
	long k = n.v; h.Add(std::move(k), std::move(n));
#elif KIND == K_PTR
	h = Ptr(new Node(std::move(n)));
#elif KIND == K_COM
	h = new Node(std::move(n));
#elif KIND == K_LAZY
	h = Range<vint>(0, 1).Select(std::move(n));
#else
	h = std::move(n);
#endif
}
static void clear(H& h)
{
#if KIND == K_ARRAY
	h.Resize(0);
#elif KIND <= K_GROUP
	h.Clear();
#elif KIND == K_NULLABLE || KIND == K_FROZEN
	h.Reset();
#elif KIND == K_VARIANT
	h = Nothing();
#elif KIND == K_FUNC || KIND == K_LAZY
	h = H();
#else
	h = nullptr;
#endif
}
static void drop(H& h, vint i)
{
#if KIND == K_ARRAY
	for (vint j = i; j + 1 < h.Count(); j++) h[j] = std::move(h[j + 1]);
	h.Resize(h.Count() - 1);
#elif KIND == K_LIST || KIND == K_SORTED
	h.RemoveAt(i);
#elif KIND == K_DICT || KIND == K_GROUP
	long k = h.Keys()[i]; h.Remove(k);
#else
	clear(h);
#endif
}
// a source of a move is left empty; a variant keeps its (moved-away) element, so that is released here
static void emptied(H& h)
{
#if KIND == K_VARIANT
	clear(h);
#endif
}

static std::map<std::string, H*> hs;
static std::string dump(H& h)
{
	std::string s = "[";
	for (vint i = 0; i < count(h); i++) { auto& n = at(h, i); s += (i ? ",[" : "[") + std::to_string(n.rd()) + "," + dump(n.kids()) + "]"; }
	return s + "]";
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	H& h = *hs[t[1]];
	if (n == "wrap")
	{
		Node x(num(t[2]));
		x.kids() = std::move(h);
		clear(h);
		add(h, std::move(x));
		return ret("ok");
	}
	if (n == "push") { add(h, Node(num(t[2]))); return ret("ok"); }
	if (n == "lift") { H& r = (h = std::move(at(h, num(t[2]) - 1).kids())); return ret(&r == &h ? "ok" : "self"); }
	if (n == "lift2") { H& r = (h = std::move(at(at(h, num(t[2]) - 1).kids(), 0).kids())); return ret(&r == &h ? "ok" : "self"); }
#ifdef ONE
	if (n == "liftcopy") { const H& src = at(h, 0).kids(); h = src; return ret("ok"); }
	if (n == "liftnode" || n == "liftnodem")
	{
#if KIND == K_PTR || KIND == K_COM
		h = at(h, 0).kids();
#elif KIND == K_FUNC || KIND == K_LAZY
		if (n == "liftnode") { H x = at(h, 0).kids(); h = x; } else h = H(at(h, 0).kids());
#else
		Node& src = at(at(h, 0).kids(), 0);
		if (n == "liftnode") h = const_cast<const Node&>(src); else h = std::move(src);
#endif
		return ret("ok");
	}
#endif
	if (n == "drop") { drop(h, num(t[2]) - 1); return ret("ok"); }
	if (n == "clear") { clear(h); return ret("ok"); }
	H& d = *hs[t[2]];
	if (n == "move") { h = std::move(d); emptied(d); return ret("ok"); }
	H& in = at(d, num(t[3]) - 1).kids();
	if (n == "take") { h = std::move(in); emptied(in); return ret("ok"); }
	if (n == "plant") { in = std::move(h); emptied(h); return ret("ok"); }
	bad_input("op " + n);
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long mem = 0;
		if (t[0] == "reset")
		{
			for (auto& p : hs) delete p.second;
			hs.clear();
			if (Life::live) Life::bad++;
			mem = Mem::left();
			for (auto& n : items(t[1])) hs[n] = new H;
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		Obj s;
		for (auto& p : hs) s.f(p.first.c_str(), Raw{ dump(*p.second) });
		long live = Life::live, bad = Life::bad;
		emit(Obj().f("o", echo(t)).f("r", r).f("s", s.raw()).f("live", live).f("bad", bad).f("mem", mem));
		Life::bad = 0;
	});
}

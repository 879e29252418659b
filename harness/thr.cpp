// C02: threads that share objects and texts.
// Without STRESS: threads are fibers, and every schedule of their atomic accesses is run (sched_atomic.h).
// With STRESS: real threads, for ThreadSanitizer.
#include "vf.h"
#include <cstdarg>
#include <functional>
#include <atomic>
#include <vector>
#include <string>
#include <set>
#include <array>
#include <thread>
#include "Primitives/Pointer.h"
#include "Primitives/Function.h"
#include "Strings/String.h"
#ifndef STRESS
#include <ucontext.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
using namespace vl;
using namespace vf;

static const int MAXT = 4, MAXS = 3, MAXO = 4;
static thread_local int me = 0;			// the thread that is running (1..), 0 for the main program
static void event_destroy(int obj);
void point();

struct Base { virtual ~Base() {} int tag = 5; };
struct Thing : Base
{
	int id; int check;
	Thing(int i) :id(i), check(i * 1000 + 7) {}
	~Thing() { point(); event_destroy(id); check = -1; }
};
struct Unrelated : Base {};
struct ComThing
{
	int id; int check;
	ComThing(int i) :id(i), check(i * 1000 + 7) {}
	void Release() { point(); event_destroy(id); check = -1; delete this; }
};

struct KPtr
{
	typedef Ptr<Thing> H;
	static void make(H& h, int k) { h = Ptr(new Thing(k)); }
	static int read(const H& h) { return !h ? 0 : h->check == h->id * 1000 + 7 && h->tag == 5 ? h->id : -1; }
	static void drop(H& h) { h = nullptr; }
	static void cast(H& d, const H& s) { Ptr<Base> b = s; d = b.Cast<Thing>(); }
	static void sub(H& d, const H& s) { Ptr<Thing> a(s), c; c = std::move(a); d = std::move(c); }
	static void aside(H& d, const H& s) { Ptr<Base> b = s; if (b.Cast<Unrelated>()) abort(); d = s; }
};
struct KCom
{
	typedef ComPtr<ComThing> H;
	static void make(H& h, int k) { h = ComPtr<ComThing>(new ComThing(k)); }
	static int read(const H& h) { return !h ? 0 : h->check == h->id * 1000 + 7 ? h->id : -1; }
	static void drop(H& h) { h = nullptr; }
	static void cast(H& d, const H& s) { H a(s); d = a; }
	static void sub(H& d, const H& s) { H a(s), c; c = std::move(a); d = std::move(c); }
	static void aside(H& d, const H& s) { { H a; a = s; } d = s; }
};
struct KFunc
{
	// a function object shares what it captured
	struct Callee { int id; Ptr<Thing> t; int operator()() const { return KPtr::read(t); } };
	typedef Func<int()> H;
	static void make(H& h, int k) { auto t = Ptr(new Thing(k)); h = Func<int()>([t]() { return KPtr::read(t); }); }
	static int read(const H& h) { return !h ? 0 : h(); }
	static void drop(H& h) { h = H(); }
	static void cast(H& d, const H& s) { if (!s) { d = H(); return; } H a(s); d = a; }
	static void sub(H& d, const H& s) { H a(s), c; c = std::move(a); d = std::move(c); }
	static void aside(H& d, const H& s) { if (s) { Func<long()> l(s); if (l() <= 0) abort(); } d = s; }
};
static const void* texts[MAXO + 1];
struct KStr
{
	typedef WString H;
	static void make(H& h, int k)
	{
		wchar_t b[12]; for (int i = 0; i < 11; i++) b[i] = L'a' + k; b[11] = 0;
		h = WString::CopyFrom(b, 11);
		texts[k] = h.Buffer();
	}
	static int read(const H& h)
	{
		if (h.Length() == 0) return 0;
		int k = h[0] - L'a';
		for (vint i = 0; i < h.Length(); i++) if (h[i] != L'a' + k) return -1;
		return k;
	}
	static void drop(H& h) { h = WString(); }
	static void cast(H& d, const H& s) { d = s.Length() ? s.Left(s.Length()) : WString(); }
	static void sub(H& d, const H& s) { d = s.Length() > 1 ? s.Sub(1, s.Length() - 1) : WString(s); }
	// a part of the text is given a buffer of its own, and a text is made from two
	static void aside(H& d, const H& s)
	{
		if (s.Length() > 2)
		{
			WString part = s.Sub(1, s.Length() - 2);
			if (wcslen(part.Buffer()) != (size_t)part.Length() || part[0] != s[0]) abort();
			WString longer = part + s;
			if (longer.Length() != part.Length() + s.Length()) abort();
		}
		d = s;
	}
};

struct POp { std::string n; int d, s; };
typedef std::vector<POp> Prog;
template<typename K> struct World
{
	typedef typename K::H H;
	alignas(H) char mem[MAXT][MAXS][sizeof(H)];
	H& at(int t, int i) { return *reinterpret_cast<H*>(mem[t][i]); }
	int exec(int t, const POp& o)
	{
		auto& n = o.n;
		if (n == "copy") at(t, o.d) = at(t, o.s);
		else if (n == "move") at(t, o.d) = std::move(at(t, o.s));
		else if (n == "ctor") { at(t, o.d).~H(); new (mem[t][o.d]) H(at(t, o.s)); }
		else if (n == "mctor") { at(t, o.d).~H(); new (mem[t][o.d]) H(std::move(at(t, o.s))); }
		else if (n == "drop") K::drop(at(t, o.d));
		else if (n == "end") { at(t, o.d).~H(); new (mem[t][o.d]) H(); }
		else if (n == "cast") K::cast(at(t, o.d), at(t, o.s));
		else if (n == "sub") K::sub(at(t, o.d), at(t, o.s));
		else if (n == "aside") K::aside(at(t, o.d), at(t, o.s));
		else if (n == "read") return K::read(at(t, o.d));
		else bad_input(n);
		return 0;
	}
};

static std::vector<Prog> parse(const std::string& t)
{
	std::vector<Prog> r;
	for (auto& p : items(t))
	{
		Prog g;
		for (auto& x : items(p)) { auto v = items(x); g.push_back({ v[0], (int)num(v[1]) - 1, v.size() > 2 ? (int)num(v[2]) - 1 : 0 }); }
		r.push_back(g);
	}
	return r;
}

#ifndef STRESS
// events of the current run ---------------------------------------------------
static char ev[1 << 16];
static size_t evn = 0;
static void put(const char* f, ...)
{
	va_list a; va_start(a, f);
	evn += vsnprintf(ev + evn, sizeof(ev) - evn, f, a);
	va_end(a);
	if (evn + 400 > sizeof(ev)) bad_input("too many events");
}
static bool running = false;		// between the first and the last event of a run
static void event_destroy(int obj) { if (running) put("{\"o\":[\"destroy\",%d,%d],\"r\":0}\n", me, obj); }

// fibers --------------------------------------------------------------------------
static const size_t STK = 128 * 1024;
struct Fiber { ucontext_t c; char* stack = nullptr; void* fake = nullptr; bool done = true; };
static Fiber fib[MAXT];
static ucontext_t mainc;
static void* mainfake = nullptr;
static const void* mainstack = nullptr; static size_t mainsize = 0;
static int cur = -1;				// the fiber that runs
static std::function<void(int)> body;
static long steps = 0;

static void yield_()
{
	int f = cur;
	__sanitizer_start_switch_fiber(&fib[f].fake, mainstack, mainsize);
	swapcontext(&fib[f].c, &mainc);
	__sanitizer_finish_switch_fiber(fib[f].fake, &mainstack, &mainsize);
	cur = f; me = f + 1;
}
void point() { if (cur >= 0) yield_(); }
namespace vf { void sched_point() { point(); } }
static void entry(int f)
{
	__sanitizer_finish_switch_fiber(nullptr, &mainstack, &mainsize);
	cur = f; me = f + 1;
	body(f);
	fib[f].done = true;
	__sanitizer_start_switch_fiber(nullptr, mainstack, mainsize);
	swapcontext(&fib[f].c, &mainc);
	abort();
}
static void resume(int f)
{
	__sanitizer_start_switch_fiber(&mainfake, fib[f].stack, STK);
	swapcontext(&mainc, &fib[f].c);
	__sanitizer_finish_switch_fiber(mainfake, nullptr, nullptr);
	cur = -1; me = 0;
}

static std::vector<int> sched;			// choices of the current run
static std::vector<int> width;
static void die() { fprintf(stderr, "\nschedule:"); for (int x : sched) fprintf(stderr, " %d", x + 1); fprintf(stderr, "\nevents so far:\n%.*s\n", (int)evn, ev); }

// frees of texts
static void on_free(const volatile void* p)
{
	if (!running) return;
	for (int k = 1; k <= MAXO; k++) if (p && texts[k] == (const void*)p) { texts[k] = nullptr; put("{\"o\":[\"destroy\",%d,%d],\"r\":0}\n", me, k); }
}
static void on_malloc(const volatile void*, size_t) {}

static std::set<std::string> seen;
static long runs = 0;
static bool complete = true;

template<typename K> void explore(const std::string& init, const std::string& progs, long limit, int preempt)
{
	auto own = items(init);
	auto pr = parse(progs);
	int T = (int)pr.size(), S = 0;
	std::vector<std::vector<long>> o;
	for (auto& x : own) { o.push_back(nums(x)); S = (int)o.back().size(); }
	static World<K> w;
	std::vector<int> prefix;
	std::vector<int> slotsched; slotsched.reserve(1 << 12);
	sched.reserve(1 << 12); width.reserve(1 << 12);
	complete = true;
	auto opjs = [](const POp& p) { std::string r = "[" + js(p.n) + "," + std::to_string(p.d + 1); if (p.n != "drop" && p.n != "end" && p.n != "read") r += "," + std::to_string(p.s + 1); return r + "]"; };
	std::vector<std::vector<std::string>> text;
	for (auto& p : pr) { text.push_back({}); for (auto& q : p) text.back().push_back(opjs(q)); }
	body = [&](int f)
	{
		for (size_t i = 0; i < pr[f].size(); i++)
		{
			if (i) yield_();
			put("{\"o\":[\"begin\",%d,%s],\"r\":0}\n", f + 1, text[f][i].c_str());
			int r = w.exec(f, pr[f][i]);
			put("{\"o\":[\"end\",%d],\"r\":%d}\n", f + 1, r);
		}
	};
	long n = 0;
	std::string trace; trace.reserve(sizeof(ev) + 1024);
	while (true)
	{
		evn = 0; sched.clear(); width.clear();
		me = 0;
		for (auto& x : texts) x = nullptr;
		long before = (long)__sanitizer_get_current_allocated_bytes();
		int objs = 0;
		{
			for (int t = 0; t < T; t++) for (int i = 0; i < S; i++) new (w.mem[t][i]) typename K::H();
			for (int k = 1; k <= MAXO; k++)
			{
				int ft = -1, fi = -1;
				for (int t = 0; t < T; t++) for (int i = 0; i < S; i++) if (o[t][i] == k)
				{
					if (ft < 0) { K::make(w.at(t, i), k); ft = t; fi = i; objs++; }
					else w.at(t, i) = w.at(ft, fi);
				}
			}
		}
		running = true;
		for (int t = 0; t < T; t++)
		{
			fib[t].done = pr[t].empty();
			if (pr[t].empty()) continue;
			if (!fib[t].stack) fib[t].stack = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			getcontext(&fib[t].c);
			fib[t].c.uc_stack.ss_sp = fib[t].stack; fib[t].c.uc_stack.ss_size = STK; fib[t].c.uc_link = nullptr;
			makecontext(&fib[t].c, (void(*)())entry, 1, t);
		}
		int last = -1, same = 0, used = 0;
		while (true)
		{
			int en[MAXT], ne = 0;
			for (int t = 0; t < T; t++) if (!fib[t].done) en[ne++] = t;
			if (!ne) break;
			int c;
			bool lastIn = last >= 0 && !fib[last].done;
			// order the choices: go on with the same thread first; switching away from it costs one preemption
			int order[MAXT], no = 0;
			if (lastIn && same < 60) order[no++] = last;
			if (!lastIn || preempt < 0 || used < preempt || same >= 60) for (int i = 0; i < ne; i++) if (en[i] != last) order[no++] = en[i];
			if (!no) order[no++] = last;
			size_t at = sched.size();
			int pick = at < prefix.size() ? prefix[at] : 0;
			if (pick >= no) pick = no - 1;
			c = order[pick];
			slotsched.resize(at); slotsched.push_back(pick);
			sched.push_back(c); width.push_back(no);
			if (lastIn && c != last) used++;
			same = c == last ? same + 1 : 0;
			last = c;
			if (sched.size() > 4000) { fprintf(stderr, "a run does not end\n"); die(); exit(97); }
			resume(c);
		}
		// what is left is dropped
		for (int t = 0; t < T; t++) for (int i = 0; i < S; i++)
		{
			me = t + 1;
			put("{\"o\":[\"begin\",%d,[\"end\",%d]],\"r\":0}\n", t + 1, i + 1);
			w.exec(t, { "end", i, 0 });
			put("{\"o\":[\"end\",%d],\"r\":0}\n", t + 1);
		}
		running = false;
		me = 0;
		for (int t = 0; t < T; t++) for (int i = 0; i < S; i++) { typedef typename K::H H; w.at(t, i).~H(); }
		long left = (long)__sanitizer_get_current_allocated_bytes() - before;
		put("{\"o\":[\"finish\"],\"r\":%d,\"left\":%ld}\n", objs, left);
		trace.assign(ev, evn);
		runs++; n++;
		if (seen.insert(trace).second)
		{
			std::string head = "{\"o\":[\"again\"," + init + "],\"r\":0,\"s\":" + js(sched) + "}\n";
			fwrite(head.data(), 1, head.size(), out);
			fwrite(trace.data(), 1, trace.size(), out);
		}
		// next schedule
		prefix = slotsched;
		while (!prefix.empty() && prefix.back() + 1 >= width[prefix.size() - 1]) prefix.pop_back();
		if (prefix.empty()) break;
		prefix.back()++;
		if (n >= limit) { complete = false; break; }
	}
	fflush(out);
	body = nullptr;
}

int main(int argc, char** argv)
{
	// the statistics go to stderr: runs, and whether every schedule was tried
	__sanitizer_set_death_callback(die);
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
	long total = 0, cut = 0;
	int rc = run(argc, argv, [&](const Toks& t)
	{
		if (t[0] == "reset")
		{
			Obj o; o.f("o", echo(t)).f("r", 0);
			emit(o);
			return;
		}
		if (t[0] != "run") bad_input(t[0]);
		seen.clear();
		runs = 0;
		auto& k = t[1];
		long limit = num(t[4]); int pre = (int)num(t[5]);
		if (k == "ptr") explore<KPtr>(t[2], t[3], limit, pre);
		else if (k == "com") explore<KCom>(t[2], t[3], limit, pre);
		else if (k == "str") explore<KStr>(t[2], t[3], limit, pre);
		else if (k == "func") explore<KFunc>(t[2], t[3], limit, pre);
		else bad_input(k);
		total += runs; cut += !complete;
	});
	fprintf(stderr, "RUNS %ld CUT %ld\n", total, cut);
	return rc;
}
#else
// real threads ------------------------------------------------------------------
static std::atomic<int> destroyed[MAXO + 1];
static void event_destroy(int obj) { destroyed[obj].fetch_add(1, std::memory_order_relaxed); }
void point() {}
static unsigned rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 8; }
template<typename K> int stress(int rounds, unsigned seed)
{
	static World<K> w;
	const int T = 4, S = 3;
	int bad = 0;
	for (int r = 0; r < rounds; r++)
	{
		for (auto& d : destroyed) d = 0;
		int objs = 1 + r % 3;
		{
			typename K::H h[MAXO + 1];
			for (int k = 1; k <= objs; k++) K::make(h[k], k);
			for (int t = 0; t < T; t++) for (int i = 0; i < S; i++) new (w.mem[t][i]) typename K::H(h[1 + (t + i) % objs]);
		}
		std::vector<std::thread> th;
		std::vector<int> wrong(T);
		for (int t = 0; t < T; t++) th.emplace_back([&, t]()
		{
			unsigned s = seed + r * 131 + t * 7919;
			int mine[S];		// what each slot must hold
			for (int i = 0; i < S; i++) mine[i] = 1 + (t + i) % objs;
			int n = 3 + rnd(s) % 12;
			for (int q = 0; q < n; q++)
			{
				static const char* names[] = { "copy", "move", "ctor", "mctor", "drop", "end", "cast", "sub", "aside", "read" };
				POp o{ names[rnd(s) % 10], (int)(rnd(s) % S), 0 };
				o.s = (o.d + 1 + rnd(s) % (S - 1)) % S;
				int v = w.exec(t, o);
				if (o.n == "read") { if (v != mine[o.d]) wrong[t]++; }
				else if (o.n == "drop" || o.n == "end") mine[o.d] = 0;
				else { mine[o.d] = mine[o.s]; if (o.n == "move" || o.n == "mctor") mine[o.s] = 0; }
			}
			for (int i = 0; i < S; i++) { if (w.exec(t, { "read", i, 0 }) != mine[i]) wrong[t]++; w.exec(t, { "end", i, 0 }); }
		});
		for (auto& x : th) x.join();
		for (int x : wrong) bad += x;
		if (!std::is_same_v<K, KStr>) for (int k = 1; k <= objs; k++) if (destroyed[k] != 1) bad++;
	}
	return bad;
}
int main(int argc, char** argv)
{
	if (std::string(argv[1]) == "selftest") { std::thread t([] {}); t.join(); printf("ready\n"); return 0; }
	int n = atoi(argv[2]); unsigned seed = (unsigned)atoi(argv[3]);
	std::string k = argv[1];
	int bad = k == "ptr" ? stress<KPtr>(n, seed) : k == "com" ? stress<KCom>(n, seed) : k == "func" ? stress<KFunc>(n, seed) : stress<KStr>(n, seed);
	printf("bad %d\n", bad);
	return bad ? 1 : 0;
}
#endif

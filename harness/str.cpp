// strings as values (C12); -DCT=<character type> -DCT2=<same size> -DC1, C2, C3: characters number 1..3 in ascending order
#include "vf.h"
#include "Strings/String.h"
using namespace vf;
using namespace vl;

typedef ObjectString<CT> S;
static const CT map_[] = { (CT)0, C1, C2, C3 };
static std::map<std::string, S> ss;
struct Held { const CT* p; std::vector<long> text; };
static std::map<std::string, std::vector<Held>> held;
static std::vector<CT*> statics;	// texts behind unmanaged strings

static long code(CT c) { for (int i = 0; i < 4; i++) if (map_[i] == c) return i; return 9; }
static std::vector<long> text(const S& s) { std::vector<long> r; for (vint i = 0; i < s.Length(); i++) r.push_back(code(s[i])); return r; }
static CT* raw(const std::vector<long>& v, bool end = true)
{
	CT* p = new CT[v.size() + 1];
	for (size_t i = 0; i < v.size(); i++) p[i] = map_[v[i]];
	p[v.size()] = end ? (CT)0 : C1;
	return p;
}
struct Tmp { CT* p; Tmp(const std::vector<long>& v) :p(raw(v)) {} ~Tmp() { delete[] p; } };
static long sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
// comparison operators have to agree with the three-way result
template<typename A, typename B> static Raw compared(const A& a, const B& b)
{
	long c = sign(a <=> b), d = sign(b <=> a);
	if (c != -d || (a == b) != (c == 0) || (b == a) != (c == 0) || (a != b) != (c != 0) || (a < b) != (c < 0) || (a <= b) != (c <= 0) || (a > b) != (c > 0) || (a >= b) != (c >= 0)) return ret("inconsistent");
	return ret("v", c);
}

static Raw perform(const Toks& t)
{
	auto& n = t[0];
	if (n == "badmake")
	{
		S x;
		if (t[1] == "null") x = S((const CT*)nullptr);
		else if (t[1] == "unmanagednull") x = S::Unmanaged(nullptr);
		else if (t[1] == "copyneg") x = S::CopyFrom(map_ + 1, -1);
		else if (t[1] == "takeneg" || t[1] == "takeopen")
		{
			CT* p = raw({ 1, 2 }, t[1] == "takeneg");
			try { x = S::TakeOver(p, t[1] == "takeneg" ? -1 : 2); }
			catch (...) { delete[] p; throw; }
		}
		else bad_input("badmake " + t[1]);
		return ret("ok");
	}
	S& d = ss[t[1]];
	if (n == "lit") { Tmp p(nums(t[2])); d = p.p; return ret("ok"); }
	if (n == "unmanaged") { auto p = raw(nums(t[2])); statics.push_back(p); d = S::Unmanaged(p); return ret("ok"); }
	if (n == "copyfrom") { auto v = nums(t[2]); Tmp p(v); d = S::CopyFrom(p.p, (vint)v.size()); return ret("ok"); }
	if (n == "takeover") { auto v = nums(t[2]); auto p = raw(v); d = S::TakeOver(p, (vint)v.size()); return ret("ok"); }
	if (n == "fromchar") { d = S::FromChar(map_[num(t[2])]); return ret("ok"); }
	if (n == "index") { return ret("v", code(d[ext(t[2])])); }
	if (n == "indexof") { return ret("v", (long)d.IndexOf(map_[num(t[2])])); }
	if (n == "cmp") { return compared(d, ss[t[2]]); }
	if (n == "cmplit") { Tmp p(nums(t[2])); return compared(d, (const CT*)p.p); }
	if (n == "buffer")
	{
		const CT* p = d.Buffer();
		std::vector<long> v;
		for (vint i = 0; i < d.Length(); i++) v.push_back(code(p[i]));
		held[t[1]].push_back({ p, v });
		if (p[d.Length()] != 0) return ret("unterminated");
		return Raw{ "[\"txt\"," + js(v) + "]" };
	}
	if (n == "appendlit") { Tmp p(nums(t[2])); d += p.p; return ret("ok"); }
	if (n == "litconcat") { Tmp p(nums(t[2])); d = p.p + ss[t[3]]; return ret("ok"); }
	S& a = ss[t[2]];
	if (n == "assign") { d = a; return ret("ok"); }
	if (n == "copy") { S x(a); S y(x); d = y; return ret("ok"); }
	if (n == "move") { d = std::move(a); return ret("ok"); }
	if (n == "movector") { S x(std::move(a)); if (&a != &d && a.Length() != 0) return ret("notempty"); d = std::move(x); return ret("ok"); }
	if (n == "cast") { auto x = ObjectString<CT2>::UnsafeCastFrom(a); d = S::UnsafeCastFrom(x); return ret("ok"); }
	if (n == "append") { d += a; return ret("ok"); }
	if (n == "left") { d = a.Left(ext(t[3])); return ret("ok"); }
	if (n == "right") { d = a.Right(ext(t[3])); return ret("ok"); }
	if (n == "sub") { d = a.Sub(ext(t[3]), ext(t[4])); return ret("ok"); }
	if (n == "remove") { d = a.Remove(ext(t[3]), ext(t[4])); return ret("ok"); }
	if (n == "insert") { d = a.Insert(ext(t[3]), ss[t[4]]); return ret("ok"); }
	if (n == "concat") { d = a + ss[t[3]]; return ret("ok"); }
	if (n == "concatlit") { Tmp p(nums(t[3])); d = a + p.p; return ret("ok"); }
	bad_input("op " + n);
}

static const std::set<std::string> reads = { "index", "indexof", "cmp", "cmplit", "buffer", "badmake" };
int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		long left = 0;
		if (t[0] == "reset")
		{
			auto names = items(t[1]);
			std::map<std::string, S>().swap(ss);
			std::map<std::string, std::vector<Held>>().swap(held);
			for (auto p : statics) delete[] p;
			std::vector<CT*>().swap(statics);
			for (auto& n : names) ss[n];
			// measured twice in the same situation, once per program
			left = Mem::left();
		}
		else
		{
			try { r = perform(t); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
			if (!reads.count(t[0])) { held.erase(t[1]); if (t[0] == "move" || t[0] == "movector") held.erase(t[2]); }
		}
		bool ok = true;
		for (auto& hs : held) for (auto& h : hs.second) { for (size_t i = 0; i < h.text.size(); i++) ok = ok && code(h.p[i]) == h.text[i]; ok = ok && h.p[h.text.size()] == 0; }
		Obj s;
		for (auto& p : ss) s.f(p.first.c_str(), text(p.second));
		emit(Obj().f("o", echo(t)).f("r", r).f("s", s.raw()).f("held", ok ? 1 : 0).f("left", left));
	});
}

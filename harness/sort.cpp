// sorting (C10)
#include "vf.h"
#include <cmath>
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/OperationCopyFrom.h"
using namespace vf;
using namespace vl;
using namespace vl::collections;

static long told;
struct Item
{
	long key = 0, id = 0;
	Item() { Life::born(this); }
	Item(long k, long i) :key(k), id(i) { Life::born(this); }
	Item(const Item& x) :key(x.key), id(x.id) { Life::used(&x); Life::born(this); }
	Item& operator=(const Item& x) { Life::used(this); Life::used(&x); key = x.key; id = x.id; return *this; }
	~Item() { Life::died(this); }
	std::strong_ordering operator<=>(const Item& o)const { Life::used(this); Life::used(&o); return key <=> o.key; }
	bool operator==(const Item& o)const { return key == o.key; }
};
static std::vector<std::pair<long, long>> items_;

static std::partial_ordering cmp(const std::string& c, long x, long y)
{
	if (c == "asc") return x <=> y;
	if (c == "desc") return y <=> x;
	if (c == "half") return x / 2 <=> y / 2;
	if (c == "same") return std::partial_ordering::equivalent;
	if (c == "div") return x == y ? std::partial_ordering::equivalent : y % x == 0 ? std::partial_ordering::less : x % y == 0 ? std::partial_ordering::greater : (told++, std::partial_ordering::unordered);
	if (c == "nan") return x == 0 || y == 0 ? (told++, std::partial_ordering::unordered) : x <=> y;
	bad_input("comparator " + c);
}
static std::strong_ordering strong(std::partial_ordering o) { return o < 0 ? std::strong_ordering::less : o > 0 ? std::strong_ordering::greater : std::strong_ordering::equal; }
static std::weak_ordering weak(std::partial_ordering o) { return o < 0 ? std::weak_ordering::less : o > 0 ? std::weak_ordering::greater : std::weak_ordering::equivalent; }
static bool total(const std::string& c) { return c != "div" && c != "nan"; }

static Raw perform(const Toks& t, std::vector<std::pair<long, long>>& out)
{
	if (t[0] == "load") { items_.clear(); long i = 0; for (auto x : nums(t[1])) items_.push_back({ x, ++i }); return ret("ok"); }
	auto& how = t[1];
	auto& c = t[2];
	vint n = (vint)items_.size();
	auto* a = new Item[n];
	for (vint i = 0; i < n; i++) { a[i].key = items_[i].first; a[i].id = items_[i].second; }
	struct Guard { Item* a; vint n; ~Guard() { for (vint i = 0; i < n; i++) items_[i] = { a[i].key, a[i].id }; delete[] a; } };
	auto take = [&](const Item* p, vint k) { out.clear(); for (vint i = 0; i < k; i++) out.push_back({ p[i].key, p[i].id }); };
	auto P = [&](const Item& x, const Item& y) { return cmp(c, x.key, y.key); };
	auto W = [&](const Item& x, const Item& y) { return weak(cmp(c, x.key, y.key)); };
	auto S = [&](const Item& x, const Item& y) { return strong(cmp(c, x.key, y.key)); };
	if (how == "sort" || how == "sortlambda")
	{
		Guard g{ a, n };
		if (!total(c)) how == "sort" ? Sort(a, n, P) : SortLambda(a, n, P);
		else if (n % 3 == 0) how == "sort" ? Sort(a, n, W) : SortLambda(a, n, W);
		else how == "sort" ? Sort(a, n, S) : SortLambda(a, n, S);
		take(a, n);
		return ret("ok");
	}
	if (how == "plain") { Guard g{ a, n }; Sort(a, n); take(a, n); return ret("ok"); }
	delete[] a;
	if (how == "strings")
	{
		auto* w = new WString[n];
		for (vint i = 0; i < n; i++) w[i] = WString::Unmanaged(L"k") + itow(1000 + items_[i].first) + L":" + itow(items_[i].second);
		Sort(w, n, [&](const WString& x, const WString& y) { return x.Sub(0, 5) <=> y.Sub(0, 5); });
		for (vint i = 0; i < n; i++) { auto s = w[i]; out.push_back({ wtoi(s.Sub(1, 4)) - 1000, wtoi(s.Sub(6, s.Length() - 6)) }); }
		delete[] w;
		for (vint i = 0; i < n; i++) items_[i] = out[i];
		return ret("ok");
	}
	if (how == "pointers")
	{
		{
			List<Ptr<Item>> l;
			for (auto& p : items_) l.Add(Ptr(new Item(p.first, p.second)));
			if (n) SortLambda(&l[0], n, [&](const Ptr<Item>& x, const Ptr<Item>& y) { return S(*x.Obj(), *y.Obj()); });
			for (auto& p : l) out.push_back({ p->key, p->id });
		}
		for (vint i = 0; i < n; i++) items_[i] = out[i];
		return ret("ok");
	}
	List<Item> src;
	for (auto& p : items_) src.Add(Item(p.first, p.second));
	auto lazy = From(src);
	LazyList<Item> r;
	struct Back { List<Item>& s; ~Back() { items_.clear(); for (vint i = 0; i < s.Count(); i++) items_.push_back({ s[i].key, s[i].id }); } } back{ src };
	if (how == "order") { if (!total(c)) r = lazy.OrderBy(P); else if (n % 2) r = lazy.OrderBy(W); else r = lazy.OrderBy(S); }
	else if (how == "orderkey") { if (c == "half") r = lazy.OrderByKey([](const Item& x) { return x.key / 2; }); else if (c == "desc") r = lazy.OrderByKey([](const Item& x) { return -x.key; }); else if (c == "same") r = lazy.OrderByKey([](const Item&) { return 0; }); else r = lazy.OrderByKey([](const Item& x) { return x.key; }); }
	else if (how == "orderself") r = lazy.OrderBySelf();
	else bad_input("sort " + how);
	for (int k = 0; k < 2; k++) { out.clear(); for (auto& x : r) out.push_back({ x.key, x.id }); }
	return ret("ok");
}

int main(int argc, char** argv)
{
	return run(argc, argv, [&](const Toks& t)
	{
		Raw r = ret("ok");
		std::vector<std::pair<long, long>> out;
		told = 0;
		if (t[0] == "reset") { items_.clear(); Life::reset(); }
		else
		{
			try { r = perform(t, out); }
			catch (const Error&) { r = ret("err"); }
			catch (...) { r = ret("exc"); }
		}
		emit(Obj().f("o", echo(t)).f("r", r).f("arr", items_).f("out", out).f("told", told).f("bad", Life::bad + Life::live));
	});
}

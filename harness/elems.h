// Element types for container harnesses, and the mapping integer <-> element.
#pragma once
#include "vf.h"
#include "Basic.h"
#include "Primitives/Pointer.h"
#include "Primitives/Tuple.h"
#include "Strings/String.h"

namespace vf
{
	// nothing trivial; watches its lifetime; a moved-from object reads as -77
	struct Tracked
	{
		long v;
		Tracked() :v(0) { Life::born(this); }
		Tracked(long _v) :v(_v) { Life::born(this); }
		Tracked(const Tracked& o) :v(o.rd()) { Life::born(this); }
		Tracked(Tracked&& o) :v(o.rd()) { Life::born(this); o.v = -77; }
		~Tracked() { Life::died(this); v = -88; }
		Tracked& operator=(const Tracked& o) { Life::used(this); v = o.rd(); return *this; }
		Tracked& operator=(Tracked&& o) { Life::used(this); auto t = o.rd(); o.v = -77; v = t; return *this; }
		long rd()const { Life::used(this); return v; }
		auto operator<=>(const Tracked& o)const { return rd() <=> o.rd(); }
		bool operator==(const Tracked& o)const { return rd() == o.rd(); }
	};

	// copy only (no move operations), owns memory
	struct CopyOnly
	{
		long* p;
		CopyOnly() :p(new long(0)) { Life::born(this); }
		CopyOnly(long _v) :p(new long(_v)) { Life::born(this); }
		CopyOnly(const CopyOnly& o) :p(new long(o.rd())) { Life::born(this); }
		~CopyOnly() { Life::died(this); delete p; p = nullptr; }
		CopyOnly& operator=(const CopyOnly& o) { Life::used(this); long t = o.rd(); *p = t; return *this; }
		long rd()const { Life::used(this); return *p; }
		auto operator<=>(const CopyOnly& o)const { return rd() <=> o.rd(); }
		bool operator==(const CopyOnly& o)const { return rd() == o.rd(); }
	};

	// all trivial, odd size
	struct Pod
	{
		char pad[5]; char lo, hi; char tail[6];
		bool operator==(const Pod& o)const { return lo == o.lo && hi == o.hi; }
		std::strong_ordering operator<=>(const Pod& o)const { return (hi * 256 + (unsigned char)lo) <=> (o.hi * 256 + (unsigned char)o.lo); }
	};

	// trivial copy/move construction and destruction, non-trivial default construction and assignment
	struct Mixed
	{
		long v = 0;
		Mixed() {}
		Mixed(long _v) :v(_v) {}
		Mixed(const Mixed&) = default;
		Mixed(Mixed&&) = default;
		Mixed& operator=(const Mixed& o) { v = o.v; return *this; }
		Mixed& operator=(Mixed&& o) { auto t = o.v; if (&o != this) o.v = -77; v = t; return *this; }
		auto operator<=>(const Mixed&)const = default;
	};

	// non-trivial copy/move construction, trivial assignment and default construction is non-trivial
	struct Mixed2
	{
		long v;
		Mixed2() :v(0) {}
		Mixed2(long _v) :v(_v) {}
		Mixed2(const Mixed2& o) :v(o.v) {}
		Mixed2(Mixed2&& o) :v(o.v) { o.v = -77; }
		Mixed2& operator=(const Mixed2&) = default;
		Mixed2& operator=(Mixed2&&) = default;
		auto operator<=>(const Mixed2&)const = default;
	};

	// only movable
	struct MoveOnly
	{
		long v;
		MoveOnly() :v(0) { Life::born(this); }
		MoveOnly(long _v) :v(_v) { Life::born(this); }
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly& operator=(const MoveOnly&) = delete;
		MoveOnly(MoveOnly&& o) :v(o.rd()) { Life::born(this); o.v = -77; }
		MoveOnly& operator=(MoveOnly&& o) { Life::used(this); auto t = o.rd(); o.v = -77; v = t; return *this; }
		~MoveOnly() { Life::died(this); v = -88; }
		long rd()const { Life::used(this); return v; }
		auto operator<=>(const MoveOnly& o)const { return rd() <=> o.rd(); }
		bool operator==(const MoveOnly& o)const { return rd() == o.rd(); }
	};

	template<typename T> struct El;

	template<> struct El<int>
	{
		static constexpr bool trivialDefault = true, tracked = false, copyable = true;
		static int mk(long v) { return (int)v; }
		static long rd(const int& v) { return v; }
		static int key(long v) { return (int)v; }
	};
	template<> struct El<long long>
	{
		static constexpr bool trivialDefault = true, tracked = false, copyable = true;
		static long long mk(long v) { return (long long)v * 4294967311LL; }
		static long rd(const long long& v) { return (long)(v / 4294967311LL); }
		static long long key(long v) { return mk(v); }
	};
	template<> struct El<char>
	{
		static constexpr bool trivialDefault = true, tracked = false, copyable = true;
		static char mk(long v) { return (char)v; }
		static long rd(const char& v) { return v; }
		static char key(long v) { return mk(v); }
	};
	template<> struct El<Pod>
	{
		static constexpr bool trivialDefault = true, tracked = false, copyable = true;
		static Pod mk(long v) { Pod p; memset(&p, 0x5a, sizeof(p)); p.lo = (char)(v & 255); p.hi = (char)(v >> 8); p.tail[5] = (char)(v * 3); return p; }
		static long rd(const Pod& p) { if (p.tail[5] != (char)((p.hi * 256 + (unsigned char)p.lo) * 3)) return -99; return p.hi * 256 + (unsigned char)p.lo; }
		static Pod key(long v) { return mk(v); }
	};
	template<typename T> struct ElObj
	{
		static constexpr bool trivialDefault = false, copyable = true;
		static T mk(long v) { return T(v); }
		static T key(long v) { return T(v); }
	};
	template<> struct El<Tracked> : ElObj<Tracked> { static constexpr bool tracked = true; static long rd(const Tracked& t) { return t.rd(); } };
	template<> struct El<CopyOnly> : ElObj<CopyOnly> { static constexpr bool tracked = true; static long rd(const CopyOnly& t) { return t.rd(); } };
	template<> struct El<MoveOnly> : ElObj<MoveOnly> { static constexpr bool tracked = true, copyable = false; static long rd(const MoveOnly& t) { return t.rd(); } };
	template<> struct El<Mixed> : ElObj<Mixed> { static constexpr bool tracked = false; static long rd(const Mixed& t) { return t.v; } };
	template<> struct El<Mixed2> : ElObj<Mixed2> { static constexpr bool tracked = false; static long rd(const Mixed2& t) { return t.v; } };
	template<> struct El<vl::WString>
	{
		static constexpr bool trivialDefault = false, tracked = false, copyable = true;
		static vl::WString mk(long v)
		{
			// fixed width so that the order of texts is the order of numbers
			if (v == 0) return vl::WString();
			wchar_t b[16]; swprintf(b, 16, L"k%06ld", v + 500000);
			return vl::WString((const wchar_t*)b);
		}
		static long rd(const vl::WString& s)
		{
			if (s.Length() == 0) return 0;
			if (s.Length() != 7 || s[0] != L'k') return -99;
			long v = 0;
			for (int i = 1; i < 7; i++) v = v * 10 + (s[i] - L'0');
			return v - 500000;
		}
		static vl::WString key(long v) { return mk(v); }
	};
	struct Cell { long v; Cell(long _v) :v(_v) { Life::born(this); } ~Cell() { Life::died(this); v = -88; } };
	template<> struct El<vl::Ptr<Cell>>
	{
		static constexpr bool trivialDefault = false, tracked = false, copyable = true;
		static Cell** pool() { static Cell** p = nullptr; return p; }
		static inline vl::Ptr<Cell>* cells = nullptr;
		static vl::Ptr<Cell> mk(long v)
		{
			if (v <= 0 || v > 400) return nullptr;
			if (!cells) { cells = new vl::Ptr<Cell>[401]; }
			if (!cells[1])
			{
				// ascending addresses, so that pointer order is value order
				std::set<Cell*> s; for (int i = 0; i < 400; i++) s.insert(new Cell(0));
				int i = 1; for (auto c : s) { c->v = i; cells[i] = vl::Ptr<Cell>(c); i++; }
			}
			return cells[v];
		}
		static long rd(const vl::Ptr<Cell>& p) { if (!p) return 0; Life::used(p.Obj()); return p->v; }
		static Cell* key(long v) { return mk(v).Obj(); }
	};
	// a text of every length comes into it: 0 to 3 characters
	typedef vl::Tuple<int, vl::WString> Tup;
	template<> struct El<Tup>
	{
		static constexpr bool trivialDefault = false, tracked = false, copyable = true;
		static long part(long v) { return ((v % 4) + 4) % 4; }
		static Tup mk(long v) { return Tup((int)((v - part(v)) / 4), vl::WString::Unmanaged(L"aaa").Left(part(v))); }
		static long rd(const Tup& t) { return t.get<0>() * 4 + t.get<1>().Length(); }
		static Tup key(long v) { return mk(v); }
	};
	struct ComCell { long v; ComCell(long _v) :v(_v) { Life::born(this); } ~ComCell() { Life::died(this); v = -88; } void Release() { delete this; } };
	template<> struct El<vl::ComPtr<ComCell>>
	{
		static constexpr bool trivialDefault = false, tracked = false, copyable = true;
		static inline vl::ComPtr<ComCell>* cells = nullptr;
		static vl::ComPtr<ComCell> mk(long v)
		{
			if (v <= 0 || v > 400) return nullptr;
			if (!cells)
			{
				cells = new vl::ComPtr<ComCell>[401];
				std::set<ComCell*> s; for (int i = 0; i < 400; i++) s.insert(new ComCell(0));
				int i = 1; for (auto c : s) { c->v = i; cells[i] = vl::ComPtr<ComCell>(c); i++; }
			}
			return cells[v];
		}
		static long rd(const vl::ComPtr<ComCell>& p) { if (!p) return 0; Life::used(p.Obj()); return p->v; }
		static ComCell* key(long v) { return mk(v).Obj(); }
	};
}

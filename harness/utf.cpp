// Unicode conversions (C13)
#include "vf.h"
#include "Strings/Conversion.h"
#include <clocale>
using namespace vf;
using namespace vl;
using namespace vl::encoding;

template<typename T> struct K { static T make(long v) { return (T)v; } static long unit(T c) { return (long)c; } };
template<> struct K<char> { static char make(long v) { return (char)v; } static long unit(char c) { return (unsigned char)c; } };
template<> struct K<char32_t> { static char32_t make(long v) { return (char32_t)(int32_t)v; } static long unit(char32_t c) { return (int32_t)c; } };
template<> struct K<wchar_t> { static wchar_t make(long v) { return (wchar_t)(int32_t)v; } static long unit(wchar_t c) { return (int32_t)c; } };
template<> struct K<char16be_t> { static char16be_t make(long v) { return char16be_t((char16_t)v); } static long unit(char16be_t c) { return (long)c.value; } };

// exactly the units, so that the sanitizer sees reads outside
template<typename T> struct Text
{
	T* p; size_t n;
	Text(const std::vector<long>& v, bool zero) : p(new T[v.size() + (zero ? 1 : 0)]), n(v.size())
	{
		for (size_t i = 0; i < n; i++) p[i] = K<T>::make(v[i]);
		if (zero) p[n] = K<T>::make(0);
	}
	~Text() { delete[] p; }
};

struct AnyReader { virtual ~AnyReader() {} virtual long Read() = 0; virtual vint Index() = 0; virtual UtfCharCluster Cluster() = 0; };
template<typename F, typename T, typename R> struct ReaderOf : AnyReader
{
	Text<F> text;
	R* r;
	ReaderOf(const std::vector<long>& v, const std::string& m) : text(v, m == "z")
	{
		if constexpr (std::is_constructible_v<R, const F*, const F*>) r = m == "r" ? new R(text.p, text.p + text.n) : new R(text.p, (vint)text.n);
		else r = new R(text.p);
	}
	~ReaderOf() { delete r; }
	long Read() override { return K<T>::unit((T)r->Read()); }
	vint Index() override { return r->ReadingIndex(); }
	UtfCharCluster Cluster() override { return r->SourceCluster(); }
};
template<typename F, typename T> AnyReader* mk2(const std::string& m, const std::vector<long>& v)
{
	if (m == "z") return new ReaderOf<F, T, UtfStringToStringReader<F, T>>(v, m);
	return new ReaderOf<F, T, UtfStringRangeToStringRangeReader<F, T>>(v, m);
}
template<typename F> AnyReader* mk1(const std::string& m, const std::string& t, const std::vector<long>& v)
{
	if (t == "u8") return mk2<F, char8_t>(m, v);
	if (t == "u16") return mk2<F, char16_t>(m, v);
	if (t == "be") return mk2<F, char16be_t>(m, v);
	if (t == "u32") return mk2<F, char32_t>(m, v);
	return mk2<F, wchar_t>(m, v);
}
static AnyReader* mk(const std::string& m, const std::string& f, const std::string& t, const std::vector<long>& v)
{
	if (f == "u8") return mk1<char8_t>(m, t, v);
	if (f == "u16") return mk1<char16_t>(m, t, v);
	if (f == "be") return mk1<char16be_t>(m, t, v);
	if (f == "u32") return mk1<char32_t>(m, t, v);
	return mk1<wchar_t>(m, t, v);
}

// a string that is a part of a longer one
template<typename T> ObjectString<T> part(const std::vector<long>& v)
{
	std::vector<long> w; w.push_back('<'); w.insert(w.end(), v.begin(), v.end()); w.push_back('>');
	Text<T> t(w, true);
	return ObjectString<T>::CopyFrom(t.p, (vint)w.size()).Sub(1, (vint)v.size());
}
template<typename T> std::vector<long> units(const ObjectString<T>& s)
{
	std::vector<long> r;
	for (vint i = 0; i < s.Length(); i++) r.push_back(K<T>::unit(s[i]));
	return r;
}
static std::vector<long> convert(const std::string& f, const std::string& t, const std::vector<long>& v)
{
	auto k = f + ">" + t;
	if (k == "w>u32") return units(wtou32(part<wchar_t>(v)));
	if (k == "u32>w") return units(u32tow(part<char32_t>(v)));
	if (k == "u8>u32") return units(u8tou32(part<char8_t>(v)));
	if (k == "u32>u8") return units(u32tou8(part<char32_t>(v)));
	if (k == "u16>u32") return units(u16tou32(part<char16_t>(v)));
	if (k == "u32>u16") return units(u32tou16(part<char32_t>(v)));
	if (k == "w>u8") return units(wtou8(part<wchar_t>(v)));
	if (k == "u8>w") return units(u8tow(part<char8_t>(v)));
	if (k == "w>u16") return units(wtou16(part<wchar_t>(v)));
	if (k == "u16>w") return units(u16tow(part<char16_t>(v)));
	if (k == "u8>u16") return units(u8tou16(part<char8_t>(v)));
	if (k == "u16>u8") return units(u16tou8(part<char16_t>(v)));
	if (k == "a>w") return units(atow(part<char>(v)));
	if (k == "a>u8") return units(atou8(part<char>(v)));
	if (k == "a>u16") return units(atou16(part<char>(v)));
	if (k == "a>u32") return units(atou32(part<char>(v)));
	if (k == "w>a") return units(wtoa(part<wchar_t>(v)));
	if (k == "u8>a") return units(u8toa(part<char8_t>(v)));
	if (k == "u16>a") return units(u16toa(part<char16_t>(v)));
	if (k == "u32>a") return units(u32toa(part<char32_t>(v)));
	std::vector<long> r;
	AnyReader* a = mk("z", f, t, v);
	for (int i = 0; i < 1000; i++) { long c = a->Read(); if (!c) break; r.push_back(c); }
	delete a;
	return r;
}
template<typename F, typename T> Raw buffer(const std::vector<long>& v, long n)
{
	Text<F> s(v, true);
	if (n < 0) return ret("v", _utftoutf<F, T>(s.p, nullptr, 0));
	T* d = new T[n];
	vint k = _utftoutf<F, T>(s.p, d, n);
	std::vector<long> r;
	for (vint i = 0; i < k && i < n; i++) r.push_back(K<T>::unit(d[i]));
	delete[] d;
	if (k < 0 || k > n) return ret("size", k);
	return Raw{ "[\"text\"," + js(r) + "]" };
}
static Raw into(const std::string& f, const std::string& t, const std::vector<long>& v, long n)
{
	auto k = f + ">" + t;
	if (k == "w>u32") return buffer<wchar_t, char32_t>(v, n);
	if (k == "u32>w") return buffer<char32_t, wchar_t>(v, n);
	if (k == "u8>u32") return buffer<char8_t, char32_t>(v, n);
	if (k == "u32>u8") return buffer<char32_t, char8_t>(v, n);
	if (k == "u16>u32") return buffer<char16_t, char32_t>(v, n);
	if (k == "u32>u16") return buffer<char32_t, char16_t>(v, n);
	if (k == "w>u8") return buffer<wchar_t, char8_t>(v, n);
	if (k == "u8>w") return buffer<char8_t, wchar_t>(v, n);
	if (k == "w>u16") return buffer<wchar_t, char16_t>(v, n);
	if (k == "u16>w") return buffer<char16_t, wchar_t>(v, n);
	if (k == "u8>u16") return buffer<char8_t, char16_t>(v, n);
	if (k == "u16>u8") return buffer<char16_t, char8_t>(v, n);
	bad_input(k);
}

template<typename T> std::vector<long> from32(long v)
{
	T d[UtfConversion<T>::BufferLength];
	std::vector<long> r;
	vint n = UtfConversion<T>::From32((char32_t)(int32_t)v, d);
	for (vint i = 0; i < n; i++) r.push_back(K<T>::unit(d[i]));
	return r;
}
template<typename T> std::vector<long> to32(const std::vector<long>& u)
{
	Text<T> s(u, false);
	char32_t c = 0;
	vint n = UtfConversion<T>::To32(s.p, (vint)s.n, c);
	if (n == -1) return { 0, 0 };
	return { (long)n, (long)(int32_t)c };
}

static AnyReader* reader = nullptr;
static Raw perform(const Toks& t)
{
	auto& n = t[0];
	if (n == "open")
	{
		delete reader;
		reader = mk(t[1], t[2], t[3], nums(t[4]));
		auto c = reader->Cluster();
		return Raw{ "[\"open\"," + js((long)reader->Index()) + "," + js((long)c.index) + "," + js((long)c.size) + "]" };
	}
	if (n == "read")
	{
		if (!reader) bad_input("no reader");
		long u = reader->Read();
		auto c = reader->Cluster();
		auto tail = js((long)reader->Index()) + "," + js((long)c.index) + "," + js((long)c.size) + "]";
		return Raw{ u ? "[\"unit\"," + js(u) + "," + tail : "[\"zero\"," + tail };
	}
	if (n == "conv" || n == "narrow") return Raw{ "[\"text\"," + js(convert(t[1], t[2], nums(t[3]))) + "]" };
	if (n == "size") return into(t[1], t[2], nums(t[3]), -1);
	if (n == "into") return into(t[1], t[2], nums(t[3]), num(t[4]));
	if (n == "enc" || n == "dec")
	{
		std::vector<std::vector<long>> r;
		if (n == "enc") for (long i = 0; i < num(t[3]); i++)
		{
			long v = num(t[2]) + i;
			r.push_back(t[1] == "u8" ? from32<char8_t>(v) : t[1] == "u16" ? from32<char16_t>(v) : t[1] == "be" ? from32<char16be_t>(v) : from32<wchar_t>(v));
		}
		else
		{
			auto pre = nums(t[2]), suf = nums(t[5]);
			for (long i = 0; i < num(t[4]); i++)
			{
				auto u = pre;
				u.push_back(num(t[3]) + i);
				u.insert(u.end(), suf.begin(), suf.end());
				r.push_back(t[1] == "u8" ? to32<char8_t>(u) : t[1] == "u16" ? to32<char16_t>(u) : t[1] == "be" ? to32<char16be_t>(u) : to32<wchar_t>(u));
			}
		}
		return Raw{ "[\"" + n + "\"," + js(r) + "]" };
	}
	bad_input(n);
}

int main(int argc, char** argv)
{
	if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no C.UTF-8\n"); return 3; }
	{ wchar_t w[4]; char a[8]; mbstowcs(w, "x", 3); wcstombs(a, L"\x4E2D", 7); }   // what the C library allocates once
	return run(argc, argv, [](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		if (t[0] == "reset")
		{
			delete reader; reader = nullptr;
			o.f("r", Raw{ "[\"ok\"]" }).f("left", Mem::left());
		}
		else
		{
			Raw r;
			try { r = perform(t); }
			catch (const Error& e) { r = Raw{ "[\"err\"]" }; }
			o.f("r", r);
		}
		emit(o);
	});
}

// numbers as text, case conversion (C14)
#include <locale.h>
#include "vf.h"
#include "Strings/String.h"
using namespace vf;
using namespace vl;

static std::vector<long> limbs(unsigned __int128 m)
{
	std::vector<long> r;
	do { r.insert(r.begin(), (long)(m % 10000)); m /= 10000; } while (m);
	return r;
}
static Raw value(bool neg, unsigned __int128 m) { return Raw{ "[\"ok\",[" + js((long)(neg ? 1 : 0)) + "," + js(limbs(m)) + "]]" }; }
static Raw svalue(vint64_t v) { return value(v < 0, v < 0 ? (unsigned __int128)0 - (unsigned __int128)(__int128)v : (unsigned __int128)v); }
static Raw uvalue(vuint64_t v) { return value(false, v); }
template<typename T> ObjectString<T> mk(const std::vector<long>& v)
{
	T* p = new T[v.size() + 2];
	p[0] = (T)'7';	// the text is a part of a longer one
	for (size_t i = 0; i < v.size(); i++) p[i + 1] = (T)v[i];
	p[v.size() + 1] = (T)'7';
	auto s = ObjectString<T>::CopyFrom(p, (vint)v.size() + 2).Sub(1, (vint)v.size());
	delete[] p;
	return s;
}
template<typename T> Raw text(const ObjectString<T>& s)
{
	std::vector<long> r;
	for (vint i = 0; i < s.Length(); i++) r.push_back(sizeof(T) == 1 ? (long)(unsigned char)s[i] : (long)s[i]);
	if (s.Buffer()[s.Length()] != 0) return Raw{ "[\"unterminated\"]" };
	return Raw{ "[\"text\"," + js(r) + "]" };
}
static Raw perform(const Toks& t)
{
	auto& n = t[0];
	bool w = t[1] == "w";
	auto& k = t[2];
	if (n == "fmt")
	{
		unsigned __int128 m = 0;
		for (auto l : nums(t[4])) m = m * 10000 + (unsigned long)l;
		bool neg = num(t[3]) == 1;
		vuint64_t u = (vuint64_t)m;
		vint64_t s = neg ? (vint64_t)(0 - u) : (vint64_t)u;
		if (k == "i32") return w ? text(itow((vint)s)) : text(itoa((vint)s));
		if (k == "u32") return w ? text(utow((vuint)u)) : text(utoa((vuint)u));
		if (k == "i64") return w ? text(i64tow(s)) : text(i64toa(s));
		return w ? text(u64tow(u)) : text(u64toa(u));
	}
	auto v = nums(t[3]);
	auto a = mk<char>(w ? std::vector<long>() : v);
	auto b = mk<wchar_t>(w ? v : std::vector<long>());
	if (n == "lower") return w ? text(wlower(b)) : text(alower(a));
	if (n == "upper") return w ? text(wupper(b)) : text(aupper(a));
	if (n == "fparse")
	{
		bool ok = false;
		double d = w ? wtof_test(b, ok) : atof_test(a, ok);
		if (!ok) return Raw{ "[\"no\"]" };
		return w ? text(ftow(d)) : text(ftoa(d));
	}
	if (n == "fvalue") return w ? text(ftow(wtof(b))) : text(ftoa(atof(a)));
	if (n == "parse")
	{
		bool ok = false;
		Raw r;
		if (k == "i32") r = svalue(w ? wtoi_test(b, ok) : atoi_test(a, ok));
		else if (k == "u32") r = uvalue(w ? wtou_test(b, ok) : atou_test(a, ok));
		else if (k == "i64") r = svalue(w ? wtoi64_test(b, ok) : atoi64_test(a, ok));
		else r = uvalue(w ? wtou64_test(b, ok) : atou64_test(a, ok));
		return ok ? r : Raw{ "[\"no\"]" };
	}
	if (n == "value")
	{
		if (k == "i32") return svalue(w ? wtoi(b) : atoi(a));
		if (k == "u32") return uvalue(w ? wtou(b) : atou(a));
		if (k == "i64") return svalue(w ? wtoi64(b) : atoi64(a));
		return uvalue(w ? wtou64(b) : atou64(a));
	}
	bad_input(n);
}

int main(int argc, char** argv)
{
	// argv[1]: c or uni
	if (std::string(argv[1]) == "uni") { if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no C.UTF-8\n"); return 3; } }
	// the C library keeps some memory of its own once these have been used
	{ bool ok; ftow(wtof_test(L"1.5", ok)); ftoa(atof_test("1.5", ok)); }
	return run(argc, argv, [](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		if (t[0] == "reset") o.f("r", Raw{ "[\"ok\"]" }).f("left", Mem::left());
		else
		{
			Raw r;
			try { r = perform(t); }
			catch (const Error& e) { r = Raw{ "[\"err\"]" }; }
			o.f("r", r);
		}
		emit(o);
	});
}

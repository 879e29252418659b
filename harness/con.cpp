// the console (C27): every program runs in a process of its own, with files in place of the terminal
#include "vf.h"
#include "Console.h"
#include <clocale>
#include <iostream>
#include <fcntl.h>
using namespace vf;
using namespace vl;
using namespace vl::console;

static int outfd = -1;
static std::string scratch;
static std::wstring wide(const std::vector<long>& v) { std::wstring s; for (auto x : v) s += (wchar_t)x; return s; }
static WString str(const std::vector<long>& v) { auto w = wide(v); return WString::CopyFrom(w.data(), (vint)w.size()); }
static std::string utf8(const std::vector<long>& v)
{
	std::string r;
	for (auto c : v)
	{
		if (c < 0x80) r += (char)c;
		else if (c < 0x800) { r += (char)(0xC0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += (char)(0xE0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
		else { r += (char)(0xF0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
	}
	return r;
}
static std::vector<long> decode(const std::string& s)
{
	std::vector<long> r;
	for (size_t i = 0; i < s.size();)
	{
		unsigned char c = s[i];
		int n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
		if (!n || i + n > s.size()) { r.push_back(-1 - c); i++; continue; }
		long v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (int k = 1; k < n; k++) v = (v << 6) | (s[i + k] & 63);
		r.push_back(v);
		i += n;
	}
	return r;
}
static std::vector<long> codes(const WString& s) { std::vector<long> r; for (vint i = 0; i < s.Length(); i++) r.push_back((long)s[i]); return r; }
static std::vector<long> written()
{
	std::wcout.flush(); fflush(stdout);
	std::string s; char b[4096]; ssize_t k;
	while ((k = read(outfd, b, sizeof(b))) > 0) s.append(b, k);
	return decode(s);
}
static void doit(const Toks& t)
{
	auto& n = t[0];
	if (n == "write") Console::Write(str(nums(t[1])));
	else if (n == "writeptr") Console::Write(wide(nums(t[1])).c_str());
	else if (n == "writelen") { auto w = wide(nums(t[1])); auto* p = new wchar_t[w.size()]; std::copy(w.begin(), w.end(), p); Console::Write(p, (vint)num(t[2])); delete[] p; }
	else if (n == "line") Console::WriteLine(str(nums(t[1])));
	else if (n == "colour") Console::SetColor(num(t[1]), num(t[2]), num(t[3]), num(t[4]));
	else if (n == "title") Console::SetTitle(str(nums(t[1])));
	else bad_input(n);
}
static void step(const Toks& t)
{
	Raw r = ret("ok");
	if (t[0] == "reset")
	{
		std::string fi = scratch + ".in", fo = scratch + ".out";
		FILE* f = fopen(fi.c_str(), "w");
		auto s = utf8(nums(t[1]));
		fwrite(s.data(), 1, s.size(), f); fclose(f);
		if (!freopen(fi.c_str(), "r", stdin) || !freopen(fo.c_str(), "w", stdout)) bad_input("cannot redirect");
		outfd = open(fo.c_str(), O_RDONLY);
	}
	else if (t[0] == "read") r = arr({ js("text"), js(codes(Console::Read())) });
	else if (t[0] == "all") for (auto& x : items(t[1])) { Toks u; for (auto& y : items(x)) u.push_back(y); doit(u); }
	else doit(t);
	emit(Obj().f("o", echo(t)).f("r", r).f("out", written()));
}
int main(int argc, char** argv)
{
	if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no C.UTF-8\n"); return 3; }
	scratch = std::string(argv[argc - 1]) + ".console";
	int rc = run_forked(argc, argv, step);
	unlink((scratch + ".in").c_str()); unlink((scratch + ".out").c_str());
	return rc;
}

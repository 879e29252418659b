// C20: interprets test programs with the unit test framework's own macros.
#include "vf.h"
#include <wchar.h>
#include <clocale>
#include "UnitTest/UnitTest.h"
using namespace vl;
using namespace vl::unittest;
using namespace vf;

struct N { std::string k; std::vector<N> body; };
static std::vector<N> parse(const std::string& t)
{
	std::vector<N> r;
	for (auto& x : items(t))
	{
		auto p = items(x);
		if (p.empty()) bad_input(t);
		N n{ p[0], {} };
		if (p.size() > 1) n.body = parse(p[1]);
		r.push_back(n);
	}
	return r;
}
using Path = std::vector<int>;
static std::vector<Path> events;
static std::vector<std::vector<N>> bodies;
static std::vector<std::string> names;
static WString tag(const Path& p)
{
	std::wstring s = L"N";
	for (size_t i = 0; i < p.size(); i++) { if (i) s += L'.'; s += std::to_wstring(p[i]); }
	return WString(s.c_str());
}
static Path sub(Path p, int i) { p.push_back(i); return p; }
static bool hit(const Path& p, bool v) { events.push_back(sub(p, 0)); events.push_back(sub(p, 1)); return v; }
struct Odd { int x = 1; };

static void exec(const std::vector<N>& body, const Path& at)
{
	events.push_back(sub(at, 0));
	int i = 0;
	for (auto& n : body)
	{
		Path p = sub(at, ++i);
		events.push_back(p);
		auto& k = n.k;
		if (k == "case") { TEST_CASE(tag(p)) { exec(n.body, p); }); }
		else if (k == "cat") { TEST_CATEGORY(tag(p)) { exec(n.body, p); }); }
		else if (k == "caok") { TEST_CASE_ASSERT(hit(p, true)); }
		else if (k == "cabad") { TEST_CASE_ASSERT(hit(p, false)); }
		else if (k == "ok") { TEST_ASSERT(p.size() > 0); }
		else if (k == "bad") { TEST_ASSERT(p.size() == 0); }
		else if (k == "err") { throw Error(L"boom-e"); }
		else if (k == "exc") { throw Exception(L"boom-x"); }
		else if (k == "err0") { throw Error(L""); }
		else if (k == "exc0") { throw Exception(L""); }
		else if (k == "excd") { throw ArgumentException(L"", L"f", L"n"); }
		else if (k == "unk") { throw Odd(); }
		else if (k == "print") { TEST_PRINT(tag(p)); }
		else if (k == "teok") { TEST_ERROR({ throw Error(L"boom-e"); }); }
		else if (k == "tenone") { TEST_ERROR({ p.size(); }); }
		else if (k == "teexc") { TEST_ERROR({ throw Exception(L"boom-x"); }); }
		else if (k == "tebad") { TEST_ERROR({ TEST_ASSERT(p.size() == 0); }); }
		else if (k == "txok") { TEST_EXCEPTION({ throw Exception(L"boom-x"); }, Exception, [](const Exception&) {}); }
		else if (k == "txnone") { TEST_EXCEPTION({ p.size(); }, Exception, [](const Exception&) {}); }
		else if (k == "txother") { TEST_EXCEPTION({ throw Odd(); }, Exception, [](const Exception&) {}); }
		else if (k == "txbad") { TEST_EXCEPTION({ TEST_ASSERT(p.size() == 0); }, Exception, [](const Exception&) {}); }
		else if (k == "txcb") { TEST_EXCEPTION({ throw Exception(L"boom-x"); }, Exception, [](const Exception& e) { TEST_ASSERT(e.Message() == L""); }); }
		else bad_input(k);
	}
}
template<int I> void proc() { exec(bodies[I], { I + 1 }); }
static UnitTestFileProc procs[] = { proc<0>, proc<1>, proc<2>, proc<3>, proc<4> };

static std::string text(const std::string& list) { std::string s; for (auto& x : items(list)) s += x; return s; }
static std::vector<int> path(const std::string& t)
{
	std::vector<int> r;
	if (t.empty() || t[0] != 'N') return r;
	size_t i = 1;
	while (i < t.size()) { char* e; r.push_back((int)strtol(t.c_str() + i, &e, 10)); i = e - t.c_str(); if (i < t.size() && t[i] != '.') return {}; i++; }
	return r;
}
// the printed report, one entry per line
static std::vector<std::string> report(FILE* f)
{
	std::vector<std::string> r;
	std::string all;
	int c;
	rewind(f);
	while ((c = fgetc(f)) != EOF) if (c && c != '\r') all += (char)c;
	std::string line;
	char color = '7', at = '7';
	bool first = true;
	auto flush = [&]()
	{
		if (line.empty()) return;
		size_t sp = 0;
		while (sp < line.size() && line[sp] == ' ') sp++;
		std::string t = line.substr(sp);
		line.clear();
		std::vector<std::string> e;
		long a, b;
		if (first && at == '7') { first = false; return; }	// which mode it runs in
		first = false;
		if (sscanf(t.c_str(), "Passed test files: %ld/%ld", &a, &b) == 2) e = { js("files"), js(a), js(b) };
		else if (sscanf(t.c_str(), "Passed test cases: %ld/%ld", &a, &b) == 2) e = { js("cases"), js(a), js(b) };
		else if (at == '1') e = { js("err"), js((long)(sp / 4)), js(t == "boom-e" || t == "boom-x" ? t.c_str() : "?") };
		else if (at == '7') e = { js("info"), js((long)(sp / 4)), js(path(t)) };
		else if (at == '2') e = { js("case"), js((long)(sp / 4)), js(path(t)) };
		else if (at == '3') e = { js("cat"), js((long)(sp / 4)), js(path(t)) };
		else if (at == '5')
		{
			long who = 0;
			bool skip = t.size() > 10 && t.substr(t.size() - 10) == " [SKIPPED]";
			if (skip) t = t.substr(0, t.size() - 10);
			for (size_t i = 0; i < names.size(); i++) if (names[i] == t) who = (long)i + 1;
			e = { js(skip ? "skip" : "file"), js(who) };
		}
		else e = { js("line"), js(t) };
		r.push_back(arr(e).t);
	};
	for (size_t i = 0; i < all.size(); i++)
	{
		if (all[i] == '\x1B')
		{
			while (i < all.size() && all[i] != 'm') i++;
			color = all[i - 1];
		}
		else if (all[i] == '\n') flush();
		else { if (line.empty()) at = color; line += all[i]; }
	}
	flush();
	return r;
}

int main(int argc, char** argv)
{
	bool wide = std::string(argv[1]) == "wide";
	return run_forked(argc, argv, [=](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		if (t[0] == "reset") o.f("r", Raw{ "[\"ok\"]" });
		else if (t[0] == "outside")
		{
			const char* r = "nothing";
			int ran = 0;
			try
			{
				if (t[1] == "case") TEST_CASE(L"x") { ran++; });
				else if (t[1] == "cat") TEST_CATEGORY(L"x") { ran++; });
				else if (t[1] == "assert") TEST_ASSERT(++ran > 0);
				else if (t[1] == "caseassert") TEST_CASE_ASSERT(++ran > 0);
				else if (t[1] == "error") TEST_ERROR({ ran++; throw Error(L"e"); });
				else if (t[1] == "print") TEST_PRINT(L"x");
				else bad_input(t[1]);
			}
			catch (const UnitTestConfigError&) { r = "config"; }
			catch (...) { r = "other"; }
			o.f("r", ret(r, ran));
		}
		else if (t[0] == "run")
		{
			std::vector<std::string> args = { "prog" };
			for (auto& x : items(t[1]))
			{
				auto p = items(x);
				if (p[0] == "D" || p[0] == "R") args.push_back("/" + p[0]);
				else if (p[0] == "F") args.push_back("/F:" + text(p[1]));
				else if (p[0] == "X")
				{
					std::string k = p[1];
					args.push_back(k == "empty" ? "" : k == "noname" ? "/F:" : k == "lower" ? "/d" : k == "bare" ? "D" : k == "lowerf" ? "/f:a" : k == "dash" ? "-R" : k == "long" ? "/DR" : "foo");
				}
				else bad_input(x);
			}
			for (auto& x : items(t[2]))
			{
				auto p = items(x);
				names.push_back(text(p[0]));
				bodies.push_back(parse(p[1]));
			}
			if (names.size() > 5) bad_input("too many files");
			std::vector<UnitTestFile*> fs;
			for (size_t i = 0; i < names.size(); i++) fs.push_back(new UnitTestFile(names[i].c_str(), procs[i]));
			FILE* tmp = tmpfile();
			if (!tmp) bad_input("tmpfile");
			fflush(stdout);
			dup2(fileno(tmp), 1);
			std::string code;
			try
			{
				int rc;
				if (wide)
				{
					std::vector<std::wstring> w;
					for (auto& a : args) w.push_back(std::wstring(a.begin(), a.end()));
					std::vector<wchar_t*> v;
					for (auto& a : w) v.push_back(a.data());
					rc = UnitTest::RunAndDisposeTests((int)v.size(), v.data());
				}
				else
				{
					std::vector<char*> v;
					for (auto& a : args) v.push_back(a.data());
					rc = UnitTest::RunAndDisposeTests((int)v.size(), v.data());
				}
				code = rc == 0 ? "pass" : "fail";
			}
			catch (const UnitTestAssertError&) { code = "assert"; }
			catch (const UnitTestConfigError&) { code = "config"; }
			catch (const Error&) { code = "error"; }
			catch (const Exception&) { code = "exception"; }
			catch (...) { code = "unknown"; }
			fflush(stdout);
			auto lines = report(tmp);
			if (code == "fail" && (lines.size() < 2 || lines.back().find("\"cases\"") == std::string::npos)) code = "usage";
			o.f("r", Raw{ "[\"ran\"]" }).f("code", code).f("log", events).f("out", arr(lines));
		}
		else bad_input(t[0]);
		emit(o);
	});
}

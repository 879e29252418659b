// Shared parts of the conformance harnesses: reads a program (one operation per
// line), runs it through Vlpp's public API and writes one JSON line per operation.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <exception>
#include <unistd.h>
#include <sys/wait.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

namespace vf
{
	using Toks = std::vector<std::string>;

	[[noreturn]] inline void bad_input(const std::string& m)
	{
		fprintf(stderr, "BAD INPUT: %s\n", m.c_str());
		exit(3);
	}

	inline long num(const std::string& s)
	{
		char* e = nullptr;
		long v = strtol(s.c_str(), &e, 10);
		if (e == s.c_str() || *e) bad_input("number expected: " + s);
		return v;
	}

	// positions and counts: the specification's integers are small, so that values from
	// 1000000000 to 1050000000 stand for the largest ones of the machine (and likewise below zero)
	inline long ext(const std::string& s)
	{
		long v = num(s);
		if (v >= 1000000000) return 9223372036854775807L - (1050000000 - v);
		if (v <= -1000000000) return -9223372036854775807L - 1 + (1050000000 + v);
		return v;
	}

	inline bool isnum(const std::string& s)
	{
		if (s.empty()) return false;
		size_t i = s[0] == '-' ? 1 : 0;
		if (i == s.size()) return false;
		for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false;
		return true;
	}

	// "[1,2,[3,4]]" -> top-level items as text
	inline std::vector<std::string> items(const std::string& s)
	{
		if (s.size() < 2 || s[0] != '[' || s.back() != ']') bad_input("list expected: " + s);
		std::vector<std::string> r;
		std::string cur;
		int depth = 0;
		for (size_t i = 1; i + 1 < s.size(); i++)
		{
			char c = s[i];
			if (c == '[') depth++;
			if (c == ']') depth--;
			if (c == ',' && depth == 0) { r.push_back(cur); cur.clear(); }
			else cur += c;
		}
		if (!cur.empty()) r.push_back(cur);
		return r;
	}

	inline std::vector<long> nums(const std::string& s)
	{
		std::vector<long> r;
		for (auto& x : items(s)) r.push_back(num(x));
		return r;
	}

	// JSON builder -----------------------------------------------------------
	inline std::string js(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}
	inline std::string js(const char* s) { return js(std::string(s)); }
	inline std::string js(bool b) { return b ? "true" : "false"; }
	inline std::string js(long v) { return std::to_string(v); }
	inline std::string js(int v) { return std::to_string(v); }
	inline std::string js(long long v) { return std::to_string(v); }
	inline std::string js(unsigned v) { return std::to_string(v); }
	inline std::string js(unsigned long v) { return std::to_string(v); }
	struct Raw { std::string t; };
	inline std::string js(const Raw& r) { return r.t; }
	template<typename A, typename B> std::string js(const std::pair<A, B>& p);
	template<typename T> std::string js(const std::vector<T>& v)
	{
		std::string r = "[";
		bool f = true;
		for (const auto& x : v) { if (!f) r += ","; f = false; r += js((T)x); }
		return r + "]";
	}
	template<typename A, typename B> std::string js(const std::pair<A, B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }

	struct Obj
	{
		std::string t;
		template<typename T> Obj& f(const char* k, const T& v)
		{
			if (!t.empty()) t += ",";
			t += js(k); t += ":"; t += js(v);
			return *this;
		}
		std::string str() const { return "{" + t + "}"; }
		Raw raw() const { return Raw{ str() }; }
	};

	inline Raw arr(const std::vector<std::string>& v)
	{
		std::string r = "[";
		for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i]; }
		return Raw{ r + "]" };
	}

	inline std::string tokjs(const std::string& t)
	{
		if (isnum(t)) return t;
		if (!t.empty() && t[0] == '[')
		{
			std::vector<std::string> v;
			for (auto& x : items(t)) v.push_back(tokjs(x));
			return arr(v).t;
		}
		return js(t);
	}

	inline Raw echo(const Toks& t)
	{
		std::vector<std::string> v;
		for (auto& x : t) v.push_back(tokjs(x));
		return arr(v);
	}

	inline Raw ret(const char* kind, long v = 0) { return Raw{ "[" + js(kind) + "," + js(v) + "]" }; }

	// run ----------------------------------------------------------------------
	inline FILE* out = nullptr;
	inline void emit(const Obj& o) { auto s = o.str(); s += "\n"; fwrite(s.data(), 1, s.size(), out); fflush(out); }

	inline int run(int argc, char** argv, const std::function<void(const Toks&)>& step)
	{
		if (argc < 3) bad_input("usage: harness [args] ops out");
		FILE* in = fopen(argv[argc - 2], "r");
		out = fopen(argv[argc - 1], "w");
		if (!in || !out) bad_input("cannot open files");
		// anything that allocates once and stays is done before the first measurement
		static char ibuf[1 << 16], obuf[1 << 16];
		setvbuf(in, ibuf, _IOFBF, sizeof(ibuf));
		setvbuf(out, obuf, _IOFBF, sizeof(obuf));
		try { throw std::string(100, 'x'); } catch (const std::string&) {}
		std::string line;
		line.reserve(1 << 20);
		int c;
		auto doit = [&]()
		{
			Toks t;
			std::string cur;
			for (char ch : line)
			{
				if (ch == ' ') { if (!cur.empty()) t.push_back(cur); cur.clear(); }
				else cur += ch;
			}
			if (!cur.empty()) t.push_back(cur);
			line.clear();
			if (!t.empty()) step(t);
		};
		while ((c = fgetc(in)) != EOF)
		{
			if (c == '\n') doit(); else line += (char)c;
		}
		doit();
		fclose(in);
		fclose(out);
		return 0;
	}

	// like run, but every program (from one reset line to the next) runs in a process of its own
	inline int run_forked(int argc, char** argv, const std::function<void(const Toks&)>& step)
	{
		if (argc < 3) bad_input("usage: harness [args] ops out");
		FILE* in = fopen(argv[argc - 2], "r");
		out = fopen(argv[argc - 1], "w");
		if (!in || !out) bad_input("cannot open files");
		std::vector<std::vector<Toks>> progs;
		std::string line;
		int c;
		auto add = [&]()
		{
			Toks t;
			std::string cur;
			for (char ch : line)
			{
				if (ch == ' ') { if (!cur.empty()) t.push_back(cur); cur.clear(); }
				else cur += ch;
			}
			if (!cur.empty()) t.push_back(cur);
			line.clear();
			if (t.empty()) return;
			if (t[0] == "reset") progs.push_back({});
			progs.back().push_back(t);
		};
		while ((c = fgetc(in)) != EOF) if (c == '\n') add(); else line += (char)c;
		fclose(in);
		for (auto& p : progs)
		{
			fflush(out);
			pid_t pid = fork();
			if (pid == 0)
			{
				for (auto& t : p) step(t);
				fflush(out);
				_exit(0);
			}
			int status = 0;
			waitpid(pid, &status, 0);
			if (!WIFEXITED(status) || WEXITSTATUS(status)) { fprintf(stderr, "program ended with status %d\n", status); return WIFEXITED(status) ? WEXITSTATUS(status) : 98; }
		}
		fclose(out);
		return 0;
	}

	// bytes the program under test left allocated, relative to the first reset
	struct Mem
	{
		static inline long base = -1;
		static long left()
		{
			long now = (long)__sanitizer_get_current_allocated_bytes();
			if (base < 0) base = now;
			return now - base;
		}
	};

	// An element type that watches its own lifetime -----------------------------
	struct Life
	{
		static inline long live = 0, bad = 0, made = 0;
		static inline std::set<const void*> objs;
		static void reset() { live = 0; bad = 0; made = 0; objs.clear(); }
		static void born(const void* p) { made++; live++; if (!objs.insert(p).second) bad++; }
		static void died(const void* p) { live--; if (!objs.erase(p)) bad++; }
		static void used(const void* p) { if (!objs.count(p)) bad++; }
	};
}

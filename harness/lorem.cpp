// filler text (C26); every program runs in a process of its own, as the text goes on from call to call
#include "vf.h"
#include "Strings/LoremIpsum.h"
using namespace vf;
using namespace vl;

// the library's random choices, made reproducible: a stream per operation
static uint64_t stream = 1;
extern "C" void srand(unsigned) noexcept {}
extern "C" int rand() noexcept { stream = stream * 6364136223846793005ull + 1442695040888963407ull; return (int)(stream >> 33); }

static std::vector<long> codes(const WString& s)
{
	std::vector<long> r;
	for (vint i = 0; i < s.Length(); i++) r.push_back((long)s[i]);
	return r;
}
static LoremIpsumCasing style(const std::string& s)
{
	if (s == "lower") return LoremIpsumCasing::AllWordsLowerCase;
	if (s == "first") return LoremIpsumCasing::FirstWordUpperCase;
	if (s == "upper") return LoremIpsumCasing::AllWordsUpperCase;
	bad_input("style");
}
static void step(const Toks& t)
{
	auto& n = t[0];
	Obj o;
	if (n == "paragraph")
	{
		// the text is chosen by the library: it becomes part of the operation that the specification judges
		stream = (uint64_t)num(t[2]) * 2654435761u + 12345;
		auto c = codes(LoremIpsumParagraph(num(t[1])));
		o.f("o", arr({ js(n), js(num(t[1])), js(c) })).f("r", ret("para"));
	}
	else
	{
		o.f("o", echo(t));
		if (n == "reset") o.f("r", ret("ok"));
		else
		{
			WString s = n == "text" ? LoremIpsum(num(t[2]), style(t[1])) : n == "title" ? LoremIpsumTitle(num(t[1])) : LoremIpsumSentence(num(t[1]));
			o.f("r", arr({ js("text"), js(codes(s)) }));
		}
	}
	emit(o);
}
int main(int argc, char** argv) { return run_forked(argc, argv, step); }

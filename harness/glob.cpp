// global storages (C19); every program runs in its own process
#include "vf.h"
#include "GlobalStorage.h"
using namespace vf;
using namespace vl;

static std::vector<std::string> logged;
static std::map<std::string, std::vector<std::string>> deps;
static void access(const std::string& n);
static std::map<std::string, long> gens;
static void onInit(const char* n)
{
	logged.push_back(std::string("[\"i\",\"") + n + "\"]");
	for (auto& d : deps[n]) access(d);
}
static int exitfd = -1;
static std::map<std::string, std::vector<std::string>> drops;
static void onFin(const char* n);

#define STORE(NAME, TXT)\
BEGIN_GLOBAL_STORAGE_CLASS(NAME)\
	Ptr<long> data;\
INITIALIZE_GLOBAL_STORAGE_CLASS\
	data = Ptr(new long(++gens[TXT]));\
	onInit(TXT);\
FINALIZE_GLOBAL_STORAGE_CLASS\
	data = nullptr;\
	onFin(TXT);\
END_GLOBAL_STORAGE_CLASS(NAME)

STORE(StoreA, "a")
STORE(StoreB, "b")
STORE(StoreC, "c")
STORE(StoreD, "d")

struct Known { GlobalStorage* g = nullptr; Ptr<long>* data = nullptr; };
static std::map<std::string, Known> known;

template<typename T> static void note(const std::string& n, T& s)
{
	auto& k = known[n];
	if (k.g && (k.g != &s || k.data != &s.data)) logged.push_back("[\"moved\",\"" + n + "\"]");
	k.g = &s; k.data = &s.data;
}
static void access(const std::string& n)
{
	if (n == "a") note(n, GetStoreA());
	if (n == "b") note(n, GetStoreB());
	if (n == "c") note(n, GetStoreC());
	if (n == "d") note(n, GetStoreD());
}

static void onFin(const char* n)
{
	logged.push_back(std::string("[\"f\",\"") + n + "\"]");
	if (exitfd >= 0 && write(exitfd, n, 1) != 1) abort();
	auto& d = drops[n];
	if (d.size() == 4) FinalizeGlobalStorage();
	else for (auto& x : d) if (known.count(x)) known[x].g->EnsureFinalized();
}
// a copy of the process ends here: what do its destructors do?
static void ending()
{
	int p[2];
	if (pipe(p)) bad_input("pipe");
	pid_t pid = fork();
	if (pid == 0) { close(p[0]); exitfd = p[1]; exit(0); }
	close(p[1]);
	char c;
	while (read(p[0], &c, 1) == 1) logged.push_back(std::string("[\"f\",\"") + c + "\"]");
	close(p[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	if (!WIFEXITED(status)) logged.push_back("[\"crash\",\"\"]");
}

int main(int argc, char** argv)
{
	return run_forked(argc, argv, [&](const Toks& t)
	{
		logged.clear();
		auto& n = t[0];
		Raw r = ret("ok");
		if (n == "access") { access(t[1]); auto& d = *known[t[1]].data; r = ret("v", d ? *d.Obj() : -1); }
		// the object comes into being with its first access; before that there is nothing to ensure or finalise
		if (n == "ensure") { if (known.count(t[1])) known[t[1]].g->EnsureInitialized(); else access(t[1]); }
		if (n == "isinit") r = ret("b", known.count(t[1]) ? known[t[1]].g->IsInitialized() : 0);
		if (n == "finalize") { if (known.count(t[1])) known[t[1]].g->EnsureFinalized(); }
		if (n == "dep") { deps[t[1]].clear(); for (auto& x : items(t[2])) deps[t[1]].push_back(x); }
		if (n == "drop") { drops[t[1]].clear(); for (auto& x : items(t[2])) drops[t[1]].push_back(x); }
		if (n == "exit") ending();
		if (n == "finalizeall") FinalizeGlobalStorage();
		Obj i, g;
		for (const char* c : { "a", "b", "c", "d" })
		{
			long in = known.count(c) ? known[c].g->IsInitialized() : 0;
			i.f(c, in);
			g.f(c, in && *known[c].data ? *known[c].data->Obj() : -1L);
		}
		emit(Obj().f("o", echo(t)).f("r", r).f("log", arr(logged)).f("init", i.raw()).f("gen", g.raw()));
	});
}

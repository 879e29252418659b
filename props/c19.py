"""C19: global storages initialise on demand once and finalise exactly once."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT OncePerStep
CONSTANTS Stores = {"a", "b", "c", "d"} MaxGen = 1 Deps <- NoDep Drops <- NoDep
"""
ACT = ["LogIsChange", "AccessInitialises", "AllGone", "ExitFinalisesAll"]
S = "abcd"

def corrupt(e):
    if e["log"]:
        e["log"] = e["log"] + [e["log"][0]]
        return e

def history(rng, n):
    ops = []
    for _ in range(n):
        r, s = rng.random(), rng.choice(S)
        if r < 0.4: ops.append([rng.choice(["access", "access", "ensure"]), s])
        elif r < 0.55: ops.append(["finalizeall"])
        elif r < 0.7: ops.append(["finalize", s])
        elif r < 0.85: ops.append(["isinit", s])
        elif r < 0.88: ops.append(["exit"])
        elif r < 0.92: ops.append(["drop", s, rng.sample(S, rng.choice([0, 1, 1, 2, 4]))])
        else: ops.append(["dep", s, rng.sample(S, rng.choice([0, 1, 1, 2, 3]))])
    return ops

def run(ck):
    exe = ck.bg(ck.build, [dict(out="glob", src="glob.cpp")])
    deep = ck.bg(ck.model_check, "Glob", 'Stores = {"a", "b", "c"} MaxGen = %d Deps <- NoDep Drops <- OneDep' % (2 if ck.quick else 3), ["OncePerStep"], ACT, label="Glob three storages")
    e = ck.model_check("Glob", 'Stores = {"a", "b"%s} MaxGen = 2 Deps <- OneDep Drops <- %s' % ("" if ck.quick else ', "c"', "OneDep" if ck.quick else "NoDep"), ["OncePerStep"], ACT, emit=True)
    names = "ab" if ck.quick else "abc"
    w, k = ck.walks(e, {"init": {x: 0 for x in names}, "gen": {x: 0 for x in names}, "dep": {x: [] for x in names}, "drop": {x: [] for x in names}, "log": []}, 60)
    ck.extra["graph_edges_replayed"] = k
    if len(w) > 6000: w = ck.rng.sample(w, 6000)
    segs = [Seg(["reset"], x, "state graph walk") for x in w]
    # every order of first access of four storages (the order they register in), then finalise
    import itertools
    for p in itertools.permutations(S):
        for k in (1, 2, 3, 4):
            segs.append(Seg(["reset"], [["access", x] for x in p[:k]] + [["exit"], ["finalizeall"], ["exit"], ["finalizeall"]] + [["access", x] for x in p[::-1]] + [["finalize", p[1]], ["finalizeall"]] + [["isinit", x] for x in S], "registration orders"))
    # finalisers that finalise others, each other, themselves and everything
    for k in range(24 if ck.quick else 300):
        ops = [["access", x] for x in ck.rng.sample(S, ck.rng.choice([2, 3, 4]))]
        ops += [["drop", x, ck.rng.choice([[x], [y for y in S if y != x][:2], list(S), ck.rng.sample(S, 1), []])] for x in S]
        segs.append(Seg(["reset"], ops + [["exit"], ck.rng.choice([["finalizeall"], ["finalize", ck.rng.choice(S)]])] + [["isinit", x] for x in S] + [["access", ck.rng.choice(S)], ["exit"], ["finalizeall"]], "finalisers that finalise"))
    segs += [Seg(["reset"], history(ck.rng, 50), "random history") for _ in range(150 if ck.quick else 2000)]
    [exe] = exe.result()
    ck.conform("glob", exe, [], segs, "TraceGlob", CFG, corrupt=corrupt)
    deep.result()

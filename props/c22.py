"""C22: collections notify their single observer of disposal exactly once."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT ToldOnce
INVARIANT NotBefore
CONSTANTS Slots = {"a", "b", "c"} MaxObs = 1
"""
INV, ACT = ["ToldOnce", "NotBefore", "OneObserverEach"], ["FirstKept", "ToldOnDisposal"]
KINDS = ["array", "list", "sortedlist", "dictionary", "group", "lazylist", "iteratorrange", "dictkeys", "dictvalues"]
S = ["a", "b", "c"]
R = ["reset", S]

def corrupt(e):
    if e["told"]:
        e["told"][-1] += 1
        return e

def history(rng, n):
    ops = []
    for _ in range(n):
        r, c = rng.random(), rng.choice(S)
        d = rng.choice([x for x in S if x != c])
        if r < 0.2: ops.append(["create", c])
        elif r < 0.3: ops.append(["delete", c])
        elif r < 0.5: ops.append(["attach", c])
        elif r < 0.75: ops.append([rng.choice(["ref", "tryref", "touch", "loop", "again", "none", "wrongref", "who", "selfmove"]), c])
        else: ops.append([rng.choice(["move", "copy", "movector", "copyctor"]), c, d])
    return ops + [["delete", x] for x in S]

def run(ck):
    exes = ck.bg(ck.build, [dict(out="obs-%d" % (i + 1), src="obs.cpp", defines=["KIND=%d" % (i + 1)]) for i in range(9)])
    deep = ck.bg(ck.model_check, "Obs", 'Slots = {"a", "b", "c"} MaxObs = %d' % (3 if ck.quick else 5), INV, ACT, label="Obs deeper")
    e = ck.model_check("Obs", 'Slots = {"a", "b"} MaxObs = %d' % (2 if ck.quick else 3), INV, ACT, emit=True)
    w, k = ck.walks(e, {"obs": {"a": -1, "b": -1}, "told": []}, 60)
    ck.extra["graph_edges_replayed"] = k
    runs = []
    for exe, kd in zip(exes.result(), KINDS):
        segs = [Seg(R, x + [["delete", s] for s in S], "state graph walk") for x in w]
        segs += [Seg(R, history(ck.rng, 60), "random history") for _ in range(25 if ck.quick else 1000)]
        runs.append(("obs-" + kd, exe, [], segs))
    ck.conform_multi("obs", runs, "TraceObs", CFG, corrupt=corrupt)
    deep.result()

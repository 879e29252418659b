"""C17: optional values hold exactly the last value assigned, or nothing."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT AtMostOne
CONSTANTS Slots = {"p", "q", "r"} Vals = {1} Tracked = %s
"""
INV = ["AtMostOne", "TotalOrder"]
ACT = ["ErrorChangesNothing", "LastAssigned", "MovedFromIsEmpty", "Locality"]
ELEMS = [("int", 0), ("vf::Tracked", 1), ("vf::CopyOnly", 1), ("vf::MoveOnly", 1), ("vf::Frozen", 1), ("vl::WString", 0), ("vf::Mixed", 0), ("vf::Mixed2", 0)]
S = ["p", "q", "r"]
R = ["reset", S]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in S:
        if e["s"][k]:
            e["s"][k] = []
            return e

def history(rng, n):
    ops = []
    for _ in range(n):
        k = rng.choice(["new", "newm", "set", "setm", "newempty", "clear", "setempty", "value", "bool", "copy", "move", "setfrom", "cmp", "eq", "copyctor", "movector", "swap", "cmp"])
        c, d = rng.choice(S), rng.choice(S)
        if k in ("new", "newm", "set", "setm"): ops.append([k, c, rng.randint(1, 4)])
        elif k in ("newempty", "clear", "setempty", "value", "bool"): ops.append([k, c])
        else:
            if k in ("copyctor", "movector", "swap") and c == d: continue
            ops.append([k, c, d])
    return ops

def run(ck):
    exes = ck.bg(ck.build, [dict(out="opt-%d" % i, src="opt.cpp", defines=["ELEM=" + e]) for i, (e, _) in enumerate(ELEMS)])
    e = ck.model_check("Opt", 'Slots = {"p", "q", "r"} Vals = {1, 2%s} Tracked = TRUE' % ("" if ck.quick else ", 3"), INV, ACT, emit=True)
    w, k = ck.walks(e, {s: [] for s in S}, 80)
    ck.extra["graph_edges_replayed"] = k
    g = [Seg(R, x, "state graph walk") for x in w]
    no = {"new", "set", "copyctor", "copy", "setempty", "setfrom"}
    runs = {0: [], 1: []}
    for exe, (el, tr) in zip(exes.result(), ELEMS):
        segs = g + [Seg(R, history(ck.rng, 50), "random history") for _ in range(30 if ck.quick else 1000)]
        if el == "vf::MoveOnly":
            segs = [Seg(s.reset, [o for o in s.ops if o[0] not in no], s.src) for s in segs]
        segs = [Seg(s.reset, s.ops + [R], s.src) for s in segs]
        runs[tr].append(("opt-" + el.split("::")[-1].lower(), exe, [], segs))
    ck.conform_multi("plain", runs[0], "TraceOpt", CFG % "FALSE", corrupt=corrupt)
    ck.conform_multi("tracked", runs[1], "TraceOpt", CFG % "TRUE", corrupt=corrupt)

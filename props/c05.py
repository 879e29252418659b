"""C05: sorted lists stay sorted and agree with a multiset."""
from vf.core import Seg
from vf import keygen

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT AlwaysSorted
CONSTANTS Lists = {"a", "b"} Vals = {1} MaxLen = 1 KeyDiv = %d CheckLife = %s
"""
INV = ["AlwaysSorted"]
ACT = ["MultisetStep", "ErrorChangesNothing", "PositionIsTrue"]
ELEMS = [("int", 1), ("vf::Tracked", 1), ("vl::WString", 1), ("vl::Ptr<vf::Cell>", 1), ("vf::Pod", 1), ("vf::Tup", 1), ("vl::ComPtr<vf::ComCell>", 1), ("vf::Weak", 10)]
RESET = ["reset", ["a", "b"]]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in sorted(e["s"]):
        if e["s"][k]:
            e["s"][k][-1] += 20
            return e

def programs(ck, kd, nrand, maxn):
    segs = []
    for n in list(range(0, 20)) + list(range(20, maxn, 3)) + [64, 100]:
        segs.append(Seg(RESET, keygen.sorted_boundary(ck.rng, n), "search boundaries at length %d" % n))
    for _ in range(nrand):
        segs.append(Seg(RESET, keygen.sorted_random(ck.rng, ck.rng.choice([3, 8, 40, 120])), "random history"))
    return segs

def edges(ck):
    ml = 2 if ck.quick else 3
    out = {}
    for kd, vals, m in ((1, "{1, 2, 3}", ml), (10, "{1, 2, 11, 12}", 2)):
        out[kd] = ck.model_check("Sorted", 'Lists = {"a", "b"} Vals = %s MaxLen = %d KeyDiv = %d CheckLife = FALSE' % (vals, m, kd), INV, ACT, emit=True, label="Sorted KeyDiv=%d" % kd)
    return out

def graph(ck, es):
    out = {}
    for kd, e in es.items():
        w, k = ck.walks(e, {"a": [], "b": []}, 80)
        ck.extra.setdefault("graph_edges_replayed", {})["Sorted KeyDiv=%d" % kd] = k
        out[kd] = [Seg(RESET, x, "state graph walk") for x in w]
    return out

def deeper(ck):
    ck.model_check("Sorted", 'Lists = {"a"} Vals = {1, 2, 3} MaxLen = %d KeyDiv = 1 CheckLife = FALSE' % (6 if ck.quick else 9), INV, ACT, label="Sorted one list, long")

def run(ck):
    es, deep = ck.bg(edges, ck), ck.bg(deeper, ck)
    exes = ck.build([dict(out="sorted-%d" % i, src="keyed.cpp", defines=["MODE=1", "VF_KT=" + e]) for i, (e, _) in enumerate(ELEMS)])
    g = graph(ck, es.result())
    deep.result()
    runs = {1: [], 10: []}
    for exe, (e, kd) in zip(exes, ELEMS):
        nm = e.split("::")[-1].strip(">").lower()
        runs[kd].append(("sorted-" + nm, exe, [], g[kd] + programs(ck, kd, 40 if ck.quick else 600, 40 if ck.quick else 90)))
    ck.conform_multi("sorted", runs[1], "TraceSorted", CFG % (1, "FALSE"), corrupt=corrupt)
    ck.conform_multi("sortedweak", runs[10], "TraceSorted", CFG % (10, "FALSE"), corrupt=corrupt)

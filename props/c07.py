"""C07: groups behave as ordered multimaps without empty keys; joins split keys completely."""
from vf.core import Seg
from vf import keygen

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT Ascending
INVARIANT NoEmptyKey
CONSTANTS Groups = {"a", "b"} Keys = {1} Vals = {1} MaxVals = 1 CheckLife = %s
"""
INV = ["Ascending", "NoEmptyKey", "JoinComplete"]
ACT = ["OnlyThatKey", "AddAppends", "RemoveReports", "ErrorChangesNothing"]
TYPES = [("int", "int"), ("vf::Tracked", "vf::Tracked"), ("vl::WString", "vf::Pod"), ("vl::Ptr<vf::Cell>", "vl::WString"), ("vf::Tracked", "vl::Ptr<vf::Cell>"), ("int", "vf::CopyOnly")]
RESET = ["reset", ["a", "b"]]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in sorted(e["s"]):
        if e["s"][k]:
            e["s"][k][-1][1][0] += 1
            return e

def edges(ck):
    return (ck.model_check("Grp", 'Groups = {"a", "b"} Keys = {1, 2} Vals = {1%s} MaxVals = 2 CheckLife = FALSE' % ("" if ck.quick else ", 2"), INV, ACT, emit=True),
            ck.model_check("Grp", 'Groups = {"a"} Keys = {1, 2} Vals = {1, 2} MaxVals = 2 CheckLife = FALSE', INV, ACT, emit=True, label="Grp one, two values"))

def graph(ck, es):
    w, k = ck.walks(es[0], {"a": [], "b": []}, 80)
    w2, k2 = ck.walks(es[1], {"a": []}, 80)
    ck.extra.setdefault("graph_edges_replayed", {})["Grp"] = k + k2
    return [Seg(RESET, x, "state graph walk") for x in w + w2]

def deeper(ck):
    ck.model_check("Grp", 'Groups = {"a"} Keys = {1, 2, 3} Vals = {1, 2} MaxVals = %d CheckLife = FALSE' % (2 if ck.quick else 3), INV, ACT, label="Grp one, three keys")

def run(ck):
    es, deep = ck.bg(edges, ck), ck.bg(deeper, ck)
    exes = ck.build([dict(out="grp-%d" % i, src="keyed.cpp", defines=["MODE=3", "VF_KT=" + k, "VF_VT=" + v]) for i, (k, v) in enumerate(TYPES)])
    g = graph(ck, es.result())
    deep.result()
    runs = []
    for i, (exe, (k, v)) in enumerate(zip(exes, TYPES)):
        n = 60 if ck.quick else 800
        gg = g if i < 2 or not ck.quick else g[::3]
        runs.append(("grp-%d" % i, exe, [], gg + [Seg(RESET, keygen.group_random(ck.rng, ck.rng.choice([3, 6, 30]), ck.rng.choice([2, 5])), "random history") for _ in range(n)]
                    + [Seg(RESET, keygen.group_big(ck.rng, b), "many keys and values") for b in ((20, 40) if ck.quick else (16, 17, 32, 33, 64, 65, 100))]))
    ck.conform_multi("group", runs, "TraceGrp", CFG % "FALSE", corrupt=corrupt)

"""C06: dictionaries behave as finite maps with ordered keys."""
from vf.core import Seg
from vf import keygen

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT Ascending
CONSTANTS Dicts = {"a", "b"} Keys = {1} Vals = {1} CheckLife = %s
"""
INV = ["Ascending"]
ACT = ["OnlyThatKey", "RemoveThatKey", "AddNeverReplaces", "ErrorChangesNothing"]
TYPES = [("int", "int"), ("vf::Tracked", "vf::Tracked"), ("vl::WString", "vf::Pod"), ("vl::Ptr<vf::Cell>", "vl::WString"), ("vf::Tracked", "vl::Ptr<vf::Cell>"), ("int", "vf::CopyOnly"), ("vf::Tup", "vf::Tup"), ("vl::ComPtr<vf::ComCell>", "int")]
RESET = ["reset", ["a", "b"]]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in sorted(e["s"]):
        if e["s"][k]:
            e["s"][k][-1][1] += 1
            return e

def edges(ck):
    nk = 2 if ck.quick else 3
    return ck.model_check("Dict", 'Dicts = {"a", "b"} Keys = {%s} Vals = {1, 2} CheckLife = FALSE' % ", ".join(str(i + 1) for i in range(nk)), INV, ACT, emit=True)

def graph(ck, e):
    w, k = ck.walks(e, {"a": [], "b": []}, 80)
    ck.extra.setdefault("graph_edges_replayed", {})["Dict"] = k
    return [Seg(RESET, x, "state graph walk") for x in w]

def deeper(ck):
    ck.model_check("Dict", 'Dicts = {"a"} Keys = {1, 2, 3, 4%s} Vals = {1, 2, 3} CheckLife = FALSE' % ("" if ck.quick else ", 5, 6"), INV, ACT, label="Dict one, more keys")

def run(ck):
    es, deep = ck.bg(edges, ck), ck.bg(deeper, ck)
    exes = ck.build([dict(out="dict-%d" % i, src="keyed.cpp", defines=["MODE=2", "VF_KT=" + k, "VF_VT=" + v]) for i, (k, v) in enumerate(TYPES)])
    g = graph(ck, es.result())
    deep.result()
    runs = []
    for i, (exe, (k, v)) in enumerate(zip(exes, TYPES)):
        n = 60 if ck.quick else 800
        runs.append(("dict-%d" % i, exe, [], g + [Seg(RESET, keygen.dict_random(ck.rng, ck.rng.choice([4, 12, 60])), "random history") for _ in range(n)]
                    + [Seg(RESET, keygen.dict_big(ck.rng, b), "many keys") for b in ((33, 70) if ck.quick else (16, 17, 32, 33, 64, 65, 100, 130))]))
    ck.conform_multi("dict", runs, "TraceDict", CFG % "FALSE", corrupt=corrupt)

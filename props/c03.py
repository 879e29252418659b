"""C03: lists and arrays behave as mathematical sequences."""
from vf.core import Seg
from vf import seqgen

ELEMS = ["int", "vf::Tracked", "vf::CopyOnly", "vf::Pod", "vf::Mixed", "vf::Mixed2", "vl::WString", "vl::Ptr<vf::Cell>", "vf::MoveOnly"]
TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Lists = %s Arrays = %s Vals = {1} MaxLen = 1 Default = 0 CheckLife = FALSE
"""
PROPS = ["ErrorChangesNothing", "Locality", "SizeDelta", "FoundIsFirst"]

def corrupt(e):
    if e["o"][0] == "reset":
        return None
    for k in sorted(e["s"]):
        if e["s"][k]:
            e["s"][k][0] += 1
            return e
    return None

def run(ck):
    exes = ck.bg(ck.build, [dict(out="seq-%d" % i, src="seq.cpp", defines=["ELEM=" + e]) for i, e in enumerate(ELEMS)])
    ml = 2 if ck.quick else 3
    el = ck.bg(ck.model_check, "Seq", 'Lists = {"a", "b"} Arrays = {} Vals = {1, 2} MaxLen = %d Default = 0 CheckLife = FALSE' % ml,
                        ["TypeOK", "InsertThenRemoveIsIdentity"], PROPS, emit=True, label="Seq lists")
    ea = ck.bg(ck.model_check, "Seq", 'Lists = {} Arrays = {"x", "y"} Vals = {1, 2} MaxLen = %d Default = 0 CheckLife = FALSE' % ml,
                        ["TypeOK"], PROPS, emit=True, label="Seq arrays")
    deep = ck.bg(ck.model_check, "Seq", 'Lists = {"a", "b"} Arrays = {} Vals = {1, 2} MaxLen = %d Default = 0 CheckLife = FALSE' % (ml + 1),
                   ["TypeOK", "InsertThenRemoveIsIdentity"], PROPS, label="Seq lists deeper")
    wl, nl = ck.walks(el.result(), {"a": [], "b": []}, 80)
    wa, na = ck.walks(ea.result(), {"x": [], "y": []}, 80)
    ck.extra["graph_edges_replayed"] = {"lists": nl, "arrays": na, "element_types": len(ELEMS)}
    exes = exes.result()
    deep.result()
    rl, ra = [], []
    for i, (exe, e) in enumerate(zip(exes, ELEMS)):
        ok = seqgen.allowed(e)
        nm = e.split("::")[-1].strip(">").lower()
        sl = [Seg(["reset", ["a", "b"], []], [o for o in w if ok(o)], "state graph walk") for w in wl]
        sa = [Seg(["reset", [], ["x", "y"]], [o for o in w if ok(o)], "state graph walk") for w in wa]
        if ck.quick and i not in (0, 1, 6):
            sa = sa[::6]
        n = 40 if ck.quick else 400
        sl += [Seg(["reset", ["a", "b"], []], [o for o in seqgen.random_list(ck.rng, ["a", "b"]) if ok(o)], "random history") for _ in range(n)]
        sl += [Seg(["reset", ["a", "b"], []], [o for o in seqgen.random_list(ck.rng, ["a", "b"], big * 2, big) if ok(o)], "random history, long list") for big in ((70, 130) if ck.quick else (70, 100, 130, 200, 300, 500))]
        sa += [Seg(["reset", [], ["x", "y"]], [o for o in seqgen.random_array(ck.rng, ["x", "y"]) if ok(o)], "random history") for _ in range(n // 2)]
        rl.append(("list-" + nm, exe, [], sl))
        ra.append(("array-" + nm, exe, [], sa))
    ck.conform_multi("list", rl, "TraceSeq", TRACE_CFG % ('{"a", "b"}', '{}'), corrupt=corrupt)
    ck.conform_multi("array", ra, "TraceSeq", TRACE_CFG % ('{}', '{"x", "y"}'), corrupt=corrupt)

"""C04: containers construct and destroy every element exactly once (element types that watch their own lifetime)."""
from vf.core import Seg
from vf import seqgen, keygen
from props import c05, c06, c07

SEQ = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Lists = %s Arrays = %s Vals = {1} MaxLen = 1 Default = 0 CheckLife = TRUE
"""
SEQEL = ["vf::Tracked", "vf::CopyOnly", "vf::MoveOnly"]
KEYED = [("1", "vf::Tracked", ""), ("1", "vf::CopyOnly", ""), ("2", "vf::Tracked", "vf::Tracked"), ("2", "vf::CopyOnly", "vf::CopyOnly"),
         ("3", "vf::Tracked", "vf::Tracked"), ("3", "vf::CopyOnly", "vf::CopyOnly")]

def corrupt(e):
    if e["live"] > 0:
        e["live"] += 1
        return e

def closing(runs):
    """end every program with a reset: it tears everything down and reports what is left"""
    for _, _, _, segs in runs:
        segs[:] = [Seg(s.reset, s.ops + [s.reset], s.src) for s in segs]
    return runs

def run(ck):
    exes = ck.bg(ck.build, [dict(out="seq-%d" % i, src="seq.cpp", defines=["ELEM=" + e]) for i, e in enumerate(SEQEL)] +
                    [dict(out="key-%d" % i, src="keyed.cpp", defines=["MODE=" + m, "VF_KT=" + k] + (["VF_VT=" + v] if v else [])) for i, (m, k, v) in enumerate(KEYED)])
    P = ["ErrorChangesNothing", "Locality", "SizeDelta"]
    ml = 2 if ck.quick else 3
    el = ck.bg(ck.model_check, "Seq", 'Lists = {"a", "b"} Arrays = {} Vals = {1, 2} MaxLen = %d Default = 0 CheckLife = FALSE' % ml, ["TypeOK"], P, emit=True, label="Seq lists")
    ea = ck.bg(ck.model_check, "Seq", 'Lists = {} Arrays = {"x", "y"} Vals = {1%s} MaxLen = %d Default = 0 CheckLife = FALSE' % ("" if ck.quick else ", 2", ml), ["TypeOK"], P, emit=True, label="Seq arrays")
    gs = [ck.bg(m.edges, ck) for m in (c05, c06, c07)]
    wl, nl = ck.walks(el.result(), {"a": [], "b": []}, 80)
    wa, na = ck.walks(ea.result(), {"x": [], "y": []}, 80)
    exes = exes.result()
    rl, ra = [], []
    n = 60 if ck.quick else 600
    for exe, e in zip(exes, SEQEL):
        ok, nm = seqgen.allowed(e), e.split("::")[-1].lower()
        sl = [Seg(["reset", ["a", "b"], []], [o for o in w if ok(o)], "state graph walk") for w in wl]
        sl += [Seg(["reset", ["a", "b"], []], [o for o in seqgen.random_list(ck.rng, ["a", "b"]) if ok(o)], "random history") for _ in range(n)]
        sa = [Seg(["reset", [], ["x", "y"]], [o for o in w if ok(o)], "state graph walk") for w in wa]
        sa += [Seg(["reset", [], ["x", "y"]], [o for o in seqgen.random_array(ck.rng, ["x", "y"]) if ok(o)], "random history") for _ in range(n)]
        rl.append(("list-" + nm, exe, [], sl))
        ra.append(("array-" + nm, exe, [], sa))
    ck.extra["graph_edges_replayed"] = {"lists": nl, "arrays": na}
    g5, g6, g7 = c05.graph(ck, gs[0].result())[1], c06.graph(ck, gs[1].result()), c07.graph(ck, gs[2].result())
    rk = {"1": [], "2": [], "3": []}
    R = c05.RESET
    for i, (exe, (m, k, v)) in enumerate(zip(exes[len(SEQEL):], KEYED)):
        gen = {"1": lambda: keygen.sorted_random(ck.rng, 30), "2": lambda: keygen.dict_random(ck.rng, 12), "3": lambda: keygen.group_random(ck.rng, 6, 3)}[m]
        g = {"1": g5, "2": g6, "3": g7}[m]
        if ck.quick and i % 2: g = g[::3]
        rk[m].append(("keyed%s-%s" % (m, k.split("::")[-1].lower()), exe, [], g + [Seg(R, gen(), "random history") for _ in range(n)]))
    ck.conform_multi("list", closing(rl), "TraceSeq", SEQ % ('{"a", "b"}', '{}'), corrupt=corrupt)
    ck.conform_multi("array", closing(ra), "TraceSeq", SEQ % ('{}', '{"x", "y"}'), corrupt=corrupt)
    ck.conform_multi("sorted", closing(rk["1"]), "TraceSorted", c05.CFG % (1, "TRUE"), corrupt=corrupt)
    ck.conform_multi("dict", closing(rk["2"]), "TraceDict", c06.CFG % "TRUE", corrupt=corrupt)
    ck.conform_multi("group", closing(rk["3"]), "TraceGrp", c07.CFG % "TRUE", corrupt=corrupt)

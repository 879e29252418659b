"""C08: enumerators and their clones visit each element once, in order."""
from vf.core import Seg
from vf import exprs

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT Bounded
CONSTANTS Slots = {"a", "b", "c", "d"} Exprs <- Two
"""
ACT = ["OthersUntouched", "OneElementPerStep", "EndIsFinal", "CloneContinues"]
S = ["a", "b", "c", "d"]
R = ["reset", S]
# sequences of three, one and no elements, of every kind
BASE = {
    3: [["list", [1, 2, 3]], ["array", [1, 2, 3]], ["sorted", [3, 1, 2]], ["iter", [1, 2, 3]], ["ptrlist", [1, 2, 3]], ["range", 1, 3],
        ["dict", [1, 1, 2, 2, 3, 3]], ["group", [1, 1, 1, 2, 2, 3]], ["group", [1, 1, 2, 2, 2, 3]], ["group", [1, 1, 2, 2, 3, 3]]],
    1: [["list", [4]], ["array", [4]], ["sorted", [4]], ["iter", [4]], ["ptrlist", [4]], ["range", 4, 1], ["dict", [4, 4]], ["group", [4, 4]]],
    0: [["empty"], ["list", []], ["array", []], ["iter", []], ["ptrlist", []], ["range", 1, 0], ["dict", []], ["group", []]],
}
L3 = ["list", [1, 2, 3]]
OPS3 = [["select", "inc", L3], ["where", "odd", ["list", [1, 2, 3, 4, 5]]], ["where", "odd", ["list", [2, 1, 2, 3, 4, 5, 6]]], ["take", 3, ["range", 1, 9]], ["take", 3, ["dict", [1, 1, 2, 2, 3, 3, 4, 4]]],
        ["skip", 2, ["list", [0, 0, 1, 2, 3]]], ["skip", 1, ["group", [1, 1, 1, 2, 2, 3, 4, 4]]], ["repeat", 3, ["list", [1]]], ["repeat", 1, ["dict", [1, 1, 2, 2, 3, 3]]],
        ["repeat", 3, ["dict", [1, 1]]], ["repeat", 3, ["group", [1, 1]]],
        ["distinct", ["list", [1, 1, 2, 1, 3, 3]]], ["reverse", L3], ["concat", ["list", [1]], ["list", [2, 3]]], ["concat", ["list", [1, 2]], ["list", [3]]],
        ["concat", ["dict", [1, 1]], ["group", [2, 2, 2, 3]]], ["concat", ["empty"], L3], ["concat", L3, ["empty"]],
        ["pairwise", L3, ["list", [4, 5, 6, 7]]], ["pairwise", ["list", [1, 2, 3, 4]], L3], ["pairwise", ["select", "inc", L3], ["distinct", L3]],
        ["intersect", ["list", [1, 4, 2, 5, 3]], L3], ["except", ["list", [1, 4, 2, 5, 3]], ["list", [4, 5]]], ["union", ["list", [1, 2]], ["list", [2, 3]]],
        ["orderself", ["list", [3, 1, 2]]], ["evaluate", ["select", "inc", L3]], ["force", L3], ["copy", ["where", "all", L3]],
        ["selectmany", "count", ["list", [2, 1, 3]]], ["groupby", "zero", ["list", [1, 2]]], ["findtype", ["list", [1, 2, 3, 4, 5]]], ["cast", L3],
        ["take", 3, ["skip", 2, ["range", 0, 9]]], ["skip", 1, ["repeat", 2, ["list", [1, 2]]]], ["select", "neg", ["where", "odd", ["range", 0, 7]]]]

def corrupt(e):
    for k in e["en"]:
        if len(e["en"][k]) == 2:
            e["en"][k][0] += 1
            return e

def history(rng, n):
    ops = [["open", s, exprs.pick(rng, rng.choice([0, 0, 1, 1, 2, 3]))] for s in S[:2]]
    for _ in range(n):
        r, i = rng.random(), rng.choice(S)
        if r < 0.1: ops.append(["open", i, exprs.pick(rng, rng.choice([0, 0, 1, 1, 2, 3]))])
        elif r < 0.65: ops.append(["next", i])
        elif r < 0.8: ops.append(["clone", i, rng.choice(S)])
        elif r < 0.9: ops.append(["rewind", i])
        elif r < 0.93: ops.append(["close", i])
        else: ops.append([rng.choice(["loop", "iloop"]), exprs.pick(rng, rng.choice([0, 1, 2]))])
    return ops

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="enum", src="enum.cpp")])
    deep = ck.bg(ck.model_check, "Enum", 'Slots = {"a", "b"%s} Exprs <- Three' % ("" if ck.quick else ', "c"'), ["Bounded"], ACT, label="Enum deeper")
    # the state graph with one slot per program kind: every history of open, step, clone, rewind, close
    e = ck.model_check("Enum", 'Slots = {"a", "b"} Exprs <- Three', ["Bounded"], ACT, emit=True)
    none = {"seq": [], "pos": -1}
    w, k = ck.walks(e, {"a": none, "b": none}, 80)
    ck.extra["graph_edges_replayed"] = k
    # the walks are replayed with other sequences of the same length in place of the model's
    segs = []
    def subst(x, m):
        if x[0] != "open": return x
        n = 0 if x[2][0] == "empty" else len(x[2][1])
        return ["open", x[1], m[n]]
    for i, b in enumerate(BASE[3] + OPS3):
        m = {3: b, 1: rng.choice(BASE[1]), 0: rng.choice(BASE[0])}
        ws = w if not ck.quick else rng.sample(w, min(len(w), 6))
        segs += [Seg(R, [subst(x, m) for x in p], "state graph walk over %s" % b[0]) for p in ws]
    for b in BASE[1] + BASE[0]:
        for p in rng.sample(w, min(len(w), 3 if ck.quick else 20)):
            m = {3: b, 1: b, 0: b}
            segs.append(Seg(R, [subst(x, m) for x in p], "state graph walk over %s" % b[0]))
    for b in BASE[3] + BASE[1] + BASE[0] + OPS3:
        segs.append(Seg(R, [["loop", b], ["iloop", b]], "loops"))
        # rewind at every position, go to the end again; clone at every position, run both
        ops = []
        for k in range(5):
            ops += [["open", "a", b]] + [["next", "a"]] * k + [["rewind", "a"]] + [["next", "a"]] * 4 + [["next", "a"]]
            ops += [["open", "b", b]] + [["next", "b"]] * k + [["clone", "b", "c"]] + [["next", "c"]] * 2 + [["next", "b"]] * 5 + [["rewind", "b"], ["next", "c"], ["next", "c"], ["next", "b"], ["close", "b"], ["next", "c"]]
        segs.append(Seg(R, ops, "rewind and clone at every position"))
    # longer sequences of every kind
    for n in ((20, 45) if ck.quick else (8, 16, 17, 32, 33, 64, 65, 100)):
        v = rng.sample(range(1, n + 1), n); kv = [x for k in v for x in (k, k + 1)]; up = [x for k in range(1, n + 1) for x in (k // 3, k)]
        for b in (["list", v], ["array", v], ["sorted", v], ["iter", v], ["range", 1, n], ["dict", kv], ["group", up], ["distinct", ["list", v + v]], ["reverse", ["list", v]], ["concat", ["list", v], ["group", up]], ["orderself", ["list", v]]):
            j = rng.randrange(n)
            segs.append(Seg(R, [["loop", b], ["iloop", b], ["open", "a", b]] + [["next", "a"]] * j + [["clone", "a", "b"]] + [["next", "b"], ["next", "a"]] * (n - j + 2) + [["rewind", "a"], ["next", "a"], ["next", "b"]], "long sequences"))
    for _ in range(150 if ck.quick else 5000):
        segs.append(Seg(R, history(rng, 50), "random history"))
    [exe] = exe.result()
    ck.conform("enum", exe, [], segs, "TraceEnum", CFG, corrupt=corrupt)
    deep.result()

"""C09: lazy sequence operators compute the corresponding sequence algebra."""
from vf.core import Seg
from vf import exprs

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Srcs = {"A", "B"} Vars = {"u", "v", "w"} SrcVals = {1} MaxLen = 1 Depth = 1
"""
R = ["reset", ["A", "B"], ["u", "v", "w"]]
AGGS = ["count", "isempty", "first", "last", "firstor", "lastor", "firstor2", "lastor2", "max", "min", "fold", "foldfrom", "allodd", "anyodd", "allgt1", "anygt1"]

def corrupt(e):
    if e["r"][0] == "seq" and len(e["r"][1]) > 1 and e["r"][1][0] != e["r"][1][-1]:
        e["r"][1] = e["r"][1][::-1]
        return e

def lazy_history(rng, n):
    """variables bound to lazy expressions, sources that change in between (only operators that are not
    documented to take their elements at creation are bound to sources that change later)"""
    S, ops = [["src", "A"], ["src", "B"]], []
    for v in "uvw": ops.append(["bind", v, rng.choice(S)])
    for _ in range(n):
        r = rng.random()
        if r < 0.2: ops.append(["set", rng.choice("AB"), exprs.content(rng)])
        elif r < 0.45:
            e = exprs.pick(rng, rng.choice([1, 2, 2, 3]), leaves=S * 3 + [["list", exprs.content(rng)]], pure=True)
            if rng.random() < 0.3: e = ["force", exprs.pick(rng, 2, leaves=S)]
            elif rng.random() < 0.35: e = ["evaluate", exprs.pick(rng, rng.choice([1, 1, 2, 3]), leaves=S * 2 + [["var", x] for x in "uvw"], pure=True)]
            ops.append(["bind", rng.choice("uvw"), e])
        elif r < 0.5: ops.append([rng.choice(["movebind", "movenew"])] + rng.sample("uvw", 2))
        elif r < 0.7: ops.append(["read", rng.choice("uvw")])
        elif r < 0.85: ops.append(["agg", rng.choice(AGGS), ["var", rng.choice("uvw")]])
        else: ops.append(["eval", exprs.pick(rng, 2, leaves=[["var", x] for x in "uvw"] + S)])
    return ops + [["read", v] for v in "uvw"]

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="lazy", src="lazy.cpp")])
    deep = ck.bg(ck.model_check, "Lazy", 'Srcs = {"A", "B"} Vars = {} SrcVals = {%s} MaxLen = 3 Depth = 1' % ("1, 2" if ck.quick else "0, 1, 2"), ["AlgebraLaws", "ForceIsCopy"], ["ReadsChangeNothing"], label="Lazy laws")
    e = ck.model_check("Lazy", 'Srcs = {"A", "B"} Vars = {} SrcVals = {1, 2} MaxLen = %d Depth = %d' % ((2, 1) if ck.quick else (3, 1)), ["AlgebraLaws"], ["ReadsChangeNothing"], emit=True, label="Lazy graph")
    w, k = ck.walks(e, {"src": {"A": [], "B": []}, "lazy": {}} if False else {"src": {"A": [], "B": []}, "lazy": []}, 80)
    ck.extra["graph_edges_replayed"] = k
    segs = [Seg(R, x, "state graph walk") for x in w]
    # every composition of two operators, over sources chosen at random
    one = lambda e, o: ([["select", f, e] for f in ("inc", "neg", "mod3")] + [["where", p, e] for p in ("odd", "gt1", "none")]
                        + [[n, k, e] for n in ("take", "skip", "repeat") for k in (0, 1, 2, 3)]
                        + [[n, e] for n in exprs.UN] + [[n, e, o] for n in exprs.BIN] + [[n, o, e] for n in exprs.BIN]
                        + [["selectmany", f, e] for f in ("twice", "count")] + [["groupby", "mod3", e]])
    A, B = ["src", "A"], ["src", "B"]
    pairs = [y for x in one(A, B) for y in one(x, B)]
    for rep in range(1 if ck.quick else 12):
        rng.shuffle(pairs)
        for i in range(0, len(pairs), 30):
            ops = []
            for j, x in enumerate(pairs[i:i + 30]):
                if j % 6 == 0: ops += [["set", "A", [rng.randint(0, 4) for _ in range(rng.choice([2, 3, 4, 5]))]], ["set", "B", exprs.content(rng, 4, 0, 5)]]
                ops.append(["eval", x])
            segs.append(Seg(R, ops, "all two-operator compositions"))
    for _ in range(100 if ck.quick else 2000):
        segs.append(Seg(R, [["eval", exprs.pick(rng, rng.choice([2, 3, 4, 5]))] if rng.random() < 0.75 else ["agg", rng.choice(AGGS), exprs.pick(rng, rng.choice([0, 1, 2, 3]))] for _ in range(40)], "random expressions"))
    for _ in range(100 if ck.quick else 2000):
        segs.append(Seg(R, lazy_history(rng, 40), "lazy variables over changing sources"))
    [exe] = exe.result()
    ck.conform("lazy", exe, [], segs, "TraceLazy", CFG, corrupt=corrupt)
    deep.result()

"""C16: function objects call exactly the callable they were built from."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS SF = {%s} SG = {%s} MaxInv = 1
"""
ACT = ["CopiesShare", "MovedFromEmpty", "OneCall", "DeadStaysDead"]

def corrupt(e):
    if e["o"][0] == "call" and e["r"][0] == "call":
        e["r"][1][3] += 1
        return e

def history(rng, F, G, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        a = rng.choice(F + G)
        same = F if a in F else G
        oth = G if a in F else F
        if r < 0.25:
            k = rng.choice(["static", "method", "pointer", "functor", "functorm", "lambda"])
            ops.append([k, a] if k in ("functor", "functorm", "lambda") else [k, a, rng.choice([1, 2])])
        elif r < 0.5: ops.append(["call", a, rng.randint(1, 9)])
        elif r < 0.7:
            k, b = rng.choice(["copy", "move", "copyctor", "movector", "eq"]), rng.choice(same)
            if a == b and k in ("copyctor", "movector"): k = "copy"
            ops.append([k, a, b])
        elif r < 0.82: ops.append([rng.choice(["convert", "convertctor", "convertm"]), a, rng.choice(oth)])
        elif r < 0.88: ops.append([rng.choice(["null", "bool"]), a])
        else: ops.append(["sig", rng.choice(["ref", "constref", "byvalue", "rvalue", "moveonly", "refresult", "many", "none"]), rng.choice(["static", "method", "lambda", "copied"]), rng.randint(1, 9)])
    return ops

def run(ck):
    exe = ck.bg(ck.build, [dict(out="fun", src="fun.cpp")])
    mi = 2 if ck.quick else 3
    deep = ck.bg(ck.model_check, "Fun", 'SF = {"f"} SG = {"g"} MaxInv = %d' % (3 if ck.quick else 4), [], ACT, label="Fun deeper")
    e = ck.model_check("Fun", 'SF = {"f", "h"} SG = {"g"} MaxInv = %d' % mi, [], ACT, emit=True)
    w, k = ck.walks(e, {"slot": {"f": 0, "h": 0, "g": 0}, "inv": [], "cnt": []}, 60)
    ck.extra["graph_edges_replayed"] = k
    [exe] = exe.result()
    R = ["reset", ["f", "h"], ["g"]]
    ck.conform("graph", exe, [], [Seg(R, x + [["finish"]], "state graph walk") for x in w], "TraceFun", CFG % ('"f", "h"', '"g"'), corrupt=corrupt)
    F, G = ["a", "b", "c"], ["x", "y"]
    R = ["reset", F, G]
    ck.conform("random", exe, [], [Seg(R, history(ck.rng, F, G, 60) + [["finish"]], "random history") for _ in range(200 if ck.quick else 4000)], "TraceFun", CFG % ('"a", "b", "c"', '"x", "y"'), corrupt=corrupt)
    deep.result()

"""C27: the console writes and reads exactly the text it is given."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Chars = {65} MaxText = 0 MaxOut = 0 MaxIn = 0
"""
INV, ACT = [], ["OutputGrows", "ReadWritesNothing", "WriteReadsNothing", "ReadKeepsAll"]
CH = [65, 97, 32, 9, 10, 13, 126, 0x80, 0xE9, 0x3B1, 0x7FF, 0x800, 0x4E2D, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF]

def corrupt(e):
    if e["out"]:
        e["out"] = e["out"][:-1]
        return e

def text(rng, n, z=False): return [rng.choice(CH + ([0] if z else [])) for _ in range(rng.choice([0, 1, 2, n]))]

def write(rng):
    r = rng.random()
    if r < 0.3: return ["write", text(rng, 9, True)]
    if r < 0.45: return ["writeptr", text(rng, 9)]
    if r < 0.6:
        t = text(rng, 9, True); return ["writelen", t, rng.randrange(len(t) + 1)]
    if r < 0.8: return ["line", text(rng, 9)]
    if r < 0.95: return ["colour"] + [rng.randrange(2) for _ in range(4)]
    return ["title", text(rng, 3)]

def history(rng, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3: ops.append(["read"])
        elif r < 0.6: ops.append(write(rng))
        else: ops.append(["all", [write(rng) for _ in range(rng.randrange(1, 9))]])
    return ops

def run(ck):
    exe = ck.bg(ck.build, [dict(out="con", src="con.cpp")])
    ck.model_check("Con", "Chars = {65, 20013} MaxText = %d MaxOut = %d MaxIn = %d" % ((2, 5, 5) if ck.quick else (3, 8, 8)), INV, ACT, label="Con deeper")
    e = ck.model_check("Con", "Chars = {65, 20013} MaxText = 2 MaxOut = %d MaxIn = %d" % ((4, 2) if ck.quick else (6, 4)), INV, ACT, emit=True)
    segs, k = [], 0
    inputs = [[]]
    for _ in range(2 if ck.quick else 4): inputs += [i + [c] for i in inputs for c in (65, 10) if i + [c] not in inputs]
    for i in inputs:
        w, n = ck.walks(e, {"in": i, "out": []}, 60)
        k += n
        segs += [Seg(["reset", i], o, "state graph walk") for o in w]
    ck.extra["graph_edges_replayed"] = k
    [x] = exe.result()
    rng = ck.rng
    for _ in range(80 if ck.quick else 3000):
        inp = []
        for _ in range(rng.randrange(7)): inp += [c for c in text(rng, 12) if c != 10] + [10]
        inp += rng.choice([[], [65], [0x4E2D, 13]])
        segs.append(Seg(["reset", inp], history(rng, 30), "random history"))
    # every colour, and every character class alone
    cs = [["colour", r, g, b, l] for r in (0, 1) for g in (0, 1) for b in (0, 1) for l in (0, 1)]
    segs.append(Seg(["reset", []], cs + [["all", cs]] + [["write", [c]] for c in CH] + [["read"], ["line", [65]], ["read"]], "colours and characters"))
    # long texts
    for n in (255, 256, 1024, 5000):
        t = [rng.choice(CH) for _ in range(n)]
        segs.append(Seg(["reset", [c for c in t if c != 10] + [10, 65]], [["write", t], ["writelen", t, n - 1], ["line", t], ["writeptr", t], ["read"], ["read"], ["read"]], "long texts"))
    ck.conform_multi("con", [("con", x, [], segs)], "TraceCon", CFG, corrupt=corrupt)

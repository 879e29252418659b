"""C10: sorting yields an ordered permutation of its input."""
import itertools
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS KeyVals = {1} MaxLen = 1 Cmps = {"asc"}
"""
TOTAL = ["asc", "desc", "half", "same"]
CMPS = TOTAL + ["div", "nan"]
R = ["reset"]

def corrupt(e):
    if e["o"][0] == "sort" and e["o"][1] in ("sort", "sortlambda") and e["o"][2] == "asc" and e["arr"] and e["arr"][0][0] != e["arr"][-1][0]:
        e["arr"] = e["out"] = e["arr"][::-1]
        return e

def sorts(rng, c, all_=False):
    h = [["sort", "sort", c], ["sort", "sortlambda", c], ["sort", "order", c]]
    if c in TOTAL: h += [["sort", "orderkey", c], ["sort", "pointers", c]]
    if c == "asc": h += [["sort", "plain", c], ["sort", "orderself", c], ["sort", "strings", c]]
    return h if all_ else [rng.choice(h)]

def shapes(rng, n):
    k = max(1, n // 4)
    yield list(range(1, n + 1))
    yield list(range(n, 0, -1))
    yield [1] * n
    yield [1 + i % 2 for i in range(n)]
    yield [1 + i % k for i in range(n)]
    yield [i + 1 if i < n // 2 else n - i for i in range(n)]
    yield [n - i if i < n // 2 else i + 1 for i in range(n)]
    yield [rng.randint(1, n) for _ in range(n)]
    yield [rng.randint(1, 3) for _ in range(n)]
    yield [rng.choice([1, n]) for _ in range(n)]
    x = list(range(1, n + 1)); i, j = rng.randrange(n), rng.randrange(n); x[i], x[j] = x[j], x[i]
    yield x

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="sort", src="sort.cpp")])
    alg = ck.bg(ck.model_check, "QSort", 'KeyVals = {1, 2, 3} MaxLen = %d Cmps = {"asc", "half", "same"}' % (5 if ck.quick else 6), ["Permutes", "SortedAtEnd", "NoSilentUnordered", "FailsOnlyIfUnordered", "InsideArray"], ["Terminates"], label="QSort algorithm")
    alg2 = ck.bg(ck.model_check, "QSort", 'KeyVals = {1, 2, 3, 4} MaxLen = %d Cmps = {"div"}' % (4 if ck.quick else 5), ["Permutes", "SortedAtEnd", "NoSilentUnordered", "FailsOnlyIfUnordered", "InsideArray"], ["Terminates"], label="QSort with a partial order")
    prop = ck.bg(ck.model_check, "Sort", 'KeyVals = {1, 2, 3} MaxLen = %d Cmps = {"asc", "desc", "half", "same", "div"}' % (3 if ck.quick else 4), [], ["Permutation", "InOrder", "NeverFails"], label="Sort relation")
    # the inputs: every array up to length 5 over three keys (and up to 4 over five keys)
    e = ck.model_check("Sort", 'KeyVals = {1, 2, 3} MaxLen = %d Cmps = {}' % (5 if ck.quick else 6), [], [], emit=True, view=False, label="Sort inputs", spec="LoadOnly")
    ins = sorted({tuple(o[1]) for _, o, _ in e})
    segs = []
    for i in range(0, len(ins), 6):
        ops = []
        for x in ins[i:i + 6]:
            for c in TOTAL: ops += [["load", x]] + sorts(rng, c)
        segs.append(Seg(R, ops, "every array over three keys"))
    part = [list(p) for n in range(2, 5) for p in itertools.product([1, 2, 3, 4, 6], repeat=n)] + [list(p) for n in range(1, 5) for p in itertools.product([0, 1, 2], repeat=n)]
    if ck.quick: part = [p for p in part if len(p) < 4] + rng.sample([p for p in part if len(p) == 4], 250)
    part += [[rng.choice([1, 2, 4, 8, 16, 32, 3, 48, 64]) for _ in range(rng.randint(5, 12))] for _ in range(150 if ck.quick else 5000)]
    for i in range(0, len(part), 20):
        ops = []
        for x in part[i:i + 20]: ops += [["load", x]] + sorts(rng, "nan" if 0 in x else "div")
        segs.append(Seg(R, ops, "partial orders"))
    for n in ([6, 7, 8, 9, 12, 17, 31, 40, 64, 100] if ck.quick else list(range(6, 60)) + [64, 100, 127, 128, 129, 200]):
        for x in shapes(rng, n):
            ops = []
            for c in TOTAL: ops += [["load", x]] + sorts(rng, c, all_=n <= 12)
            segs.append(Seg(R, ops, "shapes"))
    for n in ([150, 257, 513] if ck.quick else [150, 255, 256, 257, 300, 511, 512, 513, 700, 1023, 1024, 1025, 1500]):
        for x in shapes(rng, n):
            ops = []
            for c in (rng.sample(TOTAL, 2) if ck.quick else TOTAL): ops += [["load", x]] + sorts(rng, c)
            segs.append(Seg(R, ops, "shapes of large arrays"))
    for _ in range(60 if ck.quick else 3000):
        n = rng.randint(2, 25)
        ops = [["load", [rng.randint(1, rng.choice([2, 4, 30])) for _ in range(n)]]]
        for _ in range(8): ops += sorts(rng, rng.choice(TOTAL))
        segs.append(Seg(R, ops, "sorts of sorts"))
    [exe] = exe.result()
    ck.conform("sort", exe, [], segs, "TraceSort", CFG, corrupt=corrupt)
    for f in (alg, alg2, prop): f.result()

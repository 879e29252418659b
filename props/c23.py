"""C23: push-only allocation and byte maps never mix up entries."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Maps = {"p", "q", "s"} Keys <- AllBytes Vals = {1} MaxObjs = 1
"""
ACT = ["FreshObject", "NeverShrinks", "OneKey", "ReadsChangeNothing", "WriteHits"]
M = ["p", "q", "s"]

def R(rng): return ["reset", rng.choice([1, 1, 2, 3, 4, 7]), rng.choice([1, 2, 3, 4, 5, 64]), M]

def corrupt(e):
    if e["objs"]:
        e["objs"][-1] += 1
        return e

def history(rng, n, keys):
    ops = []
    for _ in range(n):
        r, m = rng.random(), rng.choice(M)
        if r < 0.15: ops.append(["create"])
        elif r < 0.22: ops.append(["get", rng.randrange(40)])
        elif r < 0.3: ops.append(["write", rng.randrange(20), rng.randrange(9)])
        elif r < 0.7: ops.append(["put", m, rng.choice(keys), rng.randrange(0, 200)])
        elif r < 0.9: ops.append(["look", m, rng.choice(keys)])
        elif r < 0.98: ops.append(["dump", m])
        else: ops.append(["renew", m])
    return ops + [["dump", m] for m in M]

def run(ck):
    rng = ck.rng
    exes = ck.bg(ck.build, [dict(out="alloc-%d" % f, src="alloc.cpp", defines=["FILL=%d" % f]) for f in (1, 40)])
    deep = ck.bg(ck.model_check, "Alloc", 'Maps = {"p", "q"} Keys <- SomeBytes Vals = {1} MaxObjs = %d' % (2 if ck.quick else 3), [], ACT, label="Alloc more keys")
    e = ck.model_check("Alloc", 'Maps = {"p", "q"} Keys = {0, 1, 64} Vals = {%s} MaxObjs = 2' % ("1" if ck.quick else "1, 2"), [], ACT, emit=True)
    z = [[0, 0], [1, 0], [64, 0]]
    w, k = ck.walks(e, {"objs": [], "maps": {"p": z, "q": z}}, 60)
    ck.extra["graph_edges_replayed"] = k
    if len(w) > 3000: w = rng.sample(w, 3000)
    runs = []
    for f, exe in zip((1, 40), exes.result()):
        segs = [Seg(R(rng), x + [R(rng)], "state graph walk") for x in w]
        # every key stored alone, then every key stored in some order
        for b in range(0, 256, 1 if not ck.quick else 3):
            k = (b + f) % 256
            segs.append(Seg(R(rng), [["put", "p", k, 5], ["dump", "p"], ["dump", "q"], ["put", "q", k, 6], ["put", "p", k, 0], ["dump", "p"], ["dump", "q"]], "single key"))
        for _ in range(4 if ck.quick else 40):
            o = rng.sample(range(256), 256)
            segs.append(Seg(R(rng), [x for i, k in enumerate(o) for x in [["put", rng.choice(M), k, 1 + i]] + ([["dump", rng.choice(M)]] if i % 32 == 31 else [])] + [["dump", m] for m in M] + [R(rng)], "all keys"))
        # allocation across block boundaries
        for bs in [1, 2, 3, 4, 5, 8, 16, 0] if f == 1 else [1, 2, 3, 7]:
            n = 3 * bs + 2 if bs else 40
            ops = []
            for i in range(n): ops += [["create"], ["write", i, i % 50 + 1], ["get", i], ["get", i + 1], ["get", 0]]
            segs.append(Seg(["reset", bs, 1, M], ops + [R(rng)], "block boundaries"))
        for _ in range(40 if ck.quick else 1000):
            keys = rng.choice([list(range(256)), rng.sample(range(256), 6), [1 << i for i in range(8)], [0, 1, 2, 3, 4, 8, 12, 16, 64, 128, 192, 255]])
            segs.append(Seg(R(rng), history(rng, 60, keys) + [R(rng)], "random history"))
        runs.append(("alloc-%d" % f, exe, [], segs))
    ck.conform_multi("alloc", runs, "TraceAlloc", CFG, corrupt=corrupt)
    deep.result()

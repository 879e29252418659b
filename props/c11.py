"""C11: dependency ordering partitions nodes and puts dependencies first."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT Partition
CONSTANTS MaxN = 1
"""
INV, ACT = ["SortIsCorrect", "Partition"], ["SecondTimeFails"]
R = ["reset"]
HOW = ["group", "func", "array", "sorted", "strings", "pointers"]

def corrupt(e):
    if len(e["comps"]) > 1:
        e["comps"] = [e["comps"][0] + e["comps"][1]] + e["comps"][2:]
        return e

def graph(rng, n):
    k = rng.choice(["sparse", "dense", "chain", "cycle", "dag", "blocks", "star"])
    V = list(range(n)); rng.shuffle(V)
    if k == "sparse": es = [(rng.randrange(n), rng.randrange(n)) for _ in range(n)]
    elif k == "dense": es = [(a, b) for a in V for b in V if rng.random() < 0.4]
    elif k == "chain": es = [(V[i], V[i + 1]) for i in range(n - 1)]
    elif k == "cycle": es = [(V[i], V[(i + 1) % n]) for i in range(n)] + [(rng.choice(V), rng.choice(V))]
    elif k == "dag": es = [(V[i], V[j]) for i in range(n) for j in range(i) if rng.random() < 0.3]
    elif k == "blocks":
        es, i = [], 0
        while i < n:
            s = min(rng.choice([1, 2, 3]), n - i); b = V[i:i + s]
            es += [(b[x], b[(x + 1) % s]) for x in range(s)] if s > 1 else []
            if i: es += [(rng.choice(b), rng.choice(V[:i])) for _ in range(rng.choice([0, 1, 2]))]
            i += s
    else: es = [(V[0], x) if rng.random() < 0.5 else (x, V[0]) for x in V[1:]]
    if rng.random() < 0.3 and es: es += [rng.choice(es)]
    rng.shuffle(es)
    return [list(x) for x in es]

def one(how, n, es, cls, extra=False):
    r = [["new"], ["init", how, n, es, cls]]
    if extra: r += [["init", "group", n, es, cls]]
    r += [["sort"]]
    if extra: r += [["sort"], ["init", "func", n, [], cls]]
    return r

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="pop", src="pop.cpp")])
    deep = ck.bg(ck.model_check, "Pop", "MaxN = 3", INV, ACT, label="Pop: Kosaraju on every graph of three nodes and every class-wise graph of two")
    e = ck.model_check("Pop", "MaxN = 3", [], [], emit=True, view=False, spec="InitOnly", label="Pop inputs")
    ins = [o for _, o, _ in e]
    rng.shuffle(ins)
    segs = []
    for i in range(0, len(ins), 12):
        ops = []
        for o in ins[i:i + 12]:
            how = o[1] if o[1] == "sub" else rng.choice(HOW)
            ops += one(how, o[2], o[3], o[4], rng.random() < 0.1)
        segs.append(Seg(R, ops, "every graph up to three nodes"))
    def batch(gs, src):
        for i in range(0, len(gs), 10):
            segs.append(Seg(R, [x for g in gs[i:i + 10] for x in g], src))
    # four nodes (a sample in the quick tier, every loop-free graph in the thorough one), class-wise on three and four items
    P = [(a, b) for a in range(4) for b in range(4) if a != b]
    g4 = range(4096) if not ck.quick else rng.sample(range(4096), 300)
    batch([one(rng.choice(HOW), 4, [list(p) for i, p in enumerate(P) if m >> i & 1], [-1] * 4) for m in g4], "graphs of four nodes")
    batch([one("sub", n, graph(rng, n), [rng.choice([-1, 0, 1, 2]) for _ in range(n)], rng.random() < 0.1) for n in [rng.choice([3, 4, 5, 6, 7]) for _ in range(300 if ck.quick else 8000)]], "class-wise graphs")
    batch([one(rng.choice(HOW), n, graph(rng, n), [-1] * n) for n in [rng.choice([5, 6, 7, 8, 9, 10, 12]) for _ in range(250 if ck.quick else 8000)]], "random graphs")
    batch([one(rng.choice(["group", "strings", "pointers", "array", "sub"]), n, graph(rng, n) + [rng.choice([[n, 0], [0, n], [n + 1, n]])], [-1] * n) for n in (1, 2, 3, 4, 5) for _ in range(3)], "unknown items")
    batch([one(h, 0, [], []) for h in HOW + ["sub"]], "no items")
    [exe] = exe.result()
    ck.conform("pop", exe, [], segs, "TracePop", CFG, corrupt=corrupt)
    deep.result()

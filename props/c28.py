"""C28: an owner can be replaced by a part of what it owns."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT WellFormed
CONSTANTS Slots = {"p", "q"} Vals = {1} MaxNodes = 99 Kind = "%s"
"""
INV = ["WellFormed"]
ACT = ["LiftKeepsAPart", "NothingLost", "TakeKeepsAll", "Locality"]
KINDS = [("list", 1, "seq"), ("array", 2, "seq"), ("sorted", 3, "keyed"), ("dict", 4, "keyed"), ("group", 5, "keyed"),
         ("nullable", 6, "one"), ("frozen", 7, "one"), ("variant", 8, "one"), ("ptr", 9, "one"), ("com", 10, "one"), ("func", 11, "one"), ("lazy", 12, "one")]
S = ["p", "q"]
R = ["reset", S]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in S:
        if e["s"][k]:
            e["s"][k] = []
            return e

def history(rng, kind, n):
    """random history, with a copy of the model's state to keep to operations that are enabled"""
    st = {s: [] for s in S}
    ops = []
    size = lambda t: sum(1 + size(x[1]) for x in t)
    while len(ops) < n:
        c, d = rng.choice(S), rng.choice(S)
        k = rng.choice(["wrap", "push", "push", "wrap", "lift", "lift2", "drop", "clear", "take", "plant", "plant", "move"] + (["liftcopy", "liftnode", "liftnodem"] if kind == "one" else ["push", "push"]))
        if k in ("wrap", "push") and size(st["p"]) + size(st["q"]) > 30: k = "lift"
        v = rng.randint(1, 9)
        if k == "wrap": st[c] = [[v, st[c]]]; ops.append([k, c, v])
        elif k == "push":
            if kind == "one" or (kind == "keyed" and any(x[0] == v for x in st[c])): continue
            st[c] = st[c] + [[v, []]]
            if kind == "keyed": st[c].sort(key=lambda x: x[0])
            ops.append([k, c, v])
        elif k == "clear":
            if rng.random() < .8: continue
            st[c] = []; ops.append([k, c])
        elif k == "move":
            if c == d: continue
            st[c], st[d] = st[d], []; ops.append([k, c, d])
        elif k in ("lift", "liftcopy", "lift2", "drop", "liftnode", "liftnodem"):
            if not st[c]: continue
            i = rng.randrange(len(st[c]))
            kids = st[c][i][1]
            if k == "drop": st[c] = st[c][:i] + st[c][i + 1:]
            elif k in ("lift", "liftcopy"):
                if not kids and rng.random() < .8: continue
                st[c] = kids
            else:
                if not kids: continue
                st[c] = kids[0][1] if k == "lift2" else kids
            ops.append([k, c] if k in ("liftnode", "liftnodem") else [k, c, i + 1])
        else:
            if c == d or not st[d]: continue
            i = rng.randrange(len(st[d]))
            if k == "take": st[c] = st[d][i][1]; st[d][i][1] = []
            else: st[d][i][1] = st[c]; st[c] = []
            ops.append([k, c, d, i + 1])
    return ops

def run(ck):
    exes = ck.bg(ck.build, [dict(out="nest-" + n, src="nest.cpp", defines=["KIND=%d" % k]) for n, k, _ in KINDS])
    # assignments in two steps: taking first refines Nest, releasing first is rejected
    hc = 'Slots = {"p", "q"} Vals = {1} Ids = {%s} TakeFirst = %s'
    ids = lambda n: ', '.join('"n%d"' % i for i in range(n))
    heap = [ck.bg(ck.model_check, "NestHeap", hc % (ids(4 if ck.quick else 5), "TRUE"), ["NoStrayRead", "OneOwner", "NoLeak"], ["Refines"], label="heap", workers=2),
            ck.bg(ck.reject, "NestHeap", hc % (ids(3), "FALSE"), ["NoStrayRead"], label="heap release first", workers=1),
            ck.bg(ck.reject, "NestHeap", hc % (ids(3), "FALSE"), [], ["Refines"], label="heap release first, refinement", workers=1)]
    graphs = {}
    for kind in ("one", "seq", "keyed"):
        v = "{1}" if kind == "seq" else "{1, 2}"
        m = {"one": 5, "seq": 5, "keyed": 4}[kind] + (0 if ck.quick else 1)
        e = ck.model_check("Nest", 'Slots = {"p", "q"} Vals = %s MaxNodes = %d Kind = "%s"' % (v, m, kind), INV, ACT, emit=True, label="graph-" + kind)
        w, k = ck.walks(e, {s: [] for s in S}, 80, part=min(1, (6000 if ck.quick else 60000) / max(1, len(e))))
        ck.extra["graph_edges_replayed_" + kind] = k
        graphs[kind] = [Seg(R, x, "state graph walk") for x in w]
    runs = {k: [] for k in graphs}
    for exe, (n, _, kind) in zip(exes.result(), KINDS):
        segs = graphs[kind] + [Seg(R, history(ck.rng, kind, 60), "random history") for _ in range(30 if ck.quick else 1000)]
        runs[kind].append(("nest-" + n, exe, [], [Seg(s.reset, s.ops + [R], s.src) for s in segs]))
    for k in runs:
        ck.conform_multi(k, runs[k], "TraceNest", CFG % k, corrupt=corrupt)
    for h in heap: h.result()

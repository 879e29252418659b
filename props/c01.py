"""C01: shared pointers destroy an object exactly once, when its last owner goes."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT NoDangling
INVARIANT NoLeak
CONSTANTS %s
"""
INV = ["NoDangling", "NoLeak", "RawUnowned"]
ACT = ["DestroyedOnce", "QueriesChangeNothing", "MovedFromIsEmpty"]

def consts(slots, n, bye=False):
    t = lambda k: "{" + ", ".join('"%s"' % x for x in slots if slots[x] == k) + "}"
    return "SB = %s SD = %s SO = %s SC = %s MaxObj = %d ByeOn = %s" % (t("b"), t("d"), t("o"), t("c"), n, "TRUE" if bye else "FALSE")

def corrupt(e):
    if e["o"][0] == "reset" or 1 not in e["s"]["alive"]:
        return None
    e["s"]["alive"][e["s"]["alive"].index(1)] = 0
    return e

def reset(slots):
    return ["reset", ["%s:%s" % kv for kv in slots.items()]]

def random_history(rng, slots, length):
    base = [n for n, t in slots.items() if t == "b"]
    der = [n for n, t in slots.items() if t == "d"]
    oth = [n for n, t in slots.items() if t == "o"]
    com = [n for n, t in slots.items() if t == "c"]
    allp = base + der + oth
    fit = {"b": [1, 2], "d": [2], "o": [2], "c": [3]}
    ops, nobj, maybe_raw = [], 0, []
    for _ in range(length):
        r = rng.random()
        fam = com if com and rng.random() < 0.3 else base
        a, b = rng.choice(fam), rng.choice(fam)
        if r < 0.2 and nobj < 24:
            n = rng.choice(list(slots))
            ops.append([rng.choice(["new", "newctor"]) if slots[n] in "bc" else "new", n, rng.choice(fit[slots[n]])])
            nobj += 1
        elif r < 0.55:
            ops.append([rng.choice(["load", "loadmove", "store", "storemove", "store", "load"]), a, b])
        elif r < 0.6:
            ops.append(["unlink", a])
        elif r < 0.8:
            n = rng.choice(list(slots))
            m = rng.choice([x for x in slots if slots[x] == slots[n]])
            k = rng.choice(["copy", "move", "copyctor", "movector", "eq"])
            if n == m and k in ("copyctor", "movector"): k = "copy"
            ops.append([k, n, m])
        elif r < 0.82 and nobj:
            ops.append(["cut", rng.randint(1, nobj)])
        elif r < 0.835:
            ops.append(["bye", rng.choice(list(slots)), rng.choice(list(slots))])
        elif r < 0.85:
            ops.append(["detach", rng.choice(allp)])
        elif r < 0.88 and nobj:
            ops.append(["adopt", rng.choice(allp), rng.randint(1, nobj)])
        elif r < 0.95:
            ops.append(rng.choice([["cast", rng.choice(allp), rng.choice(allp)], ["up", rng.choice(base + oth), rng.choice(der)], ["upmove", rng.choice(base), rng.choice(der)]]))
        else:
            ops.append([rng.choice(["null", "drop", "bool"]), rng.choice(list(slots))])
    return ops

def run(ck):
    exe = ck.bg(ck.build, [dict(out="own", src="own.cpp")])
    runs = []
    graphs = [("typed", {"p": "b", "d": "d", "o": "o"}, 2), ("derived", {"p": "b", "d": "d", "e": "d"}, 2), ("plain", {"p": "b", "q": "b"}, 2 if ck.quick else 3), ("com", {"c": "c", "e": "c"}, 3),
              ("farewell", {"p": "b", "q": "b"}, 2), ("comfarewell", {"c": "c", "e": "c"}, 2)]
    if not ck.quick:
        graphs.append(("typed4", {"p": "b", "q": "b", "d": "d", "o": "o"}, 2))
    es = [ck.bg(ck.model_check, "Own", consts(slots, n, "farewell" in name), INV, ACT, emit=True, label="Own %s" % name) for name, slots, n in graphs]
    s = {"p": "b", "q": "b"} if ck.quick else {"p": "b", "q": "b", "r": "b"}
    deep = ck.bg(ck.model_check, "Own", consts(s, 3 if ck.quick else 4), INV, ACT, label="Own deeper", timeout=700)
    for (name, slots, n), e in zip(graphs, es):
        w, k = ck.walks(e.result(), {"slot": {s: 0 for s in slots}, "alive": [], "next": [], "raw": [], "kind": [], "bye": []}, 60)
        ck.extra.setdefault("graph_edges_replayed", {})[name] = k
        runs.append((name, slots, [Seg(reset(slots), x, "state graph walk") for x in w]))
    big = {"p": "b", "q": "b", "r": "b", "d": "d", "f": "d", "o": "o", "c": "c", "e": "c"}
    nr = 400 if ck.quick else 3000
    [exe] = exe.result()
    runs.append(("random", big, [Seg(reset(big), random_history(ck.rng, big, 60), "random history") for _ in range(nr)]))
    for name, slots, segs in runs:
        ck.conform(name, exe, [], segs, "TraceOwn", CFG % consts(slots, 1), corrupt=corrupt if name in ("plain", "random") else None)
    deep.result()

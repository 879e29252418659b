"""C25: bulk copying transfers exactly the source's elements."""
import json
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS KindList = "n" Vals = {1} MaxLen = 0
"""
NUM, PAIR = ["list", "array", "sorted"], ["plist", "parray", "dict", "group"]

def corrupt(e):
    if e["o"][0] in ("copy", "lazy", "raw"):
        for c in e["c"]:
            if c[1]:
                c[1].pop()
                return e

def history(rng, slots, n):
    """slots: name -> kind"""
    ops, size = [], {s: 0 for s in slots}
    names = list(slots)
    for _ in range(n):
        d, s = rng.choice(names), rng.choice(names)
        a = rng.randrange(2)
        pair = slots[d] in PAIR
        if (slots[s] in PAIR) != pair: continue
        r = rng.random()
        if size[d] + 2 * size[s] > 60 and rng.random() < 0.8: ops.append(["clear", d]); size[d] = 0; continue
        if r < 0.4:
            k = rng.choice([0, 1, 2, 3, rng.randrange(12)])
            v = [[rng.randint(1, 6), rng.randint(1, 9)] if pair else rng.randint(0, 9) for _ in range(k)]
            ops.append(["raw", d, rng.choice(["count", "range"]), v, a])
            size[d] = size[d] * a + k
        elif r < 0.8:
            if slots[d] == "str" and slots[s] == "str": continue
            ops.append(["copy", d, s, a])
            size[d] = size[d] * a + size[s]
        elif s != d and slots[s] != "str":
            how = rng.choice(["all", "some", "twice"] + ([] if slots[s] in ("dict", "group") else ["back"]))
            ops.append(["lazy", d, s, how, a])
            size[d] = size[d] * a + size[s] * 2
    return ops

def run(ck):
    rng = ck.rng
    exes = ck.bg(ck.build, [dict(out="copy-s", src="copy.cpp", defines=["WITH_STRING"]), dict(out="copy-t", src="copy.cpp", defines=["ELEM=Tracked"]),
                            dict(out="copy-w", src="copy.cpp", defines=["ELEM=vl::WString"]), dict(out="copy-c", src="copy.cpp", defines=["ELEM=CopyOnly"])])
    inv, act = ["Ordered"], ["Exactly"]
    bg = [ck.bg(ck.model_check, "Copy", 'KindList = "%s" Vals = {1, 2} MaxLen = %d' % (k, n if ck.quick else m), inv, act, label="Copy " + k) for k, n, m in (("n", 3, 4), ("p2", 2, 2))]
    segs = {}
    for k, n in (("n", 2), ("n2", 2), ("p", 2)):
        e = ck.model_check("Copy", 'KindList = "%s" Vals = {1, 2} MaxLen = %d' % (k, n), inv, emit=True, label="Copy %s (emitted)" % k)
        e = [x for x in e if not (x[1][0] == "lazy" and x[1][3] == "back" and x[1][2] in ("dict", "group"))]
        names = {"n": NUM, "n2": ["list", "sorted", "str"], "p": ["dict", "group"]}[k]
        w, nk = ck.walks(e, {"k": {s: s for s in names}, "c": {s: [] for s in names}}, 60)
        ck.extra["graph_edges_" + k] = nk
        if ck.quick and len(w) > 400: w = rng.sample(w, 400)
        R = ["reset", [[s, s] for s in names]]
        segs[k] = [Seg(R, x + [R], "state graph walk") for x in w]
    S = {s + str(i): s for s in NUM + PAIR for i in (1, 2)}
    SS = dict(S, str1="str", str2="str")
    def rnd(slots, n):
        R = ["reset", [[s, k] for s, k in slots.items()]]
        return [Seg(R, history(rng, slots, 40) + [R], "random history") for _ in range(n)]
    n = 100 if ck.quick else 3000
    s, t, w, c = exes.result()
    ck.conform_multi("copy", [("chars", s, [], segs["n2"] + rnd(SS, n)), ("tracked", t, [], segs["n"] + segs["p"] + rnd(S, n)), ("strings", w, [], rnd(S, n)), ("copyonly", c, [], segs["n"][::4] + rnd(S, n // 2))], "TraceCopy", CFG, corrupt=corrupt)
    for b in bg: b.result()

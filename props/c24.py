"""C24: composite values order lexicographically and consistently with equality."""
import json
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {"ii"} Ints = {1} Floats = {1} SeqLen = 1 Laws = FALSE
"""
CONST = "Keys = {%s} Ints = {%s} Floats = {%s} SeqLen = %d Laws = %s"
FORMS = {"ii": ["pp", "tt", "ts", "ps", "rr"], "id": ["pp", "tt", "ts"], "di": ["pp", "tt"], "dd": ["pp", "tt"], "iii": ["tt", "ts"], "tn": ["pp", "tt"], "pt": ["pp", "tt"]}
KINDS = ["list", "array", "lazy", "lazylist", "concat"]
SHAPE = {"ii": "tii", "id": "tid", "di": "tdi", "dd": "tdd", "idi": "tidi", "iii": "tiii", "iiii": "tiiii"}
R = ["reset"]
INV = ["Total", "Antisymmetric", "Agree", "Transitive"]

def q(xs): return ", ".join('"%s"' % x for x in xs)
def corrupt(e):
    if e["o"][0] == "cmp" and e["r"][0] in ("lt", "gt", "eq"):
        e["r"][0] = {"lt": "eq", "gt": "eq", "eq": "lt"}[e["r"][0]]
        return e

def kinds(rng, k, v):
    ks = list(KINDS)
    if k == "si" and v == sorted(v): ks += ["sorted"] * 2
    if k == "sp":
        keys = [p[0] for p in v]
        if keys == sorted(keys): ks += ["group"] * 3
        if keys == sorted(set(keys)): ks += ["dict"] * 3
    return rng.choice(ks)

def rnd(rng, k):
    I = lambda: rng.choice([0, 1, 2, -1, rng.randint(-2000000000, 2000000000)])
    D = lambda: rng.choice([0, 1, 2, -1, 99, rng.randint(-2000, 2000)])
    opt = lambda f: [] if rng.random() < 0.3 else [f()]
    base = {"ii": lambda: [I(), I()], "id": lambda: [I(), D()], "di": lambda: [D(), I()], "dd": lambda: [D(), D()], "t0": lambda: [], "t1": lambda: [D()],
            "idi": lambda: [I(), D(), I()], "iii": lambda: [I(), I(), I()], "iiii": lambda: [I(), I(), I(), I()], "ni": lambda: opt(I), "nd": lambda: opt(D),
            "nid": lambda: opt(lambda: [I(), D()]), "nn": lambda: opt(lambda: opt(I)), "tn": lambda: [opt(I), opt(D)], "pt": lambda: [[I(), D()], opt(I)]}
    if k in base:
        return base[k]()
    n = rng.choice([0, 1, 2, 3, 5, 8])
    el = {"si": I, "sd": D, "sp": lambda: [rng.randint(0, 4), I()], "spd": lambda: [I(), D()], "sn": lambda: opt(I)}[k]
    v = [el() for _ in range(n)]
    if k in ("si",) and rng.random() < 0.4: v.sort()
    if k == "sp" and rng.random() < 0.6: v.sort(key=lambda p: p[0])
    return v

def near(rng, v):
    """a copy that differs in at most one place or in length"""
    v = json.loads(json.dumps(v))
    def walk(x):
        if x and rng.random() < 0.8:
            i = rng.randrange(len(x))
            if isinstance(x[i], list): walk(x[i])
            else: x[i] = rng.choice([x[i], x[i] + 1, x[i] - 1]) if x[i] != 99 and abs(x[i]) < 2000000000 else x[i]
    walk(v)
    return v

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="ord", src="ord.cpp")])
    flat = ["ii", "id", "di", "dd", "t0", "t1", "idi", "iii", "ni", "nd", "nid", "tn", "pt", "nn"]
    seq = ["si", "sd", "sp", "spd", "sn"]
    bg = [ck.bg(ck.model_check, "Ord", CONST % (q(flat), "0, 1", "0, 1, 99", 0, "TRUE"), INV, view=False, label="Ord values"),
          ck.bg(ck.model_check, "Ord", CONST % (q(["si", "sd", "sn", "ss", "tsi"] if not ck.quick else ["si", "sd", "sn"]), "0, 1", "0, 1, 99", 2, "TRUE"), INV, view=False, label="Ord sequences"),
          ck.bg(ck.model_check, "Ord", CONST % (q(seq), "0, 1", "0, 99", 2, "FALSE"), INV[:3], view=False, label="Ord longer sequences")]
    ops, n = [], 0
    for keys, c, label in ((flat + ["iiii"], ("0, 1", "0, 1, 99", 0), "values"), (["si", "sd", "sn"], ("0, 1", "0, 99", 3 if ck.quick else 4), "sequences"), (["sp", "spd"], ("0, 1", "0, 99", 2), "sequences of pairs")):
        e = ck.model_check("Ord", CONST % (q(keys), *c, "FALSE"), [], emit=True, view=False, label="Ord %s (emitted)" % label)
        for _, o, _ in e:
            n += 1
            k = o[1]
            if k in seq:
                for _ in range(2): ops.append(o + [kinds(rng, k, o[2]), kinds(rng, k, o[3])])
            else:
                for f in FORMS.get(k, ["tt"]): ops.append(o + list(f))
    ck.extra["pairs_enumerated"] = n
    for _ in range(8000 if ck.quick else 200000):
        k = rng.choice(flat + ["iiii"] + seq)
        a = rnd(rng, k)
        b = near(rng, a) if rng.random() < 0.6 else rnd(rng, k)
        if k in seq:
            r = rng.random()
            if r < 0.2 and b: b = b[:rng.randrange(len(b))]
            ops.append(["cmp", k, a, b, kinds(rng, k, a), kinds(rng, k, b)])
        else: ops.append(["cmp", k, a, b] + list(rng.choice(FORMS.get(k, ["tt"]))))
    [exe] = exe.result()
    rng.shuffle(ops)
    ck.conform("ord", exe, [], [Seg(R, ops[i:i + 100] + [R], "comparisons") for i in range(0, len(ops), 100)], "TraceOrd", CFG, corrupt=corrupt)
    for b in bg: b.result()

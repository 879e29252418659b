"""random expressions over the lazy operators (the language of spec/SeqAlg.tla)"""
UN = ["distinct", "reverse", "orderself", "orderdesc", "orderkeyneg", "evaluate", "force", "copy", "findtype", "cast"]
BIN = ["concat", "pairwise", "intersect", "except", "union"]
LAZY1 = ["select", "where", "take", "skip", "repeat"]
SEL, WH = ["inc", "neg", "mod3", "zero", "ten"], ["odd", "gt1", "none", "all"]

def content(rng, n=6, lo=-2, hi=6):
    return [rng.randint(lo, hi) for _ in range(rng.choice([0, 1, 1, 2, 3, n]))]

def leaf(rng, kinds=None):
    k = rng.choice(kinds or ["list", "array", "sorted", "iter", "ptrlist", "range", "empty", "dict", "group"])
    if k == "empty": return [k]
    if k == "range": return [k, rng.randint(-3, 5), rng.choice([0, 1, 2, 4])]
    if k in ("dict", "group"):
        c = content(rng, 6, 0, 4)
        return [k, [y for x in c for y in (x, rng.randint(0, 9))]]
    return [k, content(rng)]

def expr(rng, depth, kinds=None, leaves=None, pure=False):
    if depth == 0 or rng.random() < 0.05:
        return rng.choice(leaves) if leaves else leaf(rng, kinds)
    sub = lambda: expr(rng, depth - 1, kinds, leaves, pure)
    short = lambda: expr(rng, min(depth - 1, 1), kinds, leaves, pure)
    r = rng.random()
    if r < 0.5:
        o = rng.choice(LAZY1)
        a = rng.choice(SEL) if o == "select" else rng.choice(WH) if o == "where" else rng.choice([0, 1, 2, 3] * 8 + [1050000000]) if o != "repeat" else rng.choice([0, 1, 2, 3])
        return [o, a, sub()]
    if r < 0.7:
        o = rng.choice(["concat", "pairwise"] if pure else BIN)
        return [o] + ([sub(), short()] if rng.random() < 0.6 else [short(), sub()])
    if r < 0.93 or pure:
        return [rng.choice(["distinct", "copy", "findtype"] if pure else UN), sub()]
    return rng.choice([["selectmany", rng.choice(["twice", "count", "nothing"]), sub()], ["groupby", rng.choice(["mod3", "id"]), sub()]])

def small(e, limit=4):
    """number of operators that multiply elements: keeps sizes bounded"""
    if not isinstance(e, list) or not e: return 0
    n = 1 if e[0] in ("repeat", "concat", "selectmany", "union", "groupby") else 0
    return n + sum(small(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str))

def pick(rng, depth, **k):
    while True:
        e = expr(rng, depth, **k)
        if small(e) <= 4: return e

"""C18: variants hold exactly one alternative, the one last assigned."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT OneAlternative
CONSTANTS Slots = {"p", "q", "r"} Vals = {1} MaxDepth = 1 Order <- %s
"""
INV = ["OneAlternative"]
ACT = ["ErrorChangesNothing", "LastAssigned", "MoveKeepsAlternative", "Locality", "WrongTypeNeverRead"]
ORDERS = [("Order1", "VA,VB,long,Box", "a"), ("Order2", "long,Box,VB,VA", "l"), ("Order3", "VB,Box,VA,long", "b")]
S = ["p", "q", "r"]
STORES = ["new", "newm", "newidx", "newcast", "set", "setm", "setidx", "setcast"]

def corrupt(e):
    if e["o"][0] == "reset": return None
    for k in sorted(e["s"]):
        if e["s"][k][0] == "a":
            e["s"][k][0] = "b"
            return e

def history(rng, n):
    ops = []
    for _ in range(n):
        c, d, r = rng.choice(S), rng.choice(S), rng.random()
        if r < 0.35: ops.append([rng.choice(STORES), c, rng.choice("abl"), rng.randint(1, 9)])
        elif r < 0.5: ops.append([rng.choice(["get", "getc", "getm", "tryget", "trygetc", "tryapply", "tryapplyc"]), c, rng.choice("abl")])
        elif r < 0.65: ops.append([rng.choice(["newdef", "index", "apply", "applyc", "applymut", "setself"]), c])
        elif r < 0.77: ops.append([rng.choice(["unwrap", "unwrapm", "unwrapv", "unwrapvm", "unwrapk"]), c])
        elif r < 0.8: ops += [[rng.choice(["wrap", "wrapm"]), c, d], [rng.choice(["wrap", "wrapm"]), c, c]] + [[rng.choice(["unwrap", "unwrapm", "unwrapv", "unwrapvm"]), c] for _ in range(2)]
        elif r < 0.85: ops.append([rng.choice(["wrap", "wrapm"]), c, d])
        elif c != d or r < 0.92: ops.append([rng.choice(["copy", "move"]), c, d])
        else: ops.append(["copy", c, d])
        if r > 0.95 and c != d: ops.append([rng.choice(["copyctor", "movector"]), c, d])
    return ops

def run(ck):
    exes = ck.bg(ck.build, [dict(out="var-%d" % i, src="var.cpp", defines=["ORDER=" + o] + (["WIDE=32"] if i == 2 else [])) for i, (_, o, _) in enumerate(ORDERS)])
    # the graph is emitted per order because the default alternative differs
    consts = 'Slots = {"p", "q"} Vals = {1} MaxDepth = %d Order <- %s'
    es = [ck.bg(ck.model_check, "Var", consts % (1, n), INV, ACT, emit=True, label="Var " + n) for n, _, _ in ORDERS]
    deep = ck.bg(ck.model_check, "Var", ('Slots = {"p", "q"} Vals = {1, 2} MaxDepth = %d Order <- Order1' % (2 if ck.quick else 3)), INV, ACT, label="Var deeper")
    exes = exes.result()
    for exe, (name, _, dflt), e in zip(exes, ORDERS, es):
        w, k = ck.walks(e.result(), {"p": [dflt, 0], "q": [dflt, 0]}, 80)
        ck.extra.setdefault("graph_edges_replayed", {})[name] = k
        R = ["reset", S]
        if ck.quick and name != "Order1": w = w[ORDERS.index((name, _, dflt)) - 1::2]
        segs = [Seg(R, x + [R], "state graph walk") for x in w]
        segs += [Seg(R, history(ck.rng, 60) + [R], "random history") for _ in range(80 if ck.quick else 2000)]
        ck.conform("var-" + name.lower(), exe, [], segs, "TraceVar", CFG % name, corrupt=corrupt)
    deep.result()

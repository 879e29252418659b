"""Programs for sorted lists, dictionaries and groups."""
from vf.seqgen import HUGE

def sorted_boundary(rng, n):
    """build n even values in random order, then search, add and remove around each of them"""
    vals = [2 * i for i in range(1, n + 1)]
    rng.shuffle(vals)
    ops = [["add" if rng.random() < 0.5 else "addm", "a", v] for v in vals]
    for v in range(1, 2 * n + 2):
        ops.append([rng.choice(["indexof", "contains", "indexof"]), "a", v])
    ops.append(["copyctor", "b", "a"])
    probe = list(range(1, 2 * n + 2))
    rng.shuffle(probe)
    for v in probe[:14]:
        ops.append(["add", "a", v])
        ops.append(["remove", "a", v])
    rng.shuffle(vals)
    for v in vals:
        ops.append(["remove", "b", v if rng.random() < 0.9 else v + 1])
    return ops

def sorted_random(rng, hi):
    ops, n = [], 0
    L = rng.choice([40, 80, 120])
    grow = rng.choice([0.75, 0.55, 0.5])
    for _ in range(L):
        c = "a" if rng.random() < 0.85 else "b"
        r, v = rng.random(), rng.randint(1, hi)
        ix = lambda: rng.choice([-1, 0, 1, 2, 5, n // 2, n, n + 1, rng.choice(HUGE)])
        if r < 0.5:
            if rng.random() < grow:
                ops.append([rng.choice(["add", "addm", "add", "addm", "addself"]), c, v]) ; n += 1
                if ops[-1][0] == "addself": ops[-1][2] = ix()
            else:
                k = rng.choice(["remove", "remove", "removeat", "removeself", "removerange"])
                ops.append([k, c, v] if k == "remove" else [k, c, ix()] if k != "removerange" else [k, c, ix(), rng.choice([0, 1, 2, 3, -1, rng.choice(HUGE)])])
                n = max(0, n - 1)
        elif r < 0.85:
            ops.append([rng.choice(["indexof", "contains"]), c, v])
        elif r < 0.93:
            ops.append([rng.choice(["get", "at"]), c, ix()])
        elif r < 0.95:
            ops.append([rng.choice(["clear", "fresh"]), "b"])
        else:
            d = "b" if c == "a" else "a"
            ops.append([rng.choice(["move", "movector", "copyctor"]), c, d])
    return ops

ADDS = ["add", "addcm", "addmc", "addmm", "addpair", "addpairm"]
SETS = ["set", "setcm", "setmc", "setmm"]

def dict_random(rng, hi):
    ops = []
    for _ in range(rng.choice([50, 90])):
        c = "a" if rng.random() < 0.8 else "b"
        r, k, v = rng.random(), rng.randint(1, hi), rng.randint(1, 50)
        if r < 0.25: ops.append([rng.choice(ADDS), c, k, v])
        elif r < 0.45: ops.append([rng.choice(SETS), c, k, v])
        elif r < 0.55: ops.append([rng.choice(["addself", "setself"]), c, k, rng.randint(1, hi)])
        elif r < 0.68: ops.append(["remove", c, k])
        elif r < 0.72: ops.append(["removeself", c, rng.choice([-1, 0, 1, 3, 8])])
        elif r < 0.9: ops.append([rng.choice(["get", "at", "haskey"]), c, k])
        elif r < 0.93: ops.append(["count", c])
        elif r < 0.95: ops.append([rng.choice(["clear", "fresh"]), "b"])
        else: ops.append([rng.choice(["move", "movector"]), c, "b" if c == "a" else "a"])
    return ops

def group_random(rng, hi, hv):
    ops = []
    for _ in range(rng.choice([50, 90])):
        c = "a" if rng.random() < 0.65 else "b"
        r, k, v = rng.random(), rng.randint(1, hi), rng.randint(1, hv)
        if r < 0.4: ops.append([rng.choice(ADDS), c, k, v])
        elif r < 0.47: ops.append(["addself", c, k, rng.randint(1, hi), rng.choice([0, 0, 1, 2])])
        elif r < 0.62: ops.append(["remove", c, k, v])
        elif r < 0.68: ops.append(["removekey", c, k])
        elif r < 0.72: ops.append(["removeself", c, k, rng.choice([0, 1, 2])])
        elif r < 0.8: ops.append([rng.choice(["get", "at", "haskey"]), c, k])
        elif r < 0.84: ops.append(["has", c, k, v])
        elif r < 0.87: ops.append(rng.choice([["count", c], ["getbyindex", c, rng.choice([-1, 0, 1, 4, 9])]]))
        elif r < 0.94: ops.append(["join", c, rng.choice(["a", "b"])])
        elif r < 0.96: ops.append([rng.choice(["clear", "fresh"]), c])
        else: ops.append([rng.choice(["move", "movector"]), c, "b" if c == "a" else "a"])
    return ops

def dict_big(rng, n):
    """n keys added in random order, looked up, replaced, moved and removed again"""
    keys = rng.sample(range(1, 2 * n), n)
    ops = [[rng.choice(ADDS + SETS), "a", k, rng.randint(1, 50)] for k in keys]
    for k in rng.sample(range(0, 2 * n + 1), n // 2): ops.append([rng.choice(["get", "at", "haskey"]), "a", k])
    for k in rng.sample(keys, n // 3): ops.append([rng.choice(SETS + ADDS), "a", k, rng.randint(51, 90)])
    ops.append([rng.choice(["move", "movector"]), "b", "a"])
    for k in rng.sample(range(1, 2 * n), n): ops.append(["remove", "b", k])
    return ops + [["count", "b"], ["count", "a"]]

def group_big(rng, n):
    """n keys, one of them with n values, joined with another group and taken apart"""
    keys = rng.sample(range(1, 2 * n), n)
    big = keys[0]
    ops = [[rng.choice(ADDS), "a", k, rng.randint(1, 9)] for k in keys] + [[rng.choice(ADDS), "a", big, 10 + i] for i in range(n)]
    ops += [[rng.choice(ADDS), "b", k, rng.randint(1, 9)] for k in rng.sample(range(1, 2 * n), n // 2)]
    ops += [["join", "a", "b"], ["join", "b", "a"], ["get", "a", big], ["removeself", "a", big, n // 2]]
    for i in rng.sample(range(n), n // 2): ops.append(["remove", "a", big, 10 + i])
    ops.append([rng.choice(["move", "movector"]), "b", "a"])
    for k in rng.sample(keys, n // 2): ops.append(["removekey", "b", k])
    return ops + [["join", "a", "b"], ["has", "b", big, 10], ["count", "b"]]

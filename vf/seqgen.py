"""Random long histories for sequences (the specification judges the outcome)."""

HUGE = [1050000000, 1049999999, 1049999990, 1000000000, -1050000000, -1049999999]   # see vf::ext

def allowed(elem):
    if elem == "vf::MoveOnly":
        no = {"add", "addself", "insert", "insertself", "removeself", "set", "setself", "fromraw"}
        return lambda o: o[0] not in no
    return lambda o: True

def random_list(rng, cs, length=None, big=None):
    """phases of growth and shrinkage so that capacity changes happen at many sizes"""
    ops, size = [], {c: 0 for c in cs}
    length = length or rng.choice([60, 100, 160])
    big = big or rng.choice([4, 9, 17, 40])
    mode = "grow"
    nv = rng.choice([2, 5, 30])
    while len(ops) < length:
        c = rng.choice(cs) if rng.random() < 0.3 else cs[0]
        n = size[c]
        if n >= big: mode = "shrink"
        if n <= 0: mode = "grow"
        if rng.random() < 0.04: mode = rng.choice(["grow", "shrink"])
        def ix(extra=0):
            r = rng.random()
            if r < 0.01: return rng.choice(HUGE)
            if r < 0.06: return -1
            if r < 0.10: return n + 1
            if r < 0.2: return n
            if r < 0.3: return 0
            return rng.randint(0, max(0, n - 1 + extra))
        v = rng.randint(1, nv)
        r = rng.random()
        if r < 0.45:
            if mode == "grow":
                k = rng.choice(["add", "addm", "insert", "insertm", "addself", "insertself", "addselfm"])
                if k in ("add", "addm"): ops.append([k, c, v]); size[c] += 1
                elif k in ("insert", "insertm"):
                    i = ix(1); ops.append([k, c, i, v]); size[c] += 0 <= i <= n
                elif k == "addself":
                    i = ix(); ops.append([k, c, i]); size[c] += 0 <= i < n
                elif k == "addselfm":
                    i = ix(); ops.append([k, c, i, v]); size[c] += 0 <= i < n
                else:
                    i, j = ix(1), ix(); ops.append([k, c, i, j]); size[c] += (0 <= i <= n and 0 <= j < n)
            else:
                k = rng.choice(["remove", "removeat", "removeat", "removerange", "removeself"])
                if k == "remove": ops.append([k, c, v]); size[c] -= 0  # unknown; corrected below
                elif k == "removeat":
                    i = ix(); ops.append([k, c, i]); size[c] -= 0 <= i < n
                elif k == "removeself":
                    i = ix(); ops.append([k, c, i]); size[c] -= 0 <= i < n
                else:
                    i = ix(1); m = rng.choice([0, 1, 1, 2, 3, n // 2, n - i if abs(i) < 10**6 else 1, n - i + 1 if abs(i) < 10**6 else 2, -1, n, 1, rng.choice(HUGE)])
                    ops.append([k, c, i, m]); size[c] -= m if (0 <= i <= n and 0 <= m <= n and i + m <= n) else 0
        elif r < 0.65:
            k = rng.choice(["set", "setm", "assignat", "setself"])
            ops.append([k, c, ix(), ix() if k == "setself" else v])
        elif r < 0.78:
            ops.append([rng.choice(["get", "at", "atm"]), c, ix()])
        elif r < 0.9:
            ops.append([rng.choice(["indexof", "contains"]), c, rng.randint(1, nv + 1)])
        elif r < 0.92:
            ops.append([rng.choice(["clear", "fresh"]), c]); size[c] = 0
        elif r < 0.95 and len(cs) > 1:
            d = rng.choice([x for x in cs if x != c])
            ops.append([rng.choice(["move", "movector"]), c, d]); size[c], size[d] = size[d], 0
        else:
            for _ in range(rng.randint(1, 6) if big <= 40 else rng.randint(1, big // 3)):
                ops.append(["add", c, rng.randint(1, nv)]); size[c] += 1
    return ops

def random_array(rng, cs, length=None):
    ops, size = [], {c: 0 for c in cs}
    length = length or rng.choice([30, 60])
    nv = rng.choice([2, 5, 30])
    while len(ops) < length:
        c = rng.choice(cs)
        n = size[c]
        def ix():
            return rng.choice([-1, 0, n, n + 1, n // 2, rng.choice(HUGE)]) if rng.random() < 0.3 else rng.randint(0, max(0, n - 1))
        r, v = rng.random(), rng.randint(1, nv)
        if r < 0.2:
            m = rng.choice([-1, 0, 1, n, n + 1, max(0, n - 1), n * 2, rng.randint(0, 20), rng.randint(60, 130)])
            m = min(m, 130)
            ops.append([rng.choice(["new", "resize", "resize"]), c, m])
            if m >= 0: size[c] = m
        elif r < 0.3:
            s = [rng.randint(1, nv) for _ in range(rng.choice([0, 1, 2, 7, 12]))]
            ops.append(["fromraw", c, s]); size[c] = len(s)
        elif r < 0.6:
            k = rng.choice(["set", "setm", "assignat", "setself"])
            ops.append([k, c, ix(), ix() if k == "setself" else v])
        elif r < 0.75:
            ops.append([rng.choice(["get", "at", "atm"]), c, ix()])
        elif r < 0.9:
            ops.append([rng.choice(["indexof", "contains"]), c, rng.randint(0, nv + 1)])
        elif len(cs) > 1:
            d = rng.choice([x for x in cs if x != c])
            ops.append([rng.choice(["move", "movector"]), c, d]); size[c], size[d] = size[d], 0
    return ops

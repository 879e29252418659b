"""C14: number/text conversion is exact over the whole range."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Codes = {1} MaxLen = 1 Small = 1
"""
R = ["reset"]
RANGE = {"i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}
WIDE = {"i32": (-2**63, 2**63 - 1), "u32": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}   # what the formatting functions take

def corrupt(e):
    if e["r"][0] == "ok" and len(e["r"]) > 1:
        e["r"][1][1][-1] ^= 1
        return e

def limbs(v):
    v, r = abs(v), []
    while True:
        r.insert(0, v % 10000); v //= 10000
        if not v: return r

def interesting(rng, lo, hi, n):
    c = set()
    for b in range(65):
        for d in (-1, 0, 1): c |= {2**b + d, -(2**b) + d}
    for b in range(20):
        for d in (-1, 0, 1): c |= {10**b + d, -(10**b) + d}
    c |= {0, lo, lo + 1, hi - 1, hi}
    c = sorted(x for x in c if lo <= x <= hi)
    for _ in range(n):
        b = rng.randrange(1, 65)
        c.append(max(lo, min(hi, rng.choice([1, -1]) * rng.randrange(2**(b - 1), 2**b))))
    return c

def spoil(rng, t):
    t = [ord(c) for c in t]
    r = rng.random()
    i = rng.randrange(len(t) + 1)
    if r < 0.15: return [rng.choice([32, 9, 43, 48, 45])] + t
    if r < 0.3: return t + [rng.choice([32, 48, 46, 120, 57, 0xA0])]
    if r < 0.45: t[i:i] = [rng.choice([32, 45, 43, 44, 95, 48, 0x660, 101])]; return t
    if r < 0.6: del t[i:i + 1]; return t
    if r < 0.7: return t * 2
    if r < 0.8 and t: t[rng.randrange(len(t))] = rng.choice([47, 58, 0xFF11, 97, 48]); return t
    if t and t[-1] in range(48, 58): t[-1] = rng.randrange(48, 58)      # another value near the end of the range
    return t

def fraction(rng):
    """decimal notation that a double and six decimals keep exactly"""
    d = lambda n: "".join(rng.choice("0123456789" if rng.random() < 0.8 else "09") for _ in range(n))
    if rng.random() < 0.2: i, f = d(rng.randrange(1, 16)), rng.choice(["", ".", ".0", ".000"])
    else:
        i, f = d(rng.randrange(0, 10)), d(rng.randrange(0, 7))
        f = "." + f if f else rng.choice(["", "."])
        if not any(c.isdigit() for c in i + f): i = d(1)
    if rng.random() < 0.15: i = "0" * rng.randrange(1, 4) + i
    if "." in f and rng.random() < 0.3: f += "0" * rng.randrange(1, 12)
    sign = rng.choice(["", "", "-", "+"])
    if sign == "-" and not (i + f).strip("0."): sign = ""
    return sign + i + f

def notnumber(rng, t):
    i = rng.randrange(len(t) + 1)
    r = rng.random()
    if r < 0.1: return ""
    if r < 0.3: t = t[:i] + rng.choice("+-.,z ") + t[i:]
    elif r < 0.45: t = t + rng.choice(["z", " ", ".", "-", ",", "$"])
    elif r < 0.6: t = "".join(rng.choice("+-.0") for _ in range(rng.randrange(1, 5)))
    elif r < 0.7: t = t + t
    elif r < 0.8: t = t[:i] + t[i + 1:]
    elif r < 0.9: t = rng.choice("z,$#") + t
    t = t.lstrip(" ")
    b = t.lstrip("+-")
    if t[:1] == "-" and not b.strip("0."): t = t[1:]
    return t

def exact(t):
    """mirrors the bounds of Exact in the specification: other notations are not asked about"""
    b = t[1:] if t[:1] in ("+", "-") and t else t
    if b.count(".") > 1 or not all(c in "0123456789." for c in b) or not any(c.isdigit() for c in b): return True
    i, _, f = b.partition(".")
    i, f = i.lstrip("0"), f.rstrip("0")
    return (len(i) <= 15 if not f else len(i) <= 9 and len(f) <= 6) and not (t[:1] == "-" and not i + f)

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="num", src="num.cpp")])
    inv = ["TextsAreForms", "OnlyForms", "Forms", "Order", "CaseLaws"]
    m = ck.bg(ck.model_check, "Num", "Codes = {45, 48, 49, 57, 32, 43, 120} MaxLen = %d Small = %d" % ((4, 120) if ck.quick else (6, 120)), ["TextsAreForms", "OnlyForms"], label="Num texts")
    m2 = ck.bg(ck.model_check, "Num", "Codes = {48} MaxLen = 0 Small = %d" % (30000 if ck.quick else 400000), ["Forms", "Order", "CaseLaws"], label="Num numbers")
    e = ck.model_check("Num", "Codes = {45, 48, 49, 57, 32, 43, 120} MaxLen = %d Small = 120" % (3 if ck.quick else 4), ["TextsAreForms", "OnlyForms"], emit=True, label="Num texts (emitted)")
    import json
    fr = ck.model_check("Num", "Codes = {45, 48, 57, 43, 46, 122} MaxLen = %d Small = 1" % (4 if ck.quick else 5), ["FractionLaws"], emit=True, label="Num fractions")
    frac = [json.loads(x) for x in sorted({t for s, o, t in fr} | {"[]"})]
    short = [json.loads(x) for x in sorted({t for s, o, t in e} | {"[]"})]
    exe = exe.result()[0]
    ops = []
    for k in RANGE:
        for v in interesting(rng, *WIDE[k], 300 if ck.quick else 20000):
            for c in "aw": ops.append(["fmt", c, k, int(v < 0), limbs(v)])
        cand = interesting(rng, RANGE["i64"][0] - 10, 2**64 + 10, 300 if ck.quick else 20000)
        cand += [x + d for x in RANGE[k] for d in range(-3, 4)] + [10**30, -10**30]
        for v in cand:
            for c in "aw":
                t = [ord(x) for x in str(v)]
                ops.append([rng.choice(["parse", "parse", "value"]), c, k, t])
        for _ in range(400 if ck.quick else 20000):
            t = spoil(rng, str(rng.choice(cand)))
            t = [x for x in t if x]
            ops.append([rng.choice(["parse", "value"]), "w", k, t])
            ops.append([rng.choice(["parse", "value"]), "a", k, [x & 0xFF or 49 for x in t]])
        for t in short:
            for c in "aw": ops.append(["parse", c, k, t])
    for _ in range(1500 if ck.quick else 60000):
        t = fraction(rng)
        if rng.random() < 0.35: t = notnumber(rng, t)
        if exact(t): ops.append([rng.choice(["fparse", "fparse", "fvalue"]), rng.choice("aw"), "f", [ord(c) for c in t]])
    for t in frac:
        if exact("".join(map(chr, t))) and t[:1] != [32]: ops += [["fparse", c, "f", t] for c in "aw"]
    ck.extra["short_texts"] = len(short)
    rng.shuffle(ops)
    segs = [Seg(R, ops[i:i + 200] + [R], "numbers") for i in range(0, len(ops), 200)]
    def case(env):
        o = []
        for n in ("lower", "upper"):
            o += [[n, "a", env, list(range(b, b + 16))] for b in range(16, 256, 16)] + [[n, "a", env, list(range(1, 16))]]
            if env == "c": pool = list(range(1, 0x3000)) + [0x4E2D, 0xFFFF, 0x10400, 0x10428, 0x1F600, 0x10FFFF]
            else: pool = [c for lo, hi in ((1, 0xAA), (0xAB, 0xB4), (0xB6, 0xDE), (0xE0, 0xFE), (0x391, 0x3A1), (0x3A3, 0x3AB), (0x3B1, 0x3C1), (0x3C3, 0x3CB), (0x400, 0x45F), (0x531, 0x556), (0x561, 0x586), (0x4E00, 0x4E40), (0x10400, 0x1044F), (0x1F600, 0x1F610)) for c in range(lo, hi + 1)]
            for i in range(0, len(pool), 64): o.append([n, "w", env, pool[i:i + 64]])
            for _ in range(60 if ck.quick else 2000):
                o.append([n, "w", env, [rng.choice(pool) for _ in range(rng.randrange(0, 12))]])
                o.append([n, "a", env, [rng.choice(range(1, 256)) for _ in range(rng.randrange(0, 12))]])
        return [Seg(R, o[i:i + 100] + [R], "case conversion") for i in range(0, len(o), 100)]
    ck.conform_multi("num", [("num-c", exe, ["c"], segs + case("c")), ("num-uni", exe, ["uni"], segs[::4] + case("uni"))], "TraceNum", CFG, corrupt=corrupt)
    m.result(); m2.result()

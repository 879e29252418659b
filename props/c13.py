"""C13: Unicode conversions round-trip and reject ill-formed input."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT ReaderAgrees ClusterIsEncoding EndIsEnd
CONSTANTS MaxLen = 1 Points = {1}
"""
R = ["reset"]
K = ["u8", "u16", "be", "u32", "w"]
WHOLE = [(f, t) for f in ("u8", "u16", "u32", "w") for t in ("u8", "u16", "u32", "w") if f != t]
EDGES = [1, 0x41, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF]
BEYOND = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, -1, -2147483648]

def corrupt(e):
    if e["r"][0] == "unit":
        e["r"][4] += 1
        return e
    if e["r"][0] == "text" and e["r"][1]:
        e["r"][1][-1] ^= 1
        return e

def enc(k, v):      # used only to aim at well-formed texts; the specification judges
    if k in ("u32", "w"): return [v]
    if v < 0: return [0x80]
    if k == "u8":
        if v < 0x80: return [v]
        n = 2 if v < 0x800 else 3 if v < 0x10000 else 4 if v < 0x200000 else 5 if v < 0x4000000 else 6
        return [((0xFF00 >> n) & 0xFF) | (v >> (6 * (n - 1)))] + [0x80 | ((v >> (6 * i)) & 0x3F) for i in range(n - 2, -1, -1)]
    u = [v & 0xFFFF] if v < 0x10000 else [0xD800 + ((v - 0x10000) >> 10 & 0x3FF), 0xDC00 + ((v - 0x10000) & 0x3FF)]
    return u if k == "u16" else [((x & 255) << 8) | (x >> 8) for x in u]

def text(rng, k, n):
    out = []
    for _ in range(n):
        r = rng.random()
        v = rng.choice(EDGES) if r < 0.4 else rng.randrange(1, 0x110000) if r < 0.9 else rng.choice(EDGES)
        if 0xD800 <= v < 0xE000: v = 0x20AC
        if k in ("u8", "u32", "w") and rng.random() < 0.08: v = rng.choice([0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF, rng.randrange(0x110000, 0x7FFFFFFF)])
        out += enc(k, v)
    if rng.random() < 0.5 and out:      # spoil it
        for _ in range(rng.choice([1, 1, 2])):
            i, r = rng.randrange(len(out)), rng.random()
            if r < 0.3: del out[i]
            elif r < 0.5: out[i:i] = enc(k, rng.choice(BEYOND))
            elif r < 0.6: out = out[:i]
            else: out[i] = {"u8": rng.randrange(1, 256), "u16": rng.choice([0xD800, 0xDC00, rng.randrange(1, 65536)]), "be": rng.choice([0xD8, 0xDC, rng.randrange(1, 65536)])}.get(k, rng.choice(BEYOND + EDGES))
            if not out: break
    return [x for x in out if x != 0]

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="utf", src="utf.cpp")])
    chars = ck.bg(ck.model_check, "Utf", "MaxLen = %d Points = {%s}" % (2 if ck.quick else 3, ", ".join(map(str, EDGES))), ["RoundTrip"], label="Utf character sequences", spec="CharSpec")
    deep = ck.bg(ck.model_check, "Utf", "MaxLen = %d Points = {1}" % (3 if ck.quick else 4), ["ReaderAgrees", "ClusterIsEncoding", "ReadsEnd", "EndIsEnd"], ["Progress"], label="Utf readers")
    e = ck.model_check("Utf", "MaxLen = %d Points = {1}" % 2, ["ReaderAgrees", "ClusterIsEncoding", "ReadsEnd", "EndIsEnd"], ["Progress"], emit=True, label="Utf readers (emitted)")
    texts = ck.model_check("Utf", "MaxLen = %d Points = {1}" % (2 if ck.quick else 3), ["TextRet"], emit=True, label="Utf texts", spec="TextSpec", view=False)
    opens = [o for s, o, t in e if o[0] == "open"]
    ck.extra["graph_edges_replayed"] = len(e)
    exe = exe.result()[0]
    segs = []
    # every reader state of the model is on the one path from its opening: read every opened text to its end
    for i in range(0, len(opens), 60):
        ops = []
        for o in opens[i:i + 60]:
            m = rng.choice("zrc")
            ops.append(["open", m] + o[2:])
            ops += [["read"]] * (2 + (len(o[4]) + 1) * (1 if o[3] in ("u32", "w") else 2 if o[3] != "u8" else 3))
        segs.append(Seg(R, ops + [R], "state graph of readers"))
    tx = [o for s, o, t in texts]
    rng.shuffle(tx)
    if ck.quick: tx = tx[:3500]
    segs += [Seg(R, tx[i:i + 100] + [R], "all short texts") for i in range(0, len(tx), 100)]
    # long texts, well-formed or spoilt in one place, in every pair of encodings
    for _ in range(60 if ck.quick else 1500):
        ops = []
        for _ in range(6):
            f, t = rng.choice(K), rng.choice(K)
            x = text(rng, f, rng.randrange(1, 9))
            ops.append(["open", rng.choice("zrc"), f, t, x])
            ops += [["read"]] * (len(x) * 2 + 3)
            ops.append(["conv", f, t, x])
            f, t = rng.choice(WHOLE)
            x = text(rng, f, rng.randrange(0, 7))
            ops += [["conv", f, t, x], ["size", f, t, x], ["into", f, t, x, rng.choice([0, 1, 2, 3, 5, 8, 40])]]
        segs.append(Seg(R, ops + [R], "random texts"))
    # texts longer than every internal buffer
    for n in ((17, 33, 130) if ck.quick else (16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 200, 257, 1025)):
        for f, t in WHOLE:
            vs = [rng.choice(EDGES) for _ in range(n)]
            x = [c for v in vs for c in enc(f, v)]
            ops = [["conv", f, t, x], ["size", f, t, x], ["into", f, t, x, rng.choice([n - 1, n, n + 1, 4 * n + 1])], ["open", rng.choice("zrc"), f, t, x]] + [["read"]] * ((n + 20 if n < 40 else 5) if ck.quick else n * 3 + 3)
            segs.append(Seg(R, ops + [R], "long texts"))
    # narrow text: characters of every length, spoilt by bytes that no encoding contains, by cutting and by surrogates
    for _ in range(25 if ck.quick else 500):
        ops = []
        for _ in range(8):
            vs = [v for v in (rng.choice(EDGES + [0x20AC, 0xE9, rng.randrange(1, 0xD800), rng.randrange(0xE000, 0x110000)]) for _ in range(rng.randrange(0, 8)))]
            f, t = rng.choice([("a", rng.choice(["w", "u8", "u16", "u32"])), (rng.choice(["w", "u8", "u16", "u32"]), "a")])
            x = [c for v in vs for c in enc("u8" if f == "a" else f, v)]
            if rng.random() < 0.4:
                i = rng.randrange(len(x) + 1)
                x = {"a": rng.choice([x[:i] + [rng.choice([0x80, 0xBF, 0xC0, 0xC1, 0xFE, 0xFF])] + x[i:], x[:i], x[:i] + [0xED, 0xA0, 0x80] + x[i:], x[:i] + [0xE0, 0x80, 0x80]]),
                     "u8": x[:i], "u16": rng.choice([x[:i], x[:i] + [0xDC00]]), "u32": x[:i] + [0xD800] + x[i:], "w": x[:i] + [0xDFFF] + x[i:]}[f]
            ops.append(["narrow", f, t, x])
        segs.append(Seg(R, ops + [R], "narrow texts"))
    # single characters: every value in thorough runs, the edges and a sample in quick ones
    B = 256
    blocks = list(range(0, 0x110000, B))
    quick = sorted(set([b for b in blocks if any(b <= v + d < b + B for v in EDGES + BEYOND for d in (-1, 0, 1))] + rng.sample(blocks, 60)))
    for b in (quick if ck.quick else blocks):
        segs.append(Seg(R, [["enc", k, b, B] for k in ("u8", "u16", "be", "w")], "single characters"))
    segs.append(Seg(R, [["enc", k, v, 1] for k in ("u8", "u16", "be") for v in BEYOND] + [["enc", "u8", rng.randrange(0x110000, 0x7FFFFF00), 64] for _ in range(20)] + [["enc", "u16", rng.randrange(0x110000, 0x7FFFFF00), 64] for _ in range(5)], "values beyond"))
    # single sequences of code units
    for lead in (range(0x80, 0x100)):
        ops = [["dec", "u8", [lead], 0, 256, []]]
        if lead >= 0xE0:
            ops += [["dec", "u8", [lead, c], 0, 256, []] for c in (0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0)]
            ops += [["dec", "u8", [lead], 0, 256, s] for s in ([0x80], [0xBF, 0x80], [0x80, 0x80, 0x80], [0x80] * 4, [0xBF] * 4, [0x80] * 5, [0x41] * 3)]
            for _ in range(4 if ck.quick else 60):
                u = [lead] + [rng.choice([0x80, 0xBF, rng.randrange(256)]) for _ in range(rng.randrange(1, 5))]
                ops.append(["dec", "u8", u, 0, 256, [0x80] * rng.randrange(0, 3)])
        segs.append(Seg(R, ops, "single byte sequences"))
    segs.append(Seg(R, [["dec", "u8", [], 0, 256, []]] + [["dec", k, [], b, B, []] for k in ("u16", "be") for b in (range(0, 65536, B) if not ck.quick else [0, 0x4100, 0xD700, 0xD800, 0xDB00, 0xDC00, 0xDF00, 0xE000, 0xFF00])], "single units"))
    for k, h in [("u16", [0xD800, 0xD8AB, 0xDBFF, 0xDC00, 0xDFFF, 0xE000]), ("be", [0x00D8, 0xABD8, 0xFFDB, 0x00DC, 0xFFDF])]:
        segs.append(Seg(R, [["dec", k, [x], b, B, rng.choice([[], [0xDC00]])] for x in h for b in (range(0, 65536, B) if not ck.quick else [0, 0x4100, 0xD700, 0xD800, 0xDB00, 0xDC00, 0xDD00, 0xDE00, 0xDF00, 0xE000, 0xFF00])], "surrogates"))
    ck.conform("utf", exe, [], segs, "TraceUtf", CFG, corrupt=corrupt)
    chars.result(); deep.result()

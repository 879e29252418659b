"""C12: strings are immutable values equal to their character sequence."""
from vf.core import Seg
from vf.seqgen import HUGE

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT CmpIsOrder
CONSTANTS Slots = {"a", "b", "c", "d"} Chars = {1} MaxLen = 1
"""
INV, ACT = ["CmpIsOrder", "SliceJoin"], ["Immutable", "ReadsChangeNothing", "ErrorChangesNothing"]
S = ["a", "b", "c", "d"]
R = ["reset", S]
TYPES = [("char", "char8_t", "'A'", "'a'", "'~'"), ("wchar_t", "char32_t", "L'A'", "(wchar_t)0x4E2D", "(wchar_t)0x10FFFF"), ("char8_t", "char", "u8'A'", "(char8_t)0x80", "(char8_t)0xFF"),
         ("char16_t", "vl::vuint16_t", "u'A'", "(char16_t)0x7FFF", "(char16_t)0xFFFF"), ("char32_t", "wchar_t", "U'A'", "(char32_t)0x4E2D", "(char32_t)0x10FFFF")]

def corrupt(e):
    for k in S:
        if len(e["s"][k]) > 1:
            e["s"][k] = e["s"][k][:-1]
            return e

def text(rng, n=7, zero=False):
    return [rng.choice(([0] if zero else []) + [1, 1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3, n]))]

def history(rng, n, lim=40):
    ops, ln = [], {s: 0 for s in S}     # lengths are only tracked to aim at interesting positions
    def pos(k): return rng.choice([-1, 0, 0, 1, k // 2, k - 1, k, k, k + 1] + ([rng.choice(HUGE)] if rng.random() < 0.2 else []))
    for _ in range(n):
        r, d, a, b = rng.random(), rng.choice(S), rng.choice(S), rng.choice(S)
        if r < 0.14:
            o = rng.choice(["lit", "unmanaged", "copyfrom", "takeover"])
            t = text(rng, 7, o in ("copyfrom", "takeover") and rng.random() < 0.3); ops.append([o, d, t]); ln[d] = len(t)
        elif r < 0.15: ops.append(["fromchar", d, rng.choice([1, 2, 3])]); ln[d] = 1
        elif r < 0.23: ops.append([rng.choice(["assign", "copy", "cast"]), d, a]); ln[d] = ln[a]
        elif r < 0.28:
            ops.append([rng.choice(["move", "movector"]), d, a])
            if d != a: ln[d], ln[a] = ln[a], 0
        elif r < 0.36:
            k = pos(ln[a]); ops.append([rng.choice(["left", "right"]), d, a, k])
            if 0 <= k <= ln[a]: ln[d] = k
        elif r < 0.52:
            i = pos(ln[a]); j = i if abs(i) < 10**6 else 0; k = rng.choice([-2, -1, 0, 1, 2, ln[a] - j, ln[a] - j - 1, ln[a] - j + 1, rng.choice(HUGE)]); o = rng.choice(["sub", "remove"])
            ops.append([o, d, a, i, k])
            if 0 <= i <= ln[a] and k >= 0 and i + k <= ln[a] and (o == "sub" or i < ln[a]): ln[d] = k if o == "sub" else ln[a] - k
        elif r < 0.6:
            i = pos(ln[a])
            if ln[a] + ln[b] > lim: continue
            ops.append(["insert", d, a, i, b])
            if 0 <= i <= ln[a]: ln[d] = ln[a] + ln[b]
        elif r < 0.72:
            t = text(rng); o = rng.choice(["concat", "append", "appendlit", "concatlit", "litconcat"])
            if max(ln.values()) * 2 > lim: continue
            ops.append({"concat": ["concat", d, a, b], "append": ["append", d, a], "appendlit": ["appendlit", d, t], "concatlit": ["concatlit", d, a, t], "litconcat": ["litconcat", d, t, a]}[o])
            ln[d] = {"concat": ln[a] + ln[b], "append": ln[d] + ln[a], "appendlit": ln[d] + len(t), "concatlit": ln[a] + len(t), "litconcat": ln[a] + len(t)}[o]
        elif r < 0.86: ops.append(["buffer", a])
        elif r < 0.9: ops.append(["index", a, pos(ln[a])])
        elif r < 0.93: ops.append(["indexof", a, rng.choice([0, 1, 2, 3])])
        elif r < 0.96: ops.append(["cmp", a, b])
        elif r < 0.99: ops.append(["cmplit", a, text(rng)])
        else: ops.append(["badmake", rng.choice(["null", "unmanagednull", "copyneg", "takeneg", "takeopen"])])
    return ops

def slices(rng, n):
    """several views of one text, compared and combined with each other"""
    ops = []
    while len(ops) < n:
        L = rng.choice([2, 3, 4, 5, 7, 9])
        t = [rng.choice([1, 2, 2, 3]) for _ in range(L)]
        ops.append([rng.choice(["lit", "copyfrom", "takeover", "unmanaged"]), "a", t])
        for d in ("b", "c"):
            i = rng.randrange(L + 1); k = rng.randrange(L - i + 1)
            ops.append(rng.choice([["sub", d, "a", i, k], ["left", d, "a", k], ["right", d, "a", k]]))
        if rng.random() < 0.5: ops.append(["buffer", rng.choice(["a", "b", "c"])])
        for x, y in rng.sample([("a", "b"), ("b", "a"), ("b", "c"), ("c", "b"), ("a", "c"), ("c", "c")], 4): ops.append(["cmp", x, y])
        r = rng.random()
        if r < 0.4: ops.append(["concat", "d", rng.choice("abc"), rng.choice("bc")])
        elif r < 0.6: ops.append(["insert", "d", rng.choice("abc"), rng.choice([0, 1]), rng.choice("abc")])
        elif r < 0.8: ops.append(["append", rng.choice("bc"), rng.choice("abc")])
        ops += [["cmp", "d", rng.choice("abc")], ["cmp", rng.choice("abc"), "d"]]
    return ops

def run(ck):
    rng = ck.rng
    exes = ck.bg(ck.build, [dict(out="str-" + t[0], src="str.cpp", defines=["CT=" + t[0], "CT2=" + t[1], "C1=" + t[2], "C2=" + t[3], "C3=" + t[4]]) for t in TYPES])
    deep = ck.bg(ck.model_check, "Str", 'Slots = {"a", "b"} Chars = {1, 2} MaxLen = %d' % (3 if ck.quick else 4), INV, ACT, label="Str deeper")
    e = ck.model_check("Str", 'Slots = {"a", "b"} Chars = {1, 2} MaxLen = %d' % (2 if ck.quick else 3), INV, ACT, emit=True)
    # the representation: it refines Str, and the programs below visit its states (views, borrowed and shared buffers)
    RC, RI, RP = 'Slots = {"a", "b"} Chars = {1, 2} MaxLen = %d Bug = "%s" Few = %s', ["Exact", "Inside"], ["Refines", "Terminated"]
    reps = [ck.bg(ck.reject, "StrRep", RC % (2, "real", "TRUE"), RI, RP, label="StrRep wrong end", workers=1),
            ck.bg(ck.reject, "StrRep", RC % (2, "leak", "TRUE"), RI, RP, label="StrRep leak", workers=1)]
    if not ck.quick: reps += [ck.bg(ck.model_check, "StrRep", RC % (2, "", "FALSE"), RI, RP, label="StrRep"), ck.bg(ck.model_check, "StrRep", RC % (3, "", "TRUE"), RI, RP, label="StrRep longer")]
    rep = ck.model_check("StrRep", RC % (2, "", "TRUE"), RI, RP, emit=True, label="StrRep walks")
    w, k = ck.walks(e, {"a": [], "b": []}, 80)
    empty = {"buf": {"k": "zero", "id": 0, "txt": []}, "start": 0, "len": 0, "real": 0}
    w2, k2 = ck.walks(rep, [{"a": empty, "b": empty}, [[], [], [], []]], 80, 0.15 if ck.quick else 1)
    ck.extra["graph_edges_replayed"] = k
    ck.extra["representation_edges_replayed"] = k2
    runs = []
    for i, (t, exe) in enumerate(zip(TYPES, exes.result())):
        ws = w if t[0] == "wchar_t" or not ck.quick else w[i::5]
        segs = [Seg(R, x + [R], "state graph walk") for x in ws] + [Seg(R, x + [R], "representation walk") for x in (w2[i::5] if ck.quick else w2)]
        # slices of slices, with and without asking for their buffers
        for _ in range(40 if ck.quick else 1500): segs.append(Seg(R, history(rng, 60) + [R], "random history"))
        for _ in range(12 if ck.quick else 300): segs.append(Seg(R, slices(rng, 60) + [R], "views of one text"))
        segs.append(Seg(R, [["badmake", x] for x in ("null", "unmanagednull", "copyneg", "takeneg", "takeopen")], "bad arguments"))
        runs.append(("str-" + t[0], exe, [], segs))
    ck.conform_multi("str", runs, "TraceStr", CFG, corrupt=corrupt)
    for f in [deep] + reps: f.result()

"""C21: date-time values are consistent with the calendar and with time arithmetic."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS Slots = {"a"} Zone = "utc" Span = 0
"""
# name, TZ, zone of the specification, first year
ZONES = [("utc", "UTC0", ["fix", 0], 1), ("east", "XYZ-5:45", ["fix", 20700], 1), ("far", "XYZ-14", ["fix", 50400], 1), ("west", "XYZ12", ["fix", -43200], 1),
         ("odd", "XYZ3:17:29", ["fix", -11849], 1),
         ("north", "EST5EDT,M3.2.0,M11.1.0", ["dst", -18000, -14400, [3, 2, 0, 7200], [11, 1, 0, 7200]], 1971),
         ("europe", "CET-1CEST,M3.5.0,M10.5.0/3", ["dst", 3600, 7200, [3, 5, 0, 7200], [10, 5, 0, 10800]], 1971),
         ("south", "AEST-10AEDT,M10.1.0,M4.1.0/3", ["dst", 36000, 39600, [10, 1, 0, 7200], [4, 1, 0, 10800]], 1971),
         ("half", "LHST-10:30LHDT-11,M10.1.0/2,M4.1.0/2", ["dst", 37800, 39600, [10, 1, 0, 7200], [4, 1, 0, 7200]], 1971)]
SLOTS = ["a", "b", "c"]

def leap(y): return y % 4 == 0 and (y % 100 or y % 400 == 0)
def mlen(y, m): return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]

def corrupt(e):
    if e["r"][0] == "val":
        e["r"][1][7] = (e["r"][1][7] + 1) % 7
        return e

def date(rng, first):
    r = rng.random()
    y = rng.choice([1900, 1904, 1969, 1970, 1971, 1999, 2000, 2001, 2004, 2024, 2037, 2038, 2039, 2100, 2106, 2400]) if r < 0.4 else rng.randrange(first, 2500) if r < 0.8 else rng.randrange(first, 10000)
    y = max(y, first)
    m = rng.choice([1, 2, 2, 3, 12, 4, 10, 11, rng.randrange(1, 13)])
    d = rng.choice([1, mlen(y, m), mlen(y, m), rng.randrange(1, mlen(y, m) + 1)])
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (1, 30, 0), (2, 30, 0), (3, 0, 0), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    return [y, m, d, h, mi, s, rng.choice([0, 999, 1, rng.randrange(1000)])]

def amount(rng, small):
    r = rng.random()
    if r < 0.3: return [0, rng.choice([0, 1, 999, 1000, 60000, 3600000, 86399999])]
    if r < 0.6: return [rng.choice([1, 27, 28, 29, 30, 31, 59, 60, 364, 365, 366, 1460, 1461]), rng.choice([0, 0, 1, 86399999])]
    return [rng.randrange(small), rng.randrange(86400000)]

def history(rng, first, n):
    ops = []
    for _ in range(n):
        a, b = rng.choice(SLOTS), rng.choice(SLOTS)
        r = rng.random()
        if r < 0.3: ops.append(["from", a, date(rng, first)])
        elif r < 0.45: ops.append(["forward", a, b, amount(rng, 150000)])
        elif r < 0.6:
            # there and back again
            u = amount(rng, 40000)
            ops += [["copy", a, b], ["forward", a, a, u], ["backward", a, a, u], ["cmp", a, b]]
        elif r < 0.65 and first < 1970: ops.append(["backward", a, b, amount(rng, 150000)])
        elif r < 0.7: ops += [["from", b, [2000 + rng.randrange(60)] + [3, 1, 0, 0, 0, 0]], ["backward", a, b, amount(rng, 9000)]]
        elif r < 0.78: ops.append(["reos", a, b])
        elif r < 0.84: ops.append(["toutc", a, b])
        elif r < 0.9: ops.append(["tolocal", a, b])
        elif r < 0.93 and a != b: ops += [["toutc", a, b], ["tolocal", a, a], ["cmp", a, b]]
        else: ops.append(["cmp", a, b])
    return ops

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="datet", src="datet.cpp")])
    inv = ["ReadWrite", "Local2", "FixedIsExact", "RoundTrip", "Arith"]
    bg = []
    for y, n in ((1600, 146097 if ck.quick else 2 * 146097), (-400, 20000 if ck.quick else 146097 * 3)):
        bg.append(ck.bg(ck.model_check, "Cal", "From = %d Days = %d" % (y + 1000, n), ["Formulas"], view=False, label="calendar from %d" % y))
    for z in ("east", "north", "south", "half"):
        bg.append(ck.bg(ck.model_check, "DateT", 'Slots = {"a"} Zone = "%s" Span = %d' % (z, 2 if ck.quick else 4), inv, label="DateT " + z))
    [exe] = exe.result()
    per = 60 if ck.quick else 800
    parts = []
    for name, tz, z, first in ZONES:
        R = ["reset", z, SLOTS]
        segs = [Seg(R, history(rng, first, 40), "random history") for _ in range(per)]
        # around every transition and at every month's end of some years
        ys = rng.sample(range(max(first, 1971), 2200), 2 if ck.quick else 60)
        for y in ys:
            ops = []
            for m in range(1, 13):
                ops += [["from", "a", [y, m, mlen(y, m), 23, 59, 59, 999]], ["forward", "b", "a", [0, 1]], ["cmp", "a", "b"], ["backward", "c", "b", [0, 1]], ["cmp", "a", "c"], ["toutc", "b", "a"], ["tolocal", "c", "b"], ["cmp", "c", "a"]]
            segs.append(Seg(R, ops, "month ends"))
            rule = [] if z[0] == "fix" else [3, 4, 10, 11]
            for m in rule:
                ops = []
                for d in range(1, mlen(y, m) + 1, 1):
                    for h in (0, 12):
                        ops += [["from", "a", [y, m, d, h, 0, 0, 0]], ["forward", "b", "a", [0, rng.choice([1, 3, 5, 7]) * 1800000 + rng.choice([0, -1, 1])]], ["toutc", "c", "b"], ["tolocal", "c", "c"], ["cmp", "c", "b"], ["reos", "a", "b"], ["cmp", "a", "b"]]
                segs.append(Seg(R, ops, "transition months"))
        segs.append(Seg(R, [["now", "a"], ["nowutc", "b"], ["tolocal", "c", "b"], ["inject"], ["now", "a"], ["toutc", "b", "a"], ["tolocal", "c", "b"], ["cmp", "a", "c"]], "now"))
        parts.append((name, exe, [tz], segs))
    ck.conform_multi("datet", parts, "TraceDateT", CFG, corrupt=corrupt)
    for b in bg: b.result()

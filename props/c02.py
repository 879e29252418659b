"""C02: threads sharing objects and texts, under every schedule of their atomic steps."""
import itertools, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vf.core import Seg, Violation, CheckError, HARN

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
KINDS = ["ptr", "com", "str", "func"]
TAKE = ["copy", "ctor", "cast", "sub", "aside", "move", "mctor"]

def corrupt(e):
    if e["o"][0] == "destroy":
        e["o"][1] = 3 - e["o"][1] if e["o"][1] in (1, 2) else 1
        return e

def prog(rng, n, slots):
    out = []
    for _ in range(n):
        o = rng.choice(TAKE + ["copy", "drop", "drop", "end", "read"])
        d = rng.randint(1, slots)
        out.append([o, d, rng.choice([x for x in range(1, slots + 1) if x != d])] if o in TAKE else [o, d])
    return out

def systematic(kinds, limit):
    """every pair of operations on one shared object, and every copy-then-drop against a drop"""
    A = [[[o, 2, 1]] for o in TAKE] + [[["drop", 1]], [["end", 1]]]
    B = A + [[["copy", 2, 1], ["drop", 1]], [["sub", 2, 1], ["end", 1], ["read", 2]], [["drop", 1], ["drop", 2]]]
    for k in kinds:
        for a, b in itertools.product(A, B):
            yield Seg(["reset"], [["run", k, [[1, 0], [1, 2 if len(b) > 2 else 0]], [a, b], limit, -1]], "pairs of operations")

def random_runs(rng, k, n, limit):
    for _ in range(n):
        t, l, s, pre = rng.choice([(2, 3, 2, 3), (2, 2, 3, -1), (3, 2, 2, 2), (3, 1, 2, -1), (4, 1, 2, 3), (2, 5, 2, 2)])
        m = rng.choice([1, 1, 2, 3])
        own = [[rng.choice([0, 1, 1] + list(range(1, m + 1))) for _ in range(s)] for _ in range(t)]
        own[0][0] = 1
        have = sorted({x for r in own for x in r} - {0})        # number the objects 1..m
        own = [[have.index(x) + 1 if x else 0 for x in r] for r in own]
        yield Seg(["reset"], [["run", k, own, [prog(rng, l, s) for _ in range(t)], limit, pre]], "random threads")

def stress(ck, exe):
    """real threads under ThreadSanitizer"""
    env = dict(os.environ, TSAN_OPTIONS="exitcode=66:halt_on_error=1")
    def go(*a):
        try:
            p = subprocess.run([exe] + [str(x) for x in a], capture_output=True, text=True, timeout=300, env=env, cwd=ck.work)
        except subprocess.TimeoutExpired:
            return -999, "timeout"
        return p.returncode, p.stdout + p.stderr
    rc, o = go("selftest")
    if rc or "ready" not in o:
        ck.notes.append("ThreadSanitizer cannot run here, the real-thread runs were skipped: " + o[-200:])
        return
    rounds, jobs = (1500, 2) if ck.quick else (40000, 8)
    runs = [(k, rounds, ck.seed * 1000 + j) for k in KINDS for j in range(jobs)]
    with ThreadPoolExecutor(4) as ex:
        for a, (rc, o) in zip(runs, ex.map(lambda a: go(*a), runs)):
            if rc == 0 and "bad 0" in o:
                continue
            if "unexpected memory mapping" in o:
                ck.notes.append("ThreadSanitizer could not start for %s" % (a,))
                continue
            rp = os.path.join(ck.work, "replay-threads-%s.txt" % a[0])
            with open(rp, "w") as f:
                f.write("harness/thr.cpp -DSTRESS -fsanitize=thread, arguments %s\nrc %d\n%s\n" % (a, rc, o[-20000:]))
            raise Violation("threads %s: rc %d %s" % (a[0], rc, " ".join(o.split())[:300]), rp)
    ck.extra["real_thread_rounds"] = rounds * jobs * len(KINDS)

def run(ck):
    inv = ["Explained", "OncePerObject", "NoUseAfterRelease", "Exact"]
    sched = ck.bg(ck.build, [dict(out="thr", src="thr.cpp", flags=("-include", os.path.join(HARN, "sched_atomic.h")))], strict=False)
    real = ck.bg(ck.build, [dict(out="thrs", src="thr.cpp", defines=["STRESS"], asan=False, flags=("-fsanitize=thread",))])
    models = [("N = 2 K = 2 M = 2 MaxOps = 2", "2 threads"), ("N = 3 K = 1 M = 2 MaxOps = 2", "3 threads, 1 slot")]
    if not ck.quick:
        models += [("N = 2 K = 2 M = 2 MaxOps = 3", "2 threads, 3 operations"), ("N = 3 K = 2 M = 1 MaxOps = 2", "3 threads"), ("N = 4 K = 1 M = 1 MaxOps = 2", "4 threads")]
    ms = [ck.bg(ck.model_check, "Thr", c + ' Bug = "none"', inv, label="Thr " + l, workers=4) for c, l in models]
    # the model can tell: the counter looked at twice is rejected
    ms.append(ck.bg(ck.reject, "Thr", 'N = 2 K = 1 M = 1 MaxOps = 1 Bug = "reread"', inv, label="Thr reread", workers=1))
    try:
        [exe] = sched.result()
    except CheckError as e:
        exe = None
        ck.notes.append("the schedule-controlled build is not possible: " + str(e)[-800:])
    if exe:
        segs = list(systematic(KINDS, 4000))
        for k in KINDS:
            segs += random_runs(ck.rng, k, 40 if ck.quick else 600, 1500 if ck.quick else 20000)
        ck.rng.shuffle(segs)
        ck.conform("schedules", exe, [], segs, "TraceShare", CFG, corrupt=corrupt, free=True, per_job=60, heap="3g")
    stress(ck, real.result()[0])
    for m in ms: m.result()

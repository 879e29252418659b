"""C15: events call every attached handler exactly once per raise."""
import itertools
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
INVARIANT NoDouble
CONSTANTS Events = {"e", "f"} MaxH = 1 MaxFrames = 1 Basic = FALSE
"""
ACT = ["CallsAttached", "CompleteRaise", "DetachOnce", "NeverReattached"]
R = ["reset", ["e", "f"]]

def corrupt(e):
    if e["o"][0] == "call":
        e["o"][2] += 1
        return e

def scripts(h, n):
    """what handler h of n may do to the events while it runs"""
    nx, pv = h % n + 1, (h - 2) % n + 1
    return [[], [["remove", "e", h]], [["remove", "e", nx]], [["remove", "e", pv]], [["drop", h], ["raise", "f", 5]],
            [["remove", "e", h], ["drop", h]], [["add", "e", []], ["isattached", h]], [["raise", "e", 7]], [["remove", "e", h], ["raisem", "e", 8], ["add", "e", []]]]

def reentrant(ck):
    out = []
    for n in (1, 2, 3):
        combos = list(itertools.product(*[scripts(h, n) for h in range(1, n + 1)]))
        if ck.quick and len(combos) > 250:
            combos = ck.rng.sample(combos, 250)
        for c in combos:
            ops = [["add", "e", s] for s in c] + [["raise", "e", 3], ["raisem", "e", 4]] + [["isattached", h] for h in range(1, n + 1)]
            out.append(Seg(R, ops + [["finish"]], "handlers changing the event"))
    return out

def history(rng, n):
    ops, nh = [], 0
    for _ in range(n):
        r, e = rng.random(), rng.choice("ef")
        h = rng.randint(1, nh + 1)
        if r < 0.28:
            sc = []
            if rng.random() < 0.3:
                k = rng.randint(1, nh + 2)
                sc = rng.choice([[["remove", e, k]], [["remove", e, nh + 1], ["drop", nh + 1]], [["add", e, []]], [["raise", rng.choice("ef"), rng.randint(1, 9)]], [["drop", k]]])
            k = rng.choice(["add", "add", "addtwice", "addmethod"])
            ops.append([k, e, sc]); nh += 2 if k == "addtwice" else 1
        elif r < 0.5: ops.append(["remove", e, h])
        elif r < 0.6: ops.append(["drop", h])
        elif r < 0.7: ops.append(["isattached", h])
        elif r < 0.73: ops.append(["renew", e])
        else: ops.append([rng.choice(["raise", "raisem"]), e, rng.randint(1, 9)])
    return ops + [["finish"]]

def run(ck):
    exe = ck.bg(ck.build, [dict(out="ev", src="ev.cpp")])
    deep = ck.bg(ck.model_check, "Ev", 'Events = {"e"%s} MaxH = %d MaxFrames = 2 Basic = FALSE' % ("" if ck.quick else ', "f"', 2 if ck.quick else 3), ["NoDouble"], ACT, label="Ev small steps")
    e = ck.model_check("Ev", 'Events = {"e"%s} MaxH = %d MaxFrames = 1 Basic = TRUE' % (', "f"', 2), [], ["DetachOnce", "NeverReattached"], emit=True, label="Ev basic")
    w, k = ck.walks(e, {"att": [], "fn": [], "own": [], "gone": [], "funs": 0, "frames": []}, 60)
    ck.extra["graph_edges_replayed"] = k
    segs = [Seg(R, x + [["finish"]], "state graph walk") for x in w] + reentrant(ck)
    segs += [Seg(R, history(ck.rng, 60), "random history") for _ in range(150 if ck.quick else 3000)]
    [exe] = exe.result()
    ck.conform("ev", exe, [], segs, "TraceEv", CFG, corrupt=corrupt, free=True)
    deep.result()

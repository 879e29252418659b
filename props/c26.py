"""C26: filler text has the wanted size and case."""
from vf.core import Seg

CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 1 Skip = 1
"""
INV = ["Closest", "LengthIsSize", "SentenceIsParagraph"]
R = ["reset"]

def corrupt(e):
    if e["r"][0] == "text" and e["r"][1]:
        e["r"][1] = e["r"][1][:-1]
        return e

def history(rng, n):
    ops = []
    for _ in range(n):
        b = rng.choice([-5, 0, 1, 2, 3, rng.randrange(1, 30), rng.randrange(1, 30), rng.randrange(1, 120), rng.randrange(1, 400)])
        ops.append(rng.choice([["text", rng.choice(["lower", "first", "upper"]), b], ["title", b], ["sentence", b], ["paragraph", b, rng.randrange(10**6)], ["paragraph", b, rng.randrange(10**6)]]))
    return ops

def run(ck):
    exe = ck.bg(ck.build, [dict(out="lorem", src="lorem.cpp")])
    ck.model_check("Lorem", "MaxLen = %d Skip = %d" % ((45, 1) if ck.quick else (160, 1)), INV, label="every start and length")
    e = ck.model_check("Lorem", "MaxLen = %d Skip = %d" % ((30, 7) if ck.quick else (90, 3)), INV[:1], emit=True)
    w, k = ck.walks(e, 0, 200)
    ck.extra["graph_edges_replayed"] = k
    [x] = exe.result()
    segs = [Seg(R, o, "state graph walk") for o in w]
    for _ in range(60 if ck.quick else 2000): segs.append(Seg(R, history(ck.rng, 40), "random history"))
    # paragraphs of every length
    top = 150 if ck.quick else 700
    for i in range(0, top, 10): segs.append(Seg(R, [["paragraph", b, ck.rng.randrange(10**6)] for b in range(i, i + 10) for _ in range(6 if ck.quick else 60)], "paragraphs"))
    ck.conform_multi("lorem", [("lorem", x, [], segs)], "TraceLorem", CFG, corrupt=corrupt)

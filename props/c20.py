"""C20: the unit test framework reports success only if every test passed."""
import json
from vf.core import Seg

LEAVES = ["ok", "bad", "err", "exc", "err0", "exc0", "excd", "unk", "print", "teok", "tenone", "teexc", "tebad", "txok", "txnone", "txother", "txbad", "txcb"]
OUTER = ["ok", "err", "exc", "err0", "exc0", "unk", "print", "teok", "bad", "caok", "cabad"]
def q(xs): return ", ".join('"%s"' % x for x in xs)
CONST = 'CaseLeaves = {%s} FileLeaves = {%s} CaseLen = %d CatLen = %d FileLen = %d Names = {%s} OptSet = {%s} MaxOpts = %d MaxFiles = %d Mode = "%s"'
CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS """ + CONST % ("", "", 0, 0, 0, q(["a"]), "", 0, 0, "trees") + "\n"
INV = ["Verdict", "Loud", "Usage", "Nesting", "Upward", "Counts", "Once"]
NAMES = ["a", "d/a", "d\\a", "xa", "b", "c/d/a", "da"]


def corrupt(e):
    if e["o"][0] == "run" and e["code"] in ("pass", "fail"):
        e["code"] = "pass" if e["code"] == "fail" else "fail"
        return e

def body(rng, kind, depth):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        if kind == "case":
            if rng.random() < 0.05: out.append(rng.choice([["case", body(rng, "case", 0)], ["cat", body(rng, "cat", 0)], ["caok"], ["cabad"]]))
            elif rng.random() < 0.7: out.append([rng.choice(["ok", "ok", "teok", "txok", "print"])])
            else: out.append([rng.choice(LEAVES)])
        else:
            r = rng.random()
            if r < 0.45: out.append(["case", body(rng, "case", 0)])
            elif r < 0.7 and depth: out.append(["cat", body(rng, "cat", depth - 1)])
            elif r < 0.9: out.append([rng.choice(["caok", "caok", "cabad", "print"])])
            else: out.append([rng.choice(OUTER)])
    return out

def options(rng, names):
    o = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.15: o.append(["D"])
        elif r < 0.45: o.append(["R"])
        elif r < 0.95: o.append(["F", list(rng.choice(names + ["a", "z", "d", "/a", ".", "d/a"]))])
        else: o.append(["X", rng.choice(["empty", "noname", "lower", "bare", "lowerf", "dash", "long", "foo"])])
    return o

def run(ck):
    rng = ck.rng
    exe = ck.bg(ck.build, [dict(out="utest", src="utest.cpp")])
    opt1 = q(['D', 'R'])
    optx = q(['D', 'R', 'a', 'dsa', 'z', 'noname'] + ([] if ck.quick else ['sa', 'd']))
    few = ["ok", "bad", "err", "teok"]
    trees = CONST % (q(few if ck.quick else few + ["print", "txok", "unk"]), q(["ok", "err", "print"]), 2, 2, 2, q(['a']), opt1, 1, 1, "trees")
    small = CONST % (q(LEAVES), q(["ok", "err", "print"]), 1 if ck.quick else 2, 1, 2 if ck.quick else 1, q(['a']), q(['D']), 1, 1, "trees")
    names = ["a", "dsa", "da"] if ck.quick else ["a", "dsa", "dba", "da"]
    files = CONST % ("", "", 0, 0, 0, q(names), optx, 2, 2 if ck.quick else 3, "files")
    bg = [ck.bg(ck.model_check, "UTest", trees, INV, ["Ends1"], view=False, label="UTest trees"),
          ck.bg(ck.model_check, "UTest", files, INV, ["Ends1"], view=False, label="UTest files and options")]
    segs = []
    outs = ["case", "cat", "assert", "caseassert", "error", "print"]
    n = 0
    for c, lab in ((small, "UTest small trees"), (files, "UTest files")):
        e = ck.model_check("UTest", c, [], emit=True, view=False, spec="ShowSpec", label=lab + " (emitted)")
        ops = sorted({json.dumps(o) for s, o, t in e})
        n += len(ops)
        if ck.quick and len(ops) > 3000: ops = rng.sample(ops, 3000)
        segs += [Seg(["reset"], [json.loads(o)], "enumerated program") for o in ops]
    ck.extra["programs_enumerated"] = n
    free = []
    for _ in range(2000 if ck.quick else 40000):
        fs = [[list(x), body(rng, "file", 3)] for x in rng.sample(NAMES, rng.choice([1, 1, 2, 3, 5]))]
        free.append(Seg(["reset"], [["outside", rng.choice(outs)], ["run", options(rng, NAMES), fs]], "random program"))
    for o in outs:
        free.append(Seg(["reset"], [["outside", o], ["run", [], [[["a"], [["cabad"], ["caok"]]]]], ["outside", o]], "outside"))
        free.append(Seg(["reset"], [["run", [["X", "foo"]], [[["a"], [["caok"]]]]], ["outside", o]], "outside"))
    [exe] = exe.result()
    ck.conform_multi("utest", [("narrow", exe, ["narrow"], segs + free), ("wide", exe, ["wide"], segs[::7] + free[::5])], "TraceUTest", CFG, corrupt=corrupt)
    for b in bg: b.result()

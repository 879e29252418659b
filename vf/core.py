"""Shared machinery: build harnesses from /repo, run TLC on the specifications,
turn TLC's state graph into test programs, replay them in the real code and let
TLC accept or reject the recorded traces."""
import os, sys, json, re, subprocess, shutil, random, time, hashlib, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)      # where work/ and evidence/ go
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JOBS = 8
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (never reported as a violation)."""


class HarnessCompileError(CheckError):
    """a harness, which uses the public interface only, does not compile although the library does"""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


class Seg:
    """One test program: a reset line and operations, each a list of tokens."""
    __slots__ = ("reset", "ops", "src")

    def __init__(self, reset, ops, src=""):
        self.reset, self.ops, self.src = list(reset), [list(o) for o in ops], src

    def lines(self):
        return [self.reset] + self.ops


def enc(tok):
    """one token: ints and plain words as they are, lists as comma-separated"""
    if isinstance(tok, bool):
        return "1" if tok else "0"
    if isinstance(tok, (list, tuple)):
        return "[" + ",".join(enc(t) for t in tok) + "]"
    return str(tok)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(OUT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.states = self.distinct = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.opcount = collections.Counter()
        self.probes = []
        self.notes = []
        self.extra = {}
        self.assumptions = []
        self.level = "model_checking"

    def bg(self, fn, *a, **k):
        """start fn now, collect with .result() (builds and model checks overlap)"""
        if not hasattr(self, "_pool"):
            self._pool = ThreadPoolExecutor(JOBS)
        return self._pool.submit(fn, *a, **k)

    # ------------------------------------------------------------------ build
    def cxx(self, out, src, flags=(), defines=(), asan=True, lib=True, std="c++20", timeout=600):
        """compile harness/<src> together with the library sources of the current tree"""
        outp = os.path.join(self.work, out)
        base = ["g++", "-std=" + std, "-g1", "-O1", "-I" + os.path.join(REPO, "Source"), "-I" + HARN, "-pthread", "-w"]
        if asan:
            base += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        base += list(flags)
        objs, jobs = [], []
        h = os.path.join(self.work, out + ".o")
        jobs.append((os.path.join(HARN, src), h, ["-D" + d for d in defines]))
        objs.append(h)
        if lib:
            key = hashlib.md5(" ".join(base).encode()).hexdigest()[:8]
            ld = os.path.join(self.work, "lib-" + key)
            os.makedirs(ld, exist_ok=True)
            for root, _, files in os.walk(os.path.join(REPO, "Source")):
                for f in sorted(files):
                    if f.endswith(".cpp") and not f.endswith(".Windows.cpp"):
                        o = os.path.join(ld, f + ".o")
                        objs.append(o)
                        if not os.path.exists(o) and o not in self._building:
                            self._building.add(o)
                            jobs.append((os.path.join(root, f), o, []))
        def one(j):
            s, o, d = j
            tmp = o + ".tmp"
            p = subprocess.run(base + d + ["-c", s, "-o", tmp], capture_output=True, text=True, timeout=timeout)
            if p.returncode:
                first = "\n".join([l for l in p.stderr.splitlines() if "error:" in l][:6])
                k = HarnessCompileError if o == h and first and "internal compiler error" not in p.stderr and "fatal error" not in p.stderr else CheckError
                raise k("compile failed: %s\n%s\n%s" % (s, first, p.stderr[-3000:]))
            os.rename(tmp, o)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        for _ in range(600):
            if all(os.path.exists(o) for o in objs):
                break
            time.sleep(0.1)
        p = subprocess.run(base + objs + ["-o", outp], capture_output=True, text=True, timeout=timeout)
        if p.returncode:
            raise CheckError("link failed: %s\n%s" % (src, p.stderr[-3000:]))
        return outp
    _building = set()

    def build(self, specs, strict=True):
        """specs: list of kwargs for cxx, built in parallel; returns the list of paths"""
        # library first (shared), then the harnesses in parallel
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.cxx, **s) for s in specs]
            errs = [f.exception() for f in futs]
        other = [e for e in errs if e and not isinstance(e, HarnessCompileError)]
        mine = [(e, s) for e, s in zip(errs, specs) if isinstance(e, HarnessCompileError)]
        if other: raise other[0]
        if mine and not strict: raise mine[0][0]
        if mine:
            # the library itself compiles, a program that uses what the property is about does not any more
            e, s = mine[0]
            rp = os.path.join(self.work, "replay-compile-%s.txt" % s["out"])
            with open(rp, "w") as f:
                f.write("g++ -std=c++20 -I%s -I%s %s -c %s\n\n%s\n" % (os.path.join(REPO, "Source"), HARN, " ".join("'-D%s'" % d for d in s.get("defines", ())), os.path.join(HARN, s["src"]), e))
            raise Violation("a program that uses the interface does not compile any more:\n" + str(e)[:1500], rp)
        return [f.result() for f in futs]

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, workers=1, timeout=800, heap="2g", metadir=None, gc="Serial"):
        md = metadir or os.path.join(self.work, "meta-%s-%d" % (module, random.getrandbits(40)))
        os.makedirs(md, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+Use%sGC" % gc, "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + md, "-cp", TLA_CP,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out: %s %s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p

    @staticmethod
    def tlc_counts(out):
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        d = re.search(r"depth of the complete state graph search is ([\d,]+)", out)
        f = lambda s: int(s.replace(",", ""))
        return (f(m.group(1)), f(m.group(2))) if m else (0, 0), (f(d.group(1)) if d else 0)

    def cfg(self, name, text):
        p = os.path.join(self.work, name + ".cfg")
        with open(p, "w") as f:
            f.write(text)
        return p

    def model_check(self, module, consts="", invariants=(), properties=(), extra="", view=True, emit=False,
                    workers=None, timeout=800, label=None, heap="6g", spec="Spec"):
        """exhaustively check a design; with emit, also return the edges of its state graph"""
        text = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
        if consts:
            text += "CONSTANTS\n" + consts + "\n"
        if view:
            text += "VIEW View\n"
        for i in invariants:
            text += "INVARIANT %s\n" % i
        for p in properties:
            text += "PROPERTY %s\n" % p
        if emit:
            text += "ACTION_CONSTRAINT Emit\n"
        text += extra
        label = label or module
        c = self.cfg("mc-%s" % re.sub(r"\W", "_", label), text)
        t = time.time()
        p = self.tlc(module, c, workers=workers or (1 if emit else JOBS), timeout=timeout, heap=heap, gc="Parallel")
        (gen, dist), depth = self.tlc_counts(p.stdout)
        if p.returncode != 0:
            raise CheckError("model check of %s failed (rc %d):\n%s" % (label, p.returncode, p.stdout[-3500:]))
        if dist < 1:
            raise CheckError("model check of %s explored nothing:\n%s" % (label, p.stdout[-2000:]))
        self.states += dist
        self.distinct += dist
        self.trans = getattr(self, "trans", 0) + gen
        self.models.append({"model": label, "distinct_states": dist, "states_generated": gen, "depth": depth,
                            "invariants": list(invariants) + list(properties), "constants": " ".join(consts.split()),
                            "wall_s": round(time.time() - t, 1)})
        if not emit:
            return None
        edges = []
        for ln in p.stdout.splitlines():
            if ln.startswith('"EDGE '):
                src, op, dst = json.loads(json.loads(ln)[5:])
                edges.append((json.dumps(src, sort_keys=True), op, json.dumps(dst, sort_keys=True)))
        if len(edges) > 400000:
            raise CheckError("model %s emitted %d edges: bound it" % (label, len(edges)))
        if not edges:
            raise CheckError("model %s emitted no edges\n%s" % (label, p.stdout[-1500:]))
        return edges

    def reject(self, module, consts, invariants=(), properties=(), **kw):
        """the model can tell: a wrong variant of the design has to be rejected"""
        try:
            self.model_check(module, consts, invariants, properties, **kw)
        except CheckError as e:
            if "is violated" in str(e):
                return
            raise
        raise CheckError("the wrong variant %s of %s is not rejected" % (consts, module))

    # ------------------------------------------------- state graph -> programs
    def walks(self, edges, init, maxlen=60, part=1):
        """cover every edge of the state graph (or a random part of them) with programs starting in `init`"""
        init = json.dumps(init, sort_keys=True)
        out = collections.defaultdict(list)
        seen = set()
        for s, o, t in edges:
            k = (s, json.dumps(o))
            if k in seen:
                continue
            seen.add(k)
            out[s].append((o, t))
        if init not in out:
            raise CheckError("initial state not in the graph: %s / %s" % (init, list(out)[:2]))
        # shortest paths from init
        parent = {init: None}
        q = collections.deque([init])
        while q:
            s = q.popleft()
            for o, t in out.get(s, ()):
                if t not in parent:
                    parent[t] = (s, o)
                    q.append(t)
        def path(s):
            r = []
            while parent[s]:
                s, o = parent[s]
                r.append(o)
            return r[::-1]
        pend = {s: list(es) for s, es in out.items() if s in parent}
        for es in pend.values():
            self.rng.shuffle(es)
        if part < 1:
            pend = {s: [e for e in es if self.rng.random() < part] for s, es in pend.items()}
        left = total = sum(len(e) for e in pend.values())
        def nearest(s, limit):
            """shortest way from s to a state with an uncovered edge"""
            back, dq = {s: None}, collections.deque([(s, 0)])
            while dq:
                x, d = dq.popleft()
                if pend.get(x):
                    r = []
                    while back[x]:
                        x, o = back[x]
                        r.append(o)
                    return r[::-1]
                if d >= limit:
                    continue
                for o, t in out.get(x, ()):
                    if t not in back:
                        back[t] = (x, o)
                        dq.append((t, d + 1))
            return None
        progs = []
        succ = {s: {json.dumps(o): t for o, t in es} for s, es in out.items()}
        order = [s for s in parent if pend.get(s)]
        while left:
            s0 = next((s for s in order if pend.get(s)), None)
            order = [s for s in order if pend.get(s)]
            prog, s = path(s0), s0
            while len(prog) < maxlen and left:
                if pend.get(s):
                    o, t = pend[s].pop()
                    left -= 1
                    prog.append(o)
                    s = t
                    continue
                way = nearest(s, 4)
                if way is None:
                    break
                for o in way:
                    prog.append(o)
                    s = succ[s][json.dumps(o)]
            progs.append(prog)
        return progs, len(seen) if part >= 1 else total

    # -------------------------------------------------------------- execution
    def run_harness(self, exe, args, opsfile, outfile, timeout=120, env=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:hard_rss_limit_mb=4000"
        e["TZ"] = "UTC"
        e.update(env or {})
        try:
            p = subprocess.run([exe] + [str(a) for a in args] + [opsfile, outfile], env=e, capture_output=True,
                               timeout=timeout, cwd=self.work)
            return p.returncode, (p.stderr or b"").decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return -999, "timeout after %ss" % timeout

    def write_ops(self, path, segs):
        with open(path, "w") as f:
            for s in segs:
                for l in s.lines():
                    f.write(" ".join(enc(t) for t in l) + "\n")

    def validate(self, module, cfg, trace, n, timeout=800, heap="2g", env=None):
        """TLC run over one recorded trace. Returns None if accepted, else (line, text)."""
        ev = {"TRACE": trace}
        ev.update(env or {})
        p = self.tlc(module, cfg, env=ev, timeout=timeout, heap=heap)
        (gen, dist), depth = self.tlc_counts(p.stdout)
        o = p.stdout
        if p.returncode == 0 and "No error has been found" in o:
            if dist < n:
                raise CheckError("trace validation saw %d states for %d lines" % (dist, n))
            return None
        if "Parsing or semantic analysis failed" in o or "SANYException" in o or "***Parse Error***" in o or "Error: Parsing" in o:
            raise CheckError("specification does not parse: %s\n%s" % (module, o[-3000:]))
        if "OutOfMemory" in o or "java.lang.OutOfMemory" in p.stderr:
            raise CheckError("TLC out of memory")
        if "TraceAccepted" in o or "is violated" in o or "Evaluating" in o or "Attempted" in o or "postcondition" in o.lower() or "was violated" in o or "invariant" in o.lower():
            # find how far it got
            if not depth:
                d = [int(x) for x in re.findall(r"/\\ l = (\d+)", o)]
                depth = max(d) if d else self.probe_depth(o)
            msg = [l for l in o.splitlines() if l.startswith("Error") or "Attempted" in l or "violated" in l]
            return (depth, "; ".join(msg)[:600])
        raise CheckError("TLC failed on trace of %s (rc %d):\n%s\n%s" % (module, p.returncode, o[-3000:], p.stderr[-500:]))

    @staticmethod
    def probe_depth(o):
        m = re.findall(r"Progress\((\d+)\)", o)
        return int(m[-1]) if m else 1

    # ---------------------------------------------------------- conformance
    def conform(self, name, exe, args, segs, module, cfg, **kw):
        self.conform_multi(name, [(name, exe, args, segs)], module, cfg, **kw)

    def conform_multi(self, name, runs, module, cfg, htimeout=120, env=None, vtimeout=800, corrupt=None,
                      heap="2g", samples=2, jobs=JOBS, per_job=4000, free=False):
        """run every program in the real code, record, and let TLC judge the records.

        runs: (label, executable, args, programs). A crash, sanitizer report, hang or
        rejected line is confirmed by re-running only the program concerned before it
        is reported. With free, a program line may record any number of trace lines
        (every program then starts with the only reset line it has)."""
        self.free = free
        cfgp = self.cfg("trace-" + name, cfg)
        tasks = []
        for (label, exe, args, segs) in runs:
            if not segs:
                raise CheckError("no programs for " + label)
            tot = sum(len(x.lines()) for x in segs)
            k = max(1, min(jobs, -(-tot // per_job), len(segs)))
            for i in range(k):
                g = segs[i::k]
                if g:
                    tasks.append(["%s-%d" % (label, i), exe, args, g])
        def harness(t):
            tag, exe, args, segs = t
            return self._harness_group(tag, exe, args, segs, htimeout, env)
        with ThreadPoolExecutor(jobs) as ex:
            hres = list(ex.map(harness, tasks))
        conf = lambda t, bad: self._confirm(t[0], t[1], t[2], bad, module, cfgp, htimeout, env, vtimeout, heap)
        for t, r in zip(tasks, hres):
            if r["kind"] == "crash":
                r["seg"], r["all"] = self._seg_at(t[3], r["line"], r["trace"])[0], t[3]
                conf(t, r)
        # distribute the recorded traces over TLC runs
        order = sorted(range(len(tasks)), key=lambda i: -hres[i]["n"])
        total = sum(h["n"] for h in hres)
        self.lines = getattr(self, "lines", 0) + total
        nb = max(1, min(jobs, -(-total // 1500)))
        bins = [[] for _ in range(nb)]
        load = [0] * nb
        for i in order:
            j = load.index(min(load))
            bins[j].append(i)
            load[j] += hres[i]["n"]
        def judge(j):
            if not bins[j]:
                return None
            tr = os.path.join(self.work, "%s-bin%d.ndjson" % (name, j))
            with open(tr, "w") as f:
                for i in bins[j]:
                    with open(hres[i]["trace"]) as g:
                        shutil.copyfileobj(g, f)
            r = self.validate(module, cfgp, tr, load[j], vtimeout, heap)
            if r is None:
                os.unlink(tr)
                return None
            ln = min(max(r[0], 1), load[j]) - 1
            for i in bins[j]:
                if ln < hres[i]["n"]:
                    break
                ln -= hres[i]["n"]
            seg, off = self._seg_at(tasks[i][3], ln, hres[i]["trace"])
            return tasks[i], {"kind": "reject", "line": ln, "why": r[1], "seg": seg, "all": tasks[i][3]}
        with ThreadPoolExecutor(jobs) as ex:
            for bad in list(ex.map(judge, range(nb))):
                if bad:
                    conf(*bad)
        for h in hres:
            if os.path.exists(h["trace"]):
                os.unlink(h["trace"])
        for (label, exe, args, segs) in runs:
            self.traces += len(segs)
            self.events += sum(len(s.lines()) for s in segs)
            for s in segs:
                for o in s.ops:
                    self.opcount[name + ":" + str(o[0])] += 1
        for (label, exe, args, segs) in runs[:1] + runs[-1:]:
            for s in segs[:: max(1, len(segs) // samples)][:samples]:
                self.samples.append({"suite": label, "from": s.src, "program": [" ".join(enc(t) for t in l) for l in s.lines()[:40]]})
        if corrupt:
            label, exe, args, segs = runs[min(1, len(runs) - 1)]
            self._probe(label, exe, args, segs, module, cfgp, htimeout, env, corrupt)

    def _seg_at(self, segs, line, trace):
        n = 0
        if self.free:
            k = -1
            with open(trace, errors="replace") as f:
                for i, l in enumerate(f):
                    if i > line: break
                    k += '"o":["reset"' in l
            return segs[min(max(k, 0), len(segs) - 1)], line
        for s in segs:
            if line < n + len(s.lines()):
                break
            n += len(s.lines())
        return s, line - n

    def _harness_group(self, tag, exe, args, segs, htimeout, env):
        ops = os.path.join(self.work, tag + ".ops")
        tr = os.path.join(self.work, tag + ".ndjson")
        self.write_ops(ops, segs)
        rc, err = self.run_harness(exe, args, ops, tr, htimeout, env)
        n, torn = 0, False
        if os.path.exists(tr):
            with open(tr, "rb") as f:
                data = f.read()
            n = data.count(b"\n")
        total = sum(len(s.lines()) for s in segs)
        if rc == 3:
            raise CheckError("harness rejected its input: " + err[-1500:])
        os.unlink(ops)
        if rc != 0 or (n != total if not self.free else data.count(b'"o":["reset"') != len(segs)) or not data.endswith(b"\n"):
            return {"kind": "crash", "line": n, "rc": rc, "err": err[-6000:], "trace": tr, "n": n}
        return {"kind": "ok", "trace": tr, "n": n}

    def _run_group(self, tag, exe, args, segs, module, cfgp, htimeout, env, vtimeout, heap):
        h = self._harness_group(tag, exe, args, segs, htimeout, env)
        if h["kind"] == "crash":
            return h
        r = self.validate(module, cfgp, h["trace"], h["n"], vtimeout, heap)
        with open(h["trace"], errors="replace") as f:
            lines = f.read().split("\n")
        os.unlink(h["trace"])
        if r is None:
            return None
        ln = min(max(r[0], 1), h["n"])
        return {"kind": "reject", "line": ln - 1, "why": r[1], "got": lines[ln - 1], "prev": lines[ln - 2] if ln > 1 else ""}

    def _confirm(self, name, exe, args, bad, module, cfgp, htimeout, env, vtimeout, heap):
        again = self._run_group(name + "-confirm", exe, args, [bad["seg"]], module, cfgp, htimeout, env, vtimeout, heap)
        segs = [bad["seg"]]
        if again is None:   # perhaps it needs the programs before it
            again = self._run_group(name + "-confirm2", exe, args, bad["all"], module, cfgp, htimeout, env, vtimeout, heap)
            segs = bad["all"]
            if again is None:
                raise CheckError("%s: a rejection was not repeated by a re-run: %s" % (name, {k: bad[k] for k in ("kind", "line")}))
        elif not os.environ.get("VERIF_NOSHORT"):
            # shorten: drop operations while it still fails (bounded effort)
            s, tries = segs[0], 0
            cut = again["line"]
            s = Seg(s.reset, s.ops[:max(cut, 0) if again["kind"] == "reject" and not self.free else len(s.ops)], s.src)
            def fails(ss):
                try:
                    return self._run_group(name + "-min", exe, args, [ss], module, cfgp, min(htimeout, 30), env, vtimeout, heap)
                except CheckError:
                    return None
            deadline = time.time() + 60
            f = fails(s)
            if f:
                again, segs = f, [s]
                step = max(1, len(s.ops) // 2)
                while step >= 1 and time.time() < deadline:
                    i = 0
                    while i < len(s.ops) and time.time() < deadline:
                        c = Seg(s.reset, s.ops[:i] + s.ops[i + step:], s.src)
                        f = fails(c)
                        if f:
                            s, again, segs = c, f, [c]
                        else:
                            i += step
                    step //= 2
        rp = os.path.join(self.work, "replay-%s.txt" % name)
        with open(rp, "w") as f:
            f.write("property %s, suite %s\n" % (self.prop, name))
            f.write("kind: %s\n" % again["kind"])
            if again["kind"] == "crash":
                f.write("the harness running the real code ended abnormally (rc %s) at line %d of the program\n%s\n" % (again["rc"], again["line"], again["err"]))
            else:
                f.write("TLC rejects line %d of the recorded trace: %s\nrecorded before: %s\nrecorded there : %s\n" % (again["line"] + 1, again["why"], again["prev"], again["got"]))
            f.write("harness: %s %s\ntrace spec: %s\nprogram:\n" % (os.path.basename(exe), " ".join(map(str, args)), module))
            for s in segs:
                for l in s.lines():
                    f.write("  " + " ".join(enc(t) for t in l) + "\n")
        m = re.search(r'SUMMARY: .*', again.get('err', ''))
        what = again.get('got') or (m.group(0) if m else again.get('err', '')[-300:])
        raise Violation("%s: %s" % (name, what[:400]), rp)

    def _probe(self, name, exe, args, segs, module, cfgp, htimeout, env, corrupt):
        """binding probe: corrupt one recorded field and require TLC to reject exactly there"""
        tag = name + "-probe"
        ops = os.path.join(self.work, tag + ".ops")
        tr = os.path.join(self.work, tag + ".ndjson")
        pick = sorted(segs[:: max(1, len(segs) // 8)], key=lambda s: -len(s.ops))[:4]
        self.write_ops(ops, pick)
        rc, err = self.run_harness(exe, args, ops, tr, htimeout, env)
        if rc:
            raise CheckError("probe run failed: " + err[-500:])
        lines = [json.loads(l) for l in open(tr)]
        idx = None
        for i in range(len(lines) - 1, -1, -1):
            c = corrupt(json.loads(json.dumps(lines[i])))
            if c is not None and c != lines[i]:
                idx, lines[i] = i, c
                break
        if idx is None:
            raise CheckError("binding probe of %s found nothing to corrupt" % name)
        with open(tr, "w") as f:
            for l in lines:
                f.write(json.dumps(l) + "\n")
        r = self.validate(module, cfgp, tr, len(lines))
        if r is None:
            raise CheckError("binding probe: TLC accepted a corrupted trace of %s" % name)
        self.probes.append({"suite": name, "corrupted_line": idx + 1, "rejected_at": r[0]})

    # -------------------------------------------------------------- evidence
    def evidence(self, violations):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": getattr(self, "trans", 0),
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "trace_lines_judged_by_tlc": getattr(self, "lines", 0), "models": self.models, "binding_probes": self.probes,
               "operations_exercised": dict(sorted(self.opcount.items())),
               "samples": self.samples[:8]}
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")

"""Shared machinery: TLC runner, trace judge, tours, verdicts, evidence.

Flow of every check:
  A  TLC checks the specification itself (design invariants / theorems);
  B  TLC enumerates behaviours or cases of the specification; they are driven
     through the real code and the observations are given back to TLC;
  C  seeded random drivers run the real code; TLC judges the recorded traces
     against the same specification.
Python never decides: it makes inputs, records what the public API shows, and
turns TLC's verdicts into exit codes.
"""
import collections
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = os.environ.get("GRADSLAM_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = "No error has been found" in out

    def lines(self, tag):
        """JSON payloads printed as PrintT(<<tag, ToJson(..)>>)."""
        res = []
        pre = '<<"%s", "' % tag
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('">>'):
                res.append(json.loads(json.loads('"' + line[len(pre):-3] + '"')))
        return res

    def coverage(self):
        """Action name -> number of states generated by it (from -coverage)."""
        cov = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", self.out, re.M):
            cov[m.group(1)] = cov.get(m.group(1), 0) + int(m.group(3))
        return cov


class Ctx(object):
    """One run of one check."""

    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.ops = collections.Counter()
        self.samples = []
        self.suites = {}
        self.models = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.known_findings = load_known_findings()

    quick = property(lambda self: self.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    def rng(self, name):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, name))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, files=None, workers=8, timeout=600, coverage=True,
            xmx="6g", extra=()):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        with open(os.path.join(d, "M.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-config", "M.cfg"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        r = TLCResult(out, p.returncode)
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model(self, module, cfg, name=None, must_cover=(), **kw):
        """Step A: TLC must finish without error and take every named action."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            tail = "\n".join(r.out.splitlines()[-60:])
            raise MachineryError("specification %s does not hold:\n%s" % (module, tail))
        cov = r.coverage()
        missing = [a for a in must_cover if cov.get(a, 0) == 0]
        if missing:
            raise MachineryError("vacuous: actions never taken in %s: %s" % (module, missing))
        self.states += r.distinct
        self.transitions += r.generated
        self.models[name or module] = {"generated": r.generated, "distinct": r.distinct,
                                       "depth": r.depth, "actions": cov}
        return r

    def model_must_fail(self, module, cfg, what, **kw):
        """Negative control: the specification with a known defect must fail."""
        r = self.tlc(module, cfg, coverage=False, **kw)
        if "is violated" not in r.out:
            raise MachineryError("negative control %s of %s did not fail" % (what, module))
        self.models.setdefault("negative_controls", []).append(what)

    # ---------------------------------------------------------------- judge
    def judge(self, module, traces, name, consts="", chunk=400, timeout=800):
        """Steps B and C: TLC gives one verdict per recorded trace.

        traces: list of {"id": int, ...}.  Returns list of bad verdicts
        [(trace, step, clause)].
        """
        bad = []
        for k in range(0, len(traces), chunk):
            part = traces[k:k + chunk]
            for n, t in enumerate(part):
                t["id"] = n
            cfg = "INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n" + consts
            r = self.tlc(module, cfg, files={"traces.json": json.dumps(part)},
                         coverage=False, timeout=timeout)
            if not r.ok:
                keep = os.path.join(tempfile.gettempdir(), "verif_judge_error.json")
                with open(keep, "w") as fh:
                    json.dump(part, fh)
                raise MachineryError("judge %s failed (traces kept in %s):\n%s" % (
                    module, keep, "\n".join(r.out.splitlines()[-50:])[-6000:]))
            verdict = {}
            for v in r.lines("VERDICT"):
                verdict[v["id"]] = v
            if len(verdict) != len(part):
                raise MachineryError("judge %s: %d verdicts for %d traces" % (
                    module, len(verdict), len(part)))
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            for n, t in enumerate(part):
                v = verdict[n]
                if not v["ok"]:
                    bad.append((t, v.get("step", 0), v.get("clause", "")))
        s = self.suites.setdefault(name, {"traces": 0, "rejected": 0})
        s["traces"] += len(traces)
        s["rejected"] += len(bad)
        return bad

    def run_suite(self, name, module, cases, run_case, chunk=400, describe=None,
                  corrupt=None, max_report=5):
        """Drive cases through the real code, have TLC judge the traces."""
        traces = []
        for c, t in zip(cases, run_many(run_case, cases)):
            t["case"] = c
            if "crash" in t:
                self.report(name, "driver: " + t["crash"].strip().splitlines()[-1], 0,
                            {"suite": name, "module": module, "case": c, "crash": t["crash"]})
                continue
            traces.append(t)
            for s in t.get("steps", ()):
                self.ops["%s:%s" % (name, s.get("op", s.get("k", "?")))] += 1
                self.steps += 1
        if traces and len(self.samples) < 6:
            self.samples.append({"suite": name, "case": shorten(traces[len(traces) // 2]["case"])})
        sent = [dict((k, v) for k, v in t.items() if k not in ("case", "note")) for t in traces]
        bad = self.judge(module, sent, name, chunk=chunk)
        index = dict((id(s), t) for s, t in zip(sent, traces))
        for (s, step, clause) in bad:
            t = index[id(s)]
            self.report(name, clause, step, {"suite": name, "module": module, "case": t["case"],
                                             "step": step, "clause": clause, "trace": s,
                                             "note": t.get("note", "")})
        if corrupt is not None and traces and not bad:
            self.check_binding(name, module, traces, corrupt)
        return bad

    def check_binding(self, name, module, traces, corrupt):
        """The judge must reject a trace with one corrupted observation."""
        rng = self.rng("corrupt" + name)
        picks = rng.sample(traces, min(5, len(traces)))
        broken = []
        for t in picks:
            c = corrupt(json.loads(json.dumps(dict((k, v) for k, v in t.items()
                                                   if k not in ("case", "note")))), rng)
            if c is not None:
                broken.append(c)
        if not broken:
            return
        bad = self.judge(module, broken, name + "/corrupted")
        if len(bad) != len(broken):
            raise MachineryError("judge %s accepted a corrupted trace (%d of %d rejected)" % (
                module, len(bad), len(broken)))

    # -------------------------------------------------------------- verdict
    def report(self, suite, clause, step, replay):
        for f in self.known_findings:
            if f["property"] == self.prop and f["match"] == clause:
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append((suite, clause, step, replay))

    def finish(self, explanation=None):
        d = os.path.join(VERIF, ".replay")
        rc = 0
        if self.violations:
            os.makedirs(d, exist_ok=True)
        for n, (suite, clause, step, replay) in enumerate(self.violations[:5]):
            path = os.path.join(d, "%s-%d.json" % (self.prop, n))
            with open(path, "w") as fh:
                json.dump(replay, fh, indent=1)
            print("  suite=%s step=%s clause=%s" % (suite, step, clause))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "steps_replayed_in_impl": self.steps,
            "models": self.models, "suites": self.suites,
            "operations": dict(sorted(self.ops.items())),
            "samples": self.samples,
        }
        if explanation:
            cov["explanation"] = explanation
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d model states, %d traces (%d steps) judged, %d violations, %.1fs" % (
            self.prop, self.tier, self.states, self.traces, self.steps,
            len(self.violations), time.time() - self.t0))
        return rc


def load_known_findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                res.append(json.loads(line[len("known:"):]))
    return res


def shorten(x, n=600):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


_RUN = None


def _one(c):
    try:
        return _RUN(c)
    except Exception:
        return {"crash": traceback.format_exc()}


def run_many(run_case, cases, procs=6):
    """Run the cases in forked workers (the code under test stays in-process)."""
    global _RUN
    _RUN = run_case
    if len(cases) < 8:
        return [_one(c) for c in cases]
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        return pool.map(_one, cases, chunksize=max(1, len(cases) // (procs * 4)))


# ------------------------------------------------------------------- tours
def tour(edges, init, max_len=40, key=lambda s: json.dumps(s, sort_keys=True)):
    """Walks from init covering every edge (state, op, state)."""
    out = collections.defaultdict(list)
    for (a, op, b) in edges:
        out[key(a)].append((op, key(b)))
    todo = set()
    for a, l in out.items():
        for i in range(len(l)):
            todo.add((a, i))
    init = key(init)
    walks = []

    def nearest(src):
        # shortest path to a state with an uncovered outgoing edge
        prev = {src: None}
        q = collections.deque([src])
        while q:
            a = q.popleft()
            if any((a, i) in todo for i in range(len(out[a]))):
                path = []
                while prev[a] is not None:
                    a0, i = prev[a]
                    path.append((a0, i))
                    a = a0
                return path[::-1]
            for i, (_, b) in enumerate(out[a]):
                if b not in prev:
                    prev[b] = (a, i)
                    q.append(b)
        return None

    while todo:
        cur, walk = init, []
        fresh = 0
        while len(walk) < max_len:
            nxt = [i for i in range(len(out[cur])) if (cur, i) in todo]
            if nxt:
                steps = [(cur, nxt[0])]
            else:
                steps = nearest(cur)
                if steps is None or (len(walk) + len(steps) >= max_len and walk):
                    break
            for (a, i) in steps:
                if (a, i) in todo:
                    todo.discard((a, i))
                    fresh += 1
                op, b = out[a][i]
                walk.append(op)
                cur = b
        if fresh == 0:
            break
        walks.append(walk)
    return walks, len(todo)


# ---------------------------------------------------------------- encoding
BADVAL = -1073741823  # not exactly representable / not finite / too large


def enc(x, scale=1):
    """Exact fixed-point encoding of a number: int(x*scale) or BADVAL."""
    try:
        y = float(x) * scale
    except Exception:
        return BADVAL
    if y != y or y in (float("inf"), float("-inf")) or abs(y) > 1e9 or y != int(y):
        return BADVAL
    return int(y)


def encr(x, scale):
    """Rounded fixed-point encoding."""
    try:
        y = float(x) * scale
    except Exception:
        return BADVAL
    if y != y or y in (float("inf"), float("-inf")) or abs(y) > 1e9:
        return BADVAL
    return int(round(y))


def nest(x, f):
    if isinstance(x, (list, tuple)):
        return [nest(v, f) for v in x]
    return f(x)


def main(checks):
    """run.py entry: checks = {prop: function(ctx)}."""
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    ctx = Ctx(prop, tier)
    try:
        checks[prop](ctx)
        rc = ctx.finish()
    except MachineryError as e:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        print("ERROR of the check itself: %s" % e)
        rc = ctx.finish() if ctx.violations else 2
    sys.exit(rc)

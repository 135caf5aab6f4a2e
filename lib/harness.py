"""
Driver shared by every check.

A check module (checks/cNN.py) provides

    RULE      how cases are made and what makes one non-trivial (evidence)
    CASES     dict(quick=.., thorough=..): number of cases
    FILES     files of the repository the monitors must have seen running
    run_case(m, rng, idx)   one execution of the real code under monitors

`m` is a Monitor.  m.ok()/m.close() evaluate an oracle over something the real
code just did; each evaluation is counted under its label, so the evidence says
what was observed and not just that the workload ran.  Cases are numbered; case
k of seed s is a pure function of (property, s, k), which is what a replay file
records.
"""
import hashlib, json, os, signal, sys, tempfile, time, traceback, warnings
import numpy as N

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 150
MAX_REPORT = 5


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


def clean(v, depth=0):
    """Anything -> something json can hold (for samples and replays)."""
    if isinstance(v, N.ndarray):
        if v.size > 60:
            return dict(shape=list(v.shape), dtype=str(v.dtype),
                        sha1=hashlib.sha1(N.ascontiguousarray(v).tobytes()).hexdigest()[:12],
                        head=clean(v.reshape(-1)[:9].tolist()))
        return clean(v.tolist())
    if isinstance(v, (N.floating, float)):
        v = float(v)
        return v if N.isfinite(v) else repr(v)
    if isinstance(v, (N.bool_, bool)):
        return bool(v)
    if isinstance(v, (N.integer, int)):
        return int(v)
    if isinstance(v, dict):
        return {str(k): clean(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [clean(x, depth + 1) for x in list(v)[:60]]
    if v is None or isinstance(v, str):
        return v
    return repr(v)[:200]


class Monitor:
    def __init__(self, prop):
        self.prop = prop
        self.counts = {}
        self.margins = {}
        self.signatures = set()
        self.samples = []
        self.violations = []
        self.cases = 0
        self.idx = None
        self.context = {}
        self.seen = {}

    # -- case life cycle ---------------------------------------------------
    def begin(self, idx):
        self.idx = idx
        self.context = {}
        self.cases += 1

    def note(self, **kw):
        """Describe the running case (goes to samples and replays)."""
        self.context.update(kw)

    def nontrivial(self, *sig):
        """Count this case as distinct and non-trivial under signature sig."""
        self.signatures.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def state(self, kind, *value):
        """Record a distinct observed state/class for the evidence."""
        s = self.seen.setdefault(kind, {})
        k = "/".join(str(v) for v in value)
        s[k] = s.get(k, 0) + 1

    # -- oracles -----------------------------------------------------------
    def fail(self, label, message, **data):
        self.violations.append(dict(case=self.idx, label=label,
            message=str(message)[:2000], context=clean(self.context), data=clean(data)))
        raise Violation(label)

    def ok(self, cond, label, message="", **data):
        self.counts[label] = self.counts.get(label, 0) + 1
        if not bool(cond):
            self.fail(label, message or "condition is false", **data)

    def close(self, got, want, tol, label, message="", **data):
        """|got-want| <= tol elementwise; NaN never passes."""
        self.counts[label] = self.counts.get(label, 0) + 1
        g = N.asarray(got, dtype=N.longdouble)
        w = N.asarray(want, dtype=N.longdouble)
        if g.shape != w.shape and g.size != w.size and g.ndim and w.ndim:
            self.fail(label, "shape %s, expected %s. %s" % (g.shape, w.shape, message), **data)
        with N.errstate(all="ignore"):
            try:
                d = N.abs(g - w)
            except ValueError:
                self.fail(label, "shape %s, expected %s. %s" % (g.shape, w.shape, message), **data)
            t = N.asarray(tol, dtype=N.longdouble)
            bad = ~(d <= t)
        if bad.any():
            self.fail(label, "%s got %s, expected %s, difference %s > %s" % (
                message, clean(N.asarray(got)), clean(N.asarray(want, dtype=float)),
                clean(N.asarray(d, dtype=float)), clean(N.asarray(tol, dtype=float))), **data)
        if d.size:
            with N.errstate(all="ignore"):
                r = float(N.max(N.where(t > 0, d / N.where(t > 0, t, 1), 0)))
            if r > self.margins.get(label, -1):
                self.margins[label] = r

    def raises(self, exc, fn, label, message=""):
        self.counts[label] = self.counts.get(label, 0) + 1
        try:
            v = fn()
        except exc:
            return
        except (Violation, CaseTimeout):
            raise
        except BaseException as e:
            self.fail(label, "%s raised %r, expected %s" % (message, e, exc))
        self.fail(label, "%s returned %s instead of raising %s" % (message, repr(v)[:200], exc))

    def dump(self):
        return dict(counts=self.counts, margins=self.margins, seen=self.seen,
                    signatures=sorted(self.signatures), samples=self.samples,
                    violations=self.violations, cases=self.cases)


# -- line coverage of the code under test (evidence of reach) ---------------
class Reach:
    """Which lines of the repository the workload executed (sys.monitoring)."""
    def __init__(self):
        self.lines = set()
        self._cache = {}
        self.prefix = os.path.join(os.path.realpath(REPO), "attitude") + os.sep
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, "verif")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self._line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def _line(self, code, line):
        fn = code.co_filename
        rel = self._cache.get(fn)
        if rel is None:
            p = os.path.realpath(fn) if os.path.isabs(fn) else fn
            rel = self._cache[fn] = p[len(self.prefix):] if p.startswith(self.prefix) else ""
        if rel:
            self.lines.add((rel, line))
        return sys.monitoring.DISABLE


def case_rng(prop, seed, idx):
    h = int.from_bytes(hashlib.sha256(prop.encode()).digest()[:4], "big")
    return N.random.default_rng(N.random.SeedSequence([seed & 0xffffffff, h, idx]))


def _alarm(*_):
    raise CaseTimeout("no answer within %d s" % CASE_TIMEOUT)


def run_one(mod, m, prop, seed, idx):
    """One case; every way it can end is a verdict."""
    m.begin(idx)
    rng = case_rng(prop, seed, idx)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run_case(m, rng, idx)
    except Violation:
        pass
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        m.violations.append(dict(case=idx, label="exception",
            message="%s: %s" % (type(e).__name__, e), context=clean(m.context),
            data=dict(traceback=tb[-3000:])))
    finally:
        signal.alarm(0)


def worker(mod, prop, seed, indices, deadline, out):
    m = Monitor(prop)
    reach = None
    try:
        reach = Reach()
    except Exception:
        pass
    if hasattr(mod, "setup"):
        mod.setup()
    for k, idx in enumerate(indices):
        if time.time() > deadline:
            m.counts["__deadline"] = 1
            break
        run_one(mod, m, prop, seed, idx)
        if k < 2 or (len(m.samples) < 4 and k % 97 == 0):
            m.samples.append(dict(clean(m.context), case_number=idx))
        if len(m.violations) >= MAX_REPORT:
            break
    if hasattr(mod, "finish"):
        m.begin(-1)
        try:
            mod.finish(m)
        except Violation:
            pass
        m.cases -= 1
    d = m.dump()
    d["lines"] = sorted(reach.lines) if reach else []
    with open(out, "w") as f:
        json.dump(d, f)


def merge(parts):
    tot = dict(counts={}, margins={}, seen={}, signatures=set(), samples=[],
               violations=[], cases=0, lines=set())
    for p in parts:
        for k, v in p["counts"].items():
            tot["counts"][k] = tot["counts"].get(k, 0) + v
        for k, v in p["margins"].items():
            tot["margins"][k] = max(tot["margins"].get(k, 0), v)
        for k, v in p["seen"].items():
            t = tot["seen"].setdefault(k, {})
            for a, b in v.items():
                t[a] = t.get(a, 0) + b
        tot["signatures"].update(p["signatures"])
        tot["samples"] += p["samples"]
        tot["violations"] += p["violations"]
        tot["cases"] += p["cases"]
        tot["lines"].update(map(tuple, p["lines"]))
    return tot


def known_findings(prop):
    """Findings recorded (not repaired): [(label, substring, text)]."""
    out = []
    fn = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known" and d.get("property") == prop:
                    out.append(d)
    return out


def main(prop, mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int, help="run only this case, in this process")
    ap.add_argument("--replay", help="rerun the case a replay file names")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.case, a.tier = r["seed"], r["case"], r["tier"]
    mod.TIER = a.tier

    if a.case is not None:
        m = Monitor(prop)
        if hasattr(mod, "setup"):
            mod.setup()
        run_one(mod, m, prop, a.seed, a.case)
        print(json.dumps(m.dump(), indent=1, default=str)[:6000])
        return 1 if m.violations else 0

    t0 = time.time()
    total = a.cases or mod.CASES[a.tier]
    budget = 420 if a.tier == "quick" else 3000
    deadline = t0 + budget
    jobs = max(1, min(a.jobs, total))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    sys.stdout.flush()
    procs = []
    for j in range(jobs):
        out = os.path.join(tmp, "%d.json" % j)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, prop, a.seed, range(j, total, jobs), deadline, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        procs.append((pid, out))
    parts, broken = [], []
    for pid, out in procs:
        status = 0
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > deadline + 2 * CASE_TIMEOUT:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                status = -1
                break
            time.sleep(0.02)
        if status == 0 and os.path.exists(out):
            parts.append(json.load(open(out)))
        else:
            broken.append(status)
    for _, out in procs:
        if os.path.exists(out):
            os.unlink(out)
    os.rmdir(tmp)
    tot = merge(parts)
    extra = {}
    if hasattr(mod, "summary"):
        m = Monitor(prop)
        m.begin(-2)
        try:
            extra = mod.summary(m, tot) or {}
        except Violation:
            pass
        tot["violations"] += m.violations
        for k, v in m.counts.items():
            tot["counts"][k] = tot["counts"].get(k, 0) + v

    known = known_findings(prop)
    fresh, hit = [], {}
    for v in tot["violations"]:
        k = next((k for k in known if k["label"] == v["label"]
                  and k.get("match", "") in v["message"]), None)
        if k:
            hit[k["what"]] = hit.get(k["what"], 0) + 1
        else:
            fresh.append(v)

    evaluations = sum(v for k, v in tot["counts"].items() if not k.startswith("__"))
    perfile = {}
    for f, _ in tot["lines"]:
        perfile[f] = perfile.get(f, 0) + 1
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=tot["cases"],
            distinct_nontrivial=len(tot["signatures"]),
            rule=mod.RULE,
            samples=tot["samples"][:6],
            oracle_evaluations=evaluations,
            oracle_evaluations_by_kind={k: v for k, v in sorted(tot["counts"].items()) if not k.startswith("__")},
            worst_margin_by_kind={k: round(v, 4) for k, v in sorted(tot["margins"].items())},
            observed_states={k: (v if len(v) <= 60 else dict(list(sorted(v.items()))[:60], __distinct=len(v)))
                             for k, v in tot["seen"].items()},
            repository_lines_executed=dict(sorted(perfile.items())),
            stopped_at_deadline=bool(tot["counts"].get("__deadline")),
            known_findings_seen=hit, **extra),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if any(os.WIFEXITED(b) for b in broken if b >= 0):
        print("ERROR property=%s: the check itself failed (status %s)" % (prop, broken))
        return 2
    if broken:
        fresh.append(dict(case=None, label="crash", message="a worker process ended abnormally (status %s)" % broken,
                          context={}, data={}))
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(fresh[:MAX_REPORT]):
            fn = os.path.join(rd, "%s-%d.json" % (prop, i))
            with open(fn, "w") as f:
                json.dump(dict(property=prop, seed=a.seed, tier=a.tier, **v), f, indent=1)
            print("  case %s [%s] %s" % (v["case"], v["label"], v["message"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    if not tot["cases"] or not evaluations or not tot["signatures"]:
        print("INCONCLUSIVE property=%s: the monitors observed nothing" % prop)
        return 2
    print("HELD property=%s cases=%d oracle_evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tot["cases"], evaluations, len(tot["signatures"]), time.time() - t0))
    return 0

"""C26: concurrent and earlier work never changes a result."""
import hashlib, os, pickle, random, struct, sys, threading, time, traceback
from common import *
import harness
from c07 import Near
from attitude import Orientation, ReconstructedPlane
from attitude.error import axes as E, pca_to_mapping
from attitude import stereonet as S, geom
from attitude.orientation.grouped import GroupedOrientation
from attitude.orientation.linear import LinearOrientation, Regression
from attitude.display.hyperbola import hyperbolic_errors

RULE = ("pools of data sets, many of them deliberately alike (same shape, translated copies with the same identifier, permuted rows, one array refilled in place), are fitted and queried by 2-8 threads on their own and on shared fits; a line monitor on the library's code forces thread switches at random lines and logs the interleaving; every result is compared with the one a pristine process computes for that job alone; distinct by interleaving")
CASES = dict(quick=1000, thorough=12000)
FILES = ["orientation/pca.py", "error/axes.py", "stereonet.py"]
ASSUMPTIONS = ["switches are forced between lines of the library; numerical libraries release or hold the interpreter lock as they like"]
_prefix = os.path.join(os.path.realpath(harness.REPO), "attitude") + os.sep
TOOL = 0


# -- jobs --------------------------------------------------------------------
def _ops():
    O = {}
    for k in ("strike_dip", "dip_direction", "rake", "strike_dip_rake", "angular_errors", "gradient", "residuals", "rotated", "to_mapping", "__repr__"):
        O[k] = (lambda k: lambda f, p: getattr(f, k)())(k)
    for k in ("hash", "principal_axes", "hyperbolic_axes", "covariance_matrix", "explained_variance", "coefficients", "azimuth", "slope", "eigenvalues", "center",
              "centered_array", "normal", "axes", "singular_values", "U", "mean", "n"):
        O[k] = (lambda k: lambda f, p: getattr(f, k))(k)
    for k in ("noise_axes", "sampling_axes", "francq_axes", "babamoradi_axes", "noise_covariance", "sampling_covariance", "statistical_axes", "jolliffe_axes"):
        O[k] = (lambda k: lambda f, p: getattr(E, k)(f, confidence_level=p))(k)
    for s in ("upper", "lower", "nominal"):
        O["plane_" + s] = (lambda s: lambda f, p: ring(S.plane_errors(f.axes, f.covariance_matrix, sheet=s, level=p, n=30)))(s)
        O["iter_" + s] = (lambda s: lambda f, p: ring(S.iterative_plane_errors(f.axes, f.covariance_matrix, sheet=s, n=12)))(s)
    for t in (True, False):
        O["normal_%s" % t] = (lambda t: lambda f, p: ring(S.normal_errors(f.axes, f.covariance_matrix, traditional_layout=t, level=p, n=30)))(t)
        O["plane_layout_%s" % t] = (lambda t: lambda f, p: ring(S.plane_errors(f.axes, f.covariance_matrix, traditional_layout=t, level=p, n=30)))(t)
        O["iter_normal_%s" % t] = (lambda t: lambda f, p: ring(S.iterative_normal_errors(f.axes, f.covariance_matrix, traditional_layout=t, n=12)))(t)
    O["pca_to_mapping"] = lambda f, p: pca_to_mapping(f)
    O["aligned"] = lambda f, p: geom.aligned_covariance(f)
    O["coords"] = lambda f, p: f.error_coords(n=8, ellipse=False, levels=[1, 2])
    O["coords_options"] = lambda f, p: f.error_coords(n=int(8 + 8 * p), ellipse=False, traditional_layout=p < .9)
    O["coords_levels"] = lambda f, p: S.error_coords(f.axes, f.covariance_matrix, n=6, ellipse=False, levels=[p, 2 * p], traditional_layout=p >= .9)
    O["plane_options"] = lambda f, p: ring(S.plane_errors(f.axes, f.covariance_matrix, sheet="upper" if p < .9 else "lower", level=p, n=int(8 + 10 * p), traditional_layout=p in (.5, .95)))
    O["iter_options"] = lambda f, p: ring(S.iterative_plane_errors(f.axes, f.covariance_matrix, sheet="upper" if p < .9 else "lower", n=int(6 + 10 * p), traditional_layout=p in (.5, .95)))
    O["axes_options"] = lambda f, p: [E.noise_axes(f, confidence_level=p, variance_on_all_axes=p < .9), E.sampling_axes(f, chisq=p < .9, confidence_level=p), E.fisher_statistic(f.n, p)]
    O["angular_options"] = lambda f, p: [E.angular_errors(f.hyperbolic_axes * p), E.hyperbolic_axes(f, confidence_level=p)]
    O["hyp_oriented"] = lambda f, p: hyperbolic_errors(f.hyperbolic_axes, N.linspace(-p, p, 5), transformation=f.axes, axes=N.array([[p, (1 - p * p) ** .5, 0], [0, 0, 1.]]), means=N.array([p, -p]))
    O["mapping_error"] = lambda f, p: pca_to_mapping(f, name="%g" % p)
    O["mapping_values"] = lambda f, p: f.to_mapping(name="n%g" % p, color="c", strike=p)
    O["conic"] = lambda f, p: N.array(f.as_hyperbola(rotated=True)) / N.abs(N.array(f.as_hyperbola(rotated=True))).max()
    O["hyp"] = lambda f, p: hyperbolic_errors(f.hyperbolic_axes, N.linspace(-p, p, 7))
    O["refit"] = lambda f, p: Orientation(f.array).strike_dip()
    O["weighted"] = lambda f, p: Orientation(f.array, weights=N.array([1., 1 + p, 2.])).strike_dip()
    O["recovered"] = lambda f, p: Orientation(f.array, axes=f.principal_axes).rotated()
    O["linear"] = lambda f, p: LinearOrientation(f.array).strike_dip()
    O["regression"] = lambda f, p: Regression(f.array).residuals
    O["rebuilt"] = lambda f, p: [ReconstructedPlane(*f.strike_dip_rake(), 2 + p, 5 + p).axes, ReconstructedPlane(*f.strike_dip_rake(), 2 + p, 5 + p).hyperbolic_axes]
    O["mean"] = lambda f, p: f.mean
    return O


def ring(ll):
    """Longitudes jump at 180 degrees: compare directions."""
    a = N.array(ll)
    return N.array([N.cos(a[:, 1]) * N.cos(a[:, 0]), N.cos(a[:, 1]) * N.sin(a[:, 0]), N.sin(a[:, 1])])


OPS = _ops()
NAMES = sorted(OPS)


def make(job):
    k = job["kind"]
    if k == "plain":
        return Orientation(job["arr"])
    if k == "weighted":
        return Orientation(job["arr"], weights=job["w"])
    if k == "recovered":
        return Orientation(job["arr"], axes=job["axes"])
    h = len(job["arr"]) // 2
    return GroupedOrientation(Orientation(job["arr"][:h]), Orientation(job["arr"][h:]), same_plane=bool(job["same"]))


def one(f, nm, p):
    try:
        return OPS[nm](f, p)
    except harness.CaseTimeout:
        raise
    except Exception as e:
        return "raised " + type(e).__name__


def alone(job):
    f = make(job)
    return [one(f, nm, p) for nm, p in job["ops"]]


# -- a process that has done nothing else ---------------------------------------
class Zygote:
    def __init__(self):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.close(self.w)
            try:
                self.serve(r, w)
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)

    @staticmethod
    def read(fd, n):
        b = b""
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b

    @classmethod
    def recv(cls, fd):
        h = cls.read(fd, 8)
        return None if h is None else cls.read(fd, struct.unpack("q", h)[0])

    @staticmethod
    def send(fd, b):
        b = struct.pack("q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    @classmethod
    def serve(cls, r, w):
        while True:
            q = cls.recv(r)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        v = alone(pickle.loads(q))
                    except BaseException:
                        v = traceback.format_exc()
                    cls.send(w, pickle.dumps(v))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, job):
        self.send(self.w, pickle.dumps(job))
        b = self.recv(self.r)
        return pickle.loads(b)

    def stop(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


_zygote = None


def setup():
    global _zygote
    _zygote = Zygote()


def finish(m):
    if _zygote:
        _zygote.stop()


# -- forced interleavings -----------------------------------------------------------
class Interleave:
    def __init__(self, seed, p):
        self.log = []
        self.rnd = random.Random(seed)
        self.p = p
        self.cache = {}

    def line(self, code, line):
        fn = code.co_filename
        ours = self.cache.get(fn)
        if ours is None:
            ours = self.cache[fn] = os.path.realpath(fn).startswith(_prefix)
        if not ours:
            return sys.monitoring.DISABLE
        self.log.append((threading.get_ident(), line))
        if self.rnd.random() < self.p:
            time.sleep(0 if self.rnd.random() < .7 else 2e-5)

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "verif-interleave")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def pool(rng):
    out = []
    base = None
    for i in range(int(rng.integers(2, 6))):
        u = rng.random()
        if base is not None and u < .2:
            arr = base + rng.normal(size=3) * 50            # translated: same identifier
        elif base is not None and u < .35:
            arr = base[rng.permutation(len(base))]
        elif base is not None and u < .5:
            arr = base * [1, 1, -1]
        elif base is not None and u < .7:                 # same shape, first and last row
            arr = base + rng.normal(size=base.shape) * base.std() * .3
            arr[0], arr[-1] = base[0], base[-1]
        else:
            arr = N.array(gen.cloud(rng, n=int(rng.integers(6, 60)), noise=float(10 ** rng.uniform(-3, -1)), dtypes=False, present_as="plain", scale=100.).arr)
        base = arr
        out.append(N.ascontiguousarray(arr))
    return out


def job(rng, arr, shared=None):
    k = str(rng.choice(["plain", "plain", "plain", "weighted", "recovered", "group"]))
    d = dict(kind=k, arr=arr)
    if k == "weighted":
        d["w"] = rng.uniform(.5, 2, 3)
    elif k == "recovered":
        c = arr - arr.mean(0)
        _, s, V = N.linalg.svd(c, full_matrices=False)
        d["axes"] = V * s * (-1 if rng.random() < .5 else 1)
    elif k == "group":
        d["same"] = bool(rng.random() < .5)
    d["ops"] = [(NAMES[int(i)], float(rng.choice([.5, .8, .9, .95, .99]))) for i in rng.integers(0, len(NAMES), int(rng.integers(4, 14)))]
    return d


def compare(m, got, want, jb, label):
    m.ok(not isinstance(want, str), "job_runs_alone", str(want)[-800:])
    m.ok(len(got) == len(want), "all_operations_answered")
    for (nm, p), g, w in zip(jb["ops"], got, want):
        same = (g == w) if isinstance(g, str) and nm in ("hash",) else Near([strip(nm, g)]) == Near([strip(nm, w)])
        m.ok(same, label, "%s of a %s fit: got %s, alone %s" % (nm, jb["kind"], repr(g)[:300], repr(w)[:300]), operation=nm)


def strip(nm, v):
    # identifiers are derived from the last bits of the decomposition
    if isinstance(v, dict):
        return {k: x for k, x in v.items() if k not in ("uid", "members", "member_of")}
    return "" if nm == "hash" else v


def run_case(m, rng, idx):
    if _zygote is None:
        setup()
    arrs = pool(rng)
    if idx % 6 == 5:
        return history(m, rng, arrs)
    k = int(rng.integers(2, 9))
    shared = rng.random() < .5
    jobs = []
    if shared:
        first = job(rng, arrs[0])
        for i in range(k):
            j = dict(first)
            j["ops"] = job(rng, arrs[0])["ops"]
            jobs.append(j)
    else:
        jobs = [job(rng, arrs[int(rng.integers(len(arrs)))]) for i in range(k)]
    if rng.random() < .5:
        # contention: every thread in the same few functions with other arguments
        few = [NAMES[int(i)] for i in rng.integers(0, len(NAMES), int(rng.integers(1, 4)))]
        if rng.random() < .5:
            opt = [x for x in NAMES if "option" in x or "level" in x or "layout" in x]
            few[0] = opt[int(rng.integers(len(opt)))]
        for j in jobs:
            j["ops"] = [(few[int(rng.integers(len(few)))], float(rng.choice([.5, .8, .9, .95, .99]))) for _ in range(int(rng.integers(6, 16)))]
        m.state("contended", *sorted(set(few)))
    m.note(threads=k, shared=bool(shared), kinds=[j["kind"] for j in jobs], ops=[[o[0] for o in j["ops"]] for j in jobs][:3])
    want = [_zygote.ask(j) for j in jobs]
    fit = make(jobs[0]) if shared else None
    res, err = [None] * k, [None] * k
    bar = threading.Barrier(k)

    def work(i):
        try:
            bar.wait(20)
            f = fit if shared else make(jobs[i])
            res[i] = [one(f, nm, p) for nm, p in jobs[i]["ops"]]
        except BaseException:
            err[i] = traceback.format_exc()

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(k)]
    with Interleave(int(rng.integers(2 ** 31)), float(rng.choice([.02, .1, .4]))) as il:
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    m.ok(not any(t.is_alive() for t in ts), "threads_finish")
    m.ok(not any(err), "threads_do_not_fail", str([e[-500:] for e in err if e][:1]))
    for i in range(k):
        compare(m, res[i], want[i], jobs[i], "concurrent_equals_alone" + ("_shared" if shared else ""))
    seq = [t for t, _ in il.log]
    sw = sum(a != b for a, b in zip(seq, seq[1:]))
    ids = {}
    m.nontrivial(hashlib.sha1(repr([ids.setdefault(t, len(ids)) for t in seq]).encode()).hexdigest())
    m.counts["__switches"] = m.counts.get("__switches", 0) + sw
    m.counts["__lines"] = m.counts.get("__lines", 0) + len(seq)
    m.state("threads", k, "shared" if shared else "own")
    m.state("log10 switches", int(N.log10(sw + 1)))


def history(m, rng, arrs):
    """One array object refilled again and again, alike data in turn: no memory of the past."""
    k = max(len(a) for a in arrs)
    buf = N.zeros((k, 3))
    order = [int(i) for i in rng.integers(0, len(arrs), 6)]
    m.note(history=order)
    m.nontrivial("history", tuple(order), tuple(len(a) for a in arrs))
    m.state("history", len(set(order)))
    for i in order:
        a = arrs[i]
        view = buf[:len(a)]
        view[...] = a
        j = job(rng, view.copy())
        want = _zygote.ask(j)
        j["arr"] = view if rng.random() < .7 else a
        compare(m, alone(j), want, j, "history_independent")


def summary(m, tot):
    return dict(thread_switches_inside_the_library=tot["counts"].get("__switches", 0), library_lines_logged=tot["counts"].get("__lines", 0))

"""C07: nothing that reads a fit changes it, the caller's data, earlier results or global state."""
from common import *
import copy, hashlib, pickle, random
import matplotlib
import matplotlib.pyplot as P
from attitude import Orientation, ReconstructedPlane, create_groups
from attitude.error import axes as E, pca_to_mapping, to_normal_errors, from_normal_errors
from attitude import stereonet as S, geom
from attitude.geom.conics import conic
from attitude.coordinates import centered
from attitude.orientation.linear import LinearOrientation, Regression
from attitude.display import stereonet as DS, polar as DP
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors, apparent_dip_correction, hyperbola_values
from attitude.display import nbextension as NB
import attitude.display as D
from attitude.display.plot.cov_types.regressions import hyperbola, bootstrap_noise, bootstrap_resampled
from attitude.display.plot.cov_types.misc import ci
import importlib
EC = importlib.import_module('attitude.display.error_comparison')

RULE = ("random histories: a pool of fits (plain, weighted, upside-down, recovered, grouped, reconstructed, on writable and read-only arrays) receives "
        "12-40 random operations out of ~70 kinds (queries, error methods, surfaces, plots, exports, conversions, grouping); after every operation the monitor "
        "compares a bit-level snapshot of every array of every fit, every argument handed over and every earlier result, and global random / floating-point / "
        "plotting state; at the end every query is compared with that of an untouched twin; non-trivial = history completed; distinct by sequence of operations")
CASES = dict(quick=800, thorough=12000)
FILES = ["orientation/pca.py", "stereonet.py", "error/axes.py", "display/stereonet.py", "display/polar.py"]


def bits(v):
    """A bit-exact, hashable picture of a value."""
    if isinstance(v, N.ma.MaskedArray):
        return ("ma", bits(v.data), bits(N.ma.getmaskarray(v)))
    if isinstance(v, N.ndarray):
        return ("a", v.shape, str(v.dtype), hashlib.sha1(N.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, (float, N.floating)):
        return ("f", N.float64(v).tobytes())
    if isinstance(v, (bool, int, str, bytes, type(None), N.integer, N.bool_)):
        return v if not isinstance(v, (N.integer, N.bool_)) else v.item()
    if isinstance(v, dict):
        return ("d",) + tuple((str(k), bits(v[k])) for k in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(bits(i) for i in v)
    return ("o", type(v).__name__)


# What is stored must stay bit-identical; what is recomputed on each request may differ
# in the last bit with the alignment of temporaries, and is compared to 1e-11.
ATTRS = ["array", "arr", "mean", "weights", "singular_values", "V", "axes", "sigma", "offset", "normal", "strike", "dip_dr",
         "disabled", "hash", "n"]
COMPUTED = ["covariance_matrix", "hyperbolic_axes"]
QUERIES = ["strike_dip", "dip_direction", "rake", "strike_dip_rake", "angular_errors", "gradient", "residuals", "rotated"]
PROPS = ["hash", "principal_axes", "hyperbolic_axes", "covariance_matrix", "explained_variance", "coefficients", "azimuth", "slope",
         "eigenvalues", "center", "centered_array"]


OWNED = ["hyperbolic_axes", "covariance_matrix", "principal_axes", "eigenvalues", "rotated", "residuals", "angular_errors", "strike_dip_rake",
         "gradient", "to_mapping"]


def scribble(v):
    """Overwrite whatever can be overwritten."""
    if isinstance(v, N.ndarray):
        if v.flags.writeable and v.dtype.kind in "fiu":
            v[...] = v * 3 + 7
    elif isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
            v[k] = "scribble"
    elif isinstance(v, list):
        for i in v:
            scribble(i)
        v[:] = ["scribble"] * len(v)
    elif isinstance(v, tuple):
        for i in v:
            scribble(i)


def snapshot(f):
    out = {}
    for k in ATTRS:
        try:
            v = getattr(f, k)
        except Exception as e:
            v = repr(type(e))
        out[k] = bits(v)
    out["member_of"] = id(getattr(f, "member_of", None))
    for k in COMPUTED:
        try:
            out[k] = Near(getattr(f, k))
        except Exception as e:
            out[k] = repr(type(e))
    return out


class Near:
    """Numbers that compare equal up to rounding."""
    def __init__(self, v):
        if isinstance(v, dict):
            self.shape = sorted(v)
            v = [v[k] for k in self.shape]
        else:
            self.shape = None
        self.leaves = []
        self.flat(v)

    def flat(self, v):
        if isinstance(v, dict):
            for k in sorted(v, key=str):
                self.leaves.append(str(k))
                self.flat(v[k])
        elif isinstance(v, N.ndarray) and v.dtype != object:
            self.leaves.append(N.array(v, float))
        elif isinstance(v, (list, tuple)):
            try:
                a = N.array(v, float)
                self.leaves.append(a)
            except (ValueError, TypeError):
                for i in v:
                    self.flat(i)
        elif isinstance(v, (float, int, N.number)) and not isinstance(v, bool):
            self.leaves.append(N.array(float(v)))
        else:
            self.leaves.append(repr(v) if not isinstance(v, str) else v)

    def __eq__(self, o):
        if not isinstance(o, Near) or self.shape != o.shape or len(self.leaves) != len(o.leaves):
            return False
        for a, b in zip(self.leaves, o.leaves):
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and isinstance(b, str) and a == b):
                    return False
                continue
            if a.shape != b.shape:
                return False
            if a.size:
                fin = a[N.isfinite(a)]
                t = 1e-11 * (float(N.abs(fin).max()) if fin.size else 1)
                if not N.allclose(a, b, rtol=1e-9, atol=t, equal_nan=True):
                    return False
        return True

    def __ne__(self, o):
        return not self == o


def everything(f):
    out = {}
    for k in QUERIES:
        try:
            out[k] = Near(getattr(f, k)())
        except Exception as e:
            out[k] = repr(type(e))
    for k in PROPS:
        try:
            out[k] = Near(getattr(f, k))
        except Exception as e:
            out[k] = repr(type(e))
    if hasattr(f, "to_mapping"):
        out["to_mapping"] = Near(f.to_mapping())
    out["repr"] = repr(f) if isinstance(f, Orientation) else ""
    for nm, fn in (("plane", S.plane_errors), ("normal", S.normal_errors)):
        ll = N.array(fn(f.axes, f.covariance_matrix, n=20))
        out[nm] = Near([N.cos(ll[:, 1]) * N.cos(ll[:, 0]), N.cos(ll[:, 1]) * N.sin(ll[:, 0])])
    return out


class Rec:
    """A fit under observation: how to make an untouched twin of it."""
    def __init__(self, name, make):
        self.name, self.make = name, make
        self.fit = make()
        self.twin = copy.deepcopy(self.fit)
        self.snap = snapshot(self.fit)


def is_pca(f):
    return isinstance(f, Orientation)


def ops():
    O = {}

    def op(name, pca=False, uses_random=False):
        def wrap(fn):
            O[name] = (fn, pca, uses_random)
            return fn
        return wrap

    for q in QUERIES:
        O["q_" + q] = ((lambda q: lambda c, f: getattr(f, q)())(q), True, False)
    for q in PROPS + ["U"]:
        O["p_" + q] = ((lambda q: lambda c, f: getattr(f, q))(q), True, False)
    for nm in ["noise_axes", "sampling_axes", "statistical_axes", "hyperbolic_axes", "francq_axes", "babamoradi_axes", "eigenvalue_axes",
               "variance_axes", "noise_covariance", "sampling_covariance", "jolliffe_axes", "regression_axes"]:
        O["e_" + nm] = ((lambda nm: lambda c, f: getattr(E, nm)(f))(nm), True, False)
    O["e_options"] = (lambda c, f: E.noise_axes(f, confidence_level=float(c.rng.uniform(.5, .99)), variance_on_all_axes=False), True, False)
    O["e_scaling"] = (lambda c, f: E.angular_errors(c.arg(f.hyperbolic_axes)), False, False)
    O["e_chisq"] = (lambda c, f: E.sampling_axes(f, chisq=True), True, False)
    O["e_dual"] = (lambda c, f: (to_normal_errors(c.arg(f.hyperbolic_axes + 1)), from_normal_errors(c.arg(f.hyperbolic_axes + 1))), False, False)
    O["pca_to_mapping"] = (lambda c, f: pca_to_mapping(f, name="x"), True, False)
    O["to_mapping"] = (lambda c, f: f.to_mapping(color="red", name="a"), False, False)
    O["to_mapping_override"] = (lambda c, f: f.to_mapping(strike=12, disabled=True, centered_array=None), False, False)
    O["repr"] = (lambda c, f: repr(f), False, False)
    O["angle_with"] = (lambda c, f: geom.fit_angle(f, c.other(f)), False, False)
    O["similarity"] = (lambda c, f: geom.fit_similarity(f, c.other(f, True)), True, False)
    O["aligned_covariance"] = (lambda c, f: geom.aligned_covariance(f), True, False)
    O["as_hyperbola"] = (lambda c, f: f.as_hyperbola(rotated=bool(c.rng.random() < .5)), True, False)
    O["as_conic"] = (lambda c, f: f.as_conic(), True, False)
    O["copy"] = (lambda c, f: (copy.copy(f), copy.deepcopy(f)) and None, False, False)
    O["pickle"] = (lambda c, f: pickle.loads(pickle.dumps(f)) and None, False, False)
    O["refit"] = (lambda c, f: Orientation(c.arg(f.array)).strike_dip(), True, False)
    O["refit_weighted"] = (lambda c, f: Orientation(c.arg(f.array), weights=c.arg(N.array([1., 2., 3.]))).strike_dip(), True, False)
    O["recover"] = (lambda c, f: Orientation(c.arg(f.array), axes=c.arg(f.principal_axes)).strike_dip(), True, False)
    O["centered"] = (lambda c, f: centered(c.arg(f.array)), True, False)
    O["linear"] = (lambda c, f: (LinearOrientation(c.arg(f.array)).strike_dip(), Regression(c.arg(f.array)).residuals), True, False)
    O["rebuild"] = (lambda c, f: ReconstructedPlane(*f.strike_dip_rake(), 2, 5).axes, False, False)
    for sheet in ("upper", "lower", "nominal"):
        for t in (True, False):
            O["plane_errors_%s_%s" % (sheet, t)] = ((lambda sheet, t: lambda c, f: S.plane_errors(
                c.arg(f.axes), c.arg(f.covariance_matrix), sheet=sheet, traditional_layout=t, n=40, level=c.level()))(sheet, t), False, False)
        O["iter_plane_" + sheet] = ((lambda sheet: lambda c, f: S.iterative_plane_errors(
            c.arg(f.axes), c.arg(f.covariance_matrix), sheet=sheet, n=20))(sheet), False, False)
    for t in (True, False):
        O["normal_errors_%s" % t] = ((lambda t: lambda c, f: S.normal_errors(c.arg(f.axes), c.arg(f.covariance_matrix), traditional_layout=t, n=40))(t), False, False)
        O["iter_normal_%s" % t] = ((lambda t: lambda c, f: S.iterative_normal_errors(c.arg(f.axes), c.arg(f.covariance_matrix), traditional_layout=t, n=20))(t), False, False)
    O["error_coords"] = (lambda c, f: S.error_coords(c.arg(f.axes), c.arg(f.covariance_matrix), n=20, ellipse=False), False, False)
    O["error_coords_levels"] = (lambda c, f: f.error_coords(levels=[1, 2], n=20, ellipse=False), True, False)
    O["method_plane_errors"] = (lambda c, f: f.plane_errors(n=30, sheet="lower"), True, False)
    O["girdle"] = (lambda c, f: DS.girdle_error(c.stereonet(), f, facecolor="red", alpha=.3), False, False)
    O["pole"] = (lambda c, f: DS.pole_error(c.stereonet(), f, facecolor="blue"), False, False)
    O["polar_pole"] = (lambda c, f: DP.pole_error(c.polar(), f, color="blue"), False, False)
    O["draw"] = (lambda c, f: c.draw(), False, False)
    O["hyp_errors"] = (lambda c, f: hyperbolic_errors(c.arg(f.hyperbolic_axes), c.arg(N.linspace(-5, 5, 21)), axes=c.arg(N.array([[1., 0, 0], [0, 0, 1]]))), True, False)
    O["hyp_errors_oriented"] = (lambda c, f: hyperbolic_errors(c.arg(f.hyperbolic_axes), c.arg(N.linspace(-5, 5, 21)), transformation=c.arg(f.axes),
                                axes=c.arg(N.array([[.6, .8, 0], [0, 0, 1.]])), means=c.arg(N.array([3., 4.]))), True, False)
    O["hyp_values"] = (lambda c, f: hyperbola_values(c.arg(f.hyperbolic_axes[1:]), c.arg(N.linspace(-5, 5, 21))), True, False)
    O["hyp_plot"] = (lambda c, f: HyperbolicErrors(c.arg(f.hyperbolic_axes), c.arg(N.linspace(-5, 5, 21))).plot(c.plain(), fc="red"), True, False)
    O["apparent"] = (lambda c, f: apparent_dip_correction(c.arg(f.axes)), False, False)
    O["cov_hyperbola"] = (lambda c, f: hyperbola(c.arg(f.hyperbolic_axes[1:]), c.arg(N.identity(2)), c.arg(N.zeros(2)), c.arg(N.linspace(-3, 3, 9))), True, False)
    O["plot_aligned"] = (lambda c, f: P.close(D.plot_aligned(f)), True, False)
    O["comparison"] = (lambda c, f: P.close(D.error_comparison(f)), True, False)
    O["comparison_bootstrap"] = (lambda c, f: c.comparison_bootstrap(f), True, True)
    O["notebook"] = (lambda c, f: c.notebook(f), False, False)
    O["group"] = (lambda c, f: c.group(), False, False)
    O["boot_noise"] = (lambda c, f: bootstrap_noise(c.arg(f.arr), lambda a: Orientation(a).axes[2][2], n=3, symmetric=bool(c.rng.random() < .5)).shape, True, True)
    O["boot_resample"] = (lambda c, f: bootstrap_resampled(c.arg(f.arr), lambda a: a.mean(), n=3).shape, True, True)
    O["ci"] = (lambda c, f: ci(c.arg(f.arr), axis=0), True, False)
    O["cartopy"] = (lambda c, f: c.cartopy(f), False, False)
    O["shell"] = (lambda c, f: c.shell(f), False, False)
    return O


OPS = ops()
NAMES = sorted(OPS)
SLOW = {"plot_aligned": .15, "comparison": .15, "draw": .1, "comparison_bootstrap": .6, "cartopy": .4, "shell": .4}


class Ctx:
    def __init__(self, m, rng, pool):
        self.m, self.rng, self.pool = m, rng, pool
        self.args = []
        self._st = self._po = self._pl = None

    def level(self):
        return float(self.rng.choice([.5, 1, 2, 3]))

    def arg(self, a):
        """Hand over an array, remembered bit for bit; sometimes read-only."""
        if self.rng.random() < .3 and isinstance(a, N.ndarray):
            a = a.copy()
            a.setflags(write=False)
        self.args.append((a, bits(a)))
        return a

    def other(self, f, pca=False):
        c = [r.fit for r in self.pool if not pca or is_pca(r.fit)]
        return c[int(self.rng.integers(len(c)))]

    def stereonet(self):
        if self._st is None:
            self._st = P.figure().add_subplot(111, projection="stereonet")
        return self._st

    def polar(self):
        if self._po is None:
            self._po = P.figure().add_subplot(111, projection="polar")
        return self._po

    def plain(self):
        if self._pl is None:
            self._pl = P.figure().add_subplot(111)
        return self._pl

    def draw(self):
        for a in (self._st, self._po, self._pl):
            if a is not None:
                a.figure.canvas.draw()

    def comparison_bootstrap(self, f):
        real = EC.bootstrap_noise
        def few(*a, **k):
            k["n"] = 12
            return real(*a, **k)
        EC.bootstrap_noise = few
        try:
            P.close(D.error_comparison(f, do_bootstrap=True))
        finally:
            EC.bootstrap_noise = real

    def notebook(self, f):
        real = NB.display
        NB.display = lambda *a, **k: None
        try:
            m = dict(uid="x", name="y", strike=1., dip=2.)
            b = bits(m)
            l = [f, m]
            NB.plot_interactive(l)
            self.m.ok(bits(m) == b and len(l) == 2 and l[0] is f and l[1] is m, "notebook_arguments")
        finally:
            NB.display = real

    def group(self):
        o = [r.fit for r in self.pool if is_pca(r.fit) and not hasattr(r.fit, "members") and r.fit.array.shape[1] == 3]
        if len(o) < 2:
            return None
        ids = [x.hash for x in o]
        if len(set(ids)) < len(ids):
            return None
        before = list(o)
        out = create_groups(o, ids[:2])
        self.m.ok(len(o) == len(before) and all(a is b for a, b in zip(o, before)), "grouping_leaves_list")
        self.m.ok(all(a is not b for a in out for b in before), "grouping_copies")
        return out[-1].strike_dip()

    def cartopy(self, f):
        from attitude.display.cartopy import cartopy_girdle, cartopy_normal
        with N.errstate(all="ignore"):
            return [bits(N.array(next(iter(x.geometries())).exterior.coords)) for x in (cartopy_girdle(f), cartopy_normal(f))]

    def shell(self, f):
        if hasattr(f, "cartopy_girdle"):
            return [bits(N.array(next(iter(x.geometries())).exterior.coords)) for x in (f.cartopy_girdle(), f.cartopy_normal())]


def make_pool(rng):
    pool, raw = [], []
    k = int(rng.integers(2, 5))
    for i in range(k):
        c = gen.cloud(rng, lo=4, n=int(rng.integers(4, 200)), noise=float(10 ** rng.uniform(-4, -.7)), scale=float(10 ** rng.uniform(0, 3)))
        arr = c.arr
        raw.append((arr, bits(arr)))
        u = rng.random()
        if u < .5:
            pool.append(Rec("plain", lambda arr=arr: Orientation(arr)))
        elif u < .65:
            w = rng.uniform(.5, 2, 3)
            raw.append((w, bits(w)))
            pool.append(Rec("weighted", lambda arr=arr, w=w: Orientation(arr, weights=w)))
        elif u < .8:
            ax = Orientation(arr).principal_axes
            if rng.random() < .5:
                ax = -ax     # saved upside down
            raw.append((ax, bits(ax)))
            pool.append(Rec("recovered", lambda arr=arr, ax=ax: Orientation(arr, axes=ax)))
        else:
            from attitude.orientation.grouped import GroupedOrientation
            b = N.array(arr, float) + 10
            raw.append((b, bits(b)))
            pool.append(Rec("grouped", lambda arr=arr, b=b: GroupedOrientation(Orientation(arr), Orientation(b))))
    if rng.random() < .6:
        a = (float(rng.uniform(0, 360)), float(rng.uniform(1, 89)), float(rng.uniform(0, 180)), float(rng.uniform(1, 10)), float(rng.uniform(10, 40)))
        pool.append(Rec("reconstructed", lambda a=a: ReconstructedPlane(*a)))
    return pool, raw


def reset_probe(m, ctx, rng, fn, fit, name):
    """Drawing random numbers moves the generator on; arriving at one state from
    two different ones means that it was seeded or reset."""
    state, g = rng.bit_generator.state, N.random.get_state()
    ends = []
    with N.errstate(all="ignore"):
        for seed in (11, 12):
            rng.bit_generator.state = state
            N.random.seed(seed)
            start = global_state()[:2]
            fn(ctx, fit)
            ends.append((start, global_state()[:2]))
    N.random.set_state(g)
    (s1, e1), (s2, e2) = ends
    m.ok(e1 != e2, "random_state_not_reset", "%s leaves the same random state whatever the one before" % name)


def global_state():
    return (bits(N.random.get_state()[1]), N.random.get_state()[2], hash(random.getstate()), tuple(sorted(N.geterr().items())),
            repr(sorted(N.get_printoptions().items(), key=str)))


def run_case(m, rng, idx):
    P.close("all")
    pool, raw = make_pool(rng)
    ctx = Ctx(m, rng, pool)
    history, results = [], []
    m.note(pool=[r.name for r in pool], sizes=[getattr(r.fit, "n", 0) for r in pool])
    N.random.seed(int(rng.integers(2 ** 31)))
    random.seed(int(rng.integers(2 ** 31)))
    rc = dict(matplotlib.rcParams)
    for step in range(int(rng.integers(12, 40))):
        name = NAMES[int(rng.integers(len(NAMES)))]
        if name in SLOW and rng.random() > SLOW[name]:
            continue
        fn, pca, uses_random = OPS[name]
        cand = [r for r in pool if not pca or is_pca(r.fit)]
        r = cand[int(rng.integers(len(cand)))]
        history.append((name, r.name))
        m.note(history=history[-12:])
        g0 = global_state()
        with N.errstate(all="ignore"):
            try:
                out = fn(ctx, r.fit)
            except N.linalg.LinAlgError:
                # e.g. a regression of z on x, y for a vertical plane: a refusal changes nothing either
                m.state("refused", name)
                out = None
        g1 = global_state()
        if uses_random:
            m.ok(g0[2:] == g1[2:], "global_state", name)
            reset_probe(m, ctx, rng, fn, r.fit, name)
        else:
            m.ok(g0 == g1, "global_state", "%s changed global random, floating-point or print state" % name)
        for q in pool:
            s = snapshot(q.fit)
            bad = [k for k in s if s[k] != q.snap[k]]
            m.ok(not bad, "fit_unchanged", "after %s of %s the %s of %s changed" % (name, r.name, bad, q.name))
        for a, b in raw:
            m.ok(bits(a) == b, "caller_data_unchanged", "after %s of %s" % (name, r.name))
        for a, b in ctx.args:
            m.ok(bits(a) == b, "arguments_unchanged", "after %s of %s" % (name, r.name))
        ctx.args = ctx.args[-12:]
        for nm, a, b in results:
            m.ok(bits(a) == b, "earlier_results_unchanged", "the result of %s changed after %s" % (nm, name))
        if isinstance(out, (N.ndarray, list, tuple, dict)):
            results.append((name, out, bits(out)))
            results = results[-25:]
        m.state("operation", name)
        m.state("fit", r.name)
    P.close("all")
    m.ok({k: v for k, v in matplotlib.rcParams.items() if not k.startswith("_")} == {k: v for k, v in rc.items() if not k.startswith("_")}, "plot_settings_unchanged")
    # after the whole history every query answers like an untouched twin
    for q in pool:
        with N.errstate(all="ignore"):
            a, b = everything(q.fit), everything(q.twin)
        bad = [k for k in a if a[k] != b[k]]
        m.ok(not bad, "twin_agrees", "%s of %s differ from an untouched twin" % (bad, q.name))
    # what a query worked out belongs to whoever asked: scribbling on it changes no later answer
    for q in pool:
        with N.errstate(all="ignore"):
            for k in OWNED if is_pca(q.fit) else ["angular_errors", "strike_dip_rake", "to_mapping"]:
                try:
                    v = getattr(q.fit, k)
                    v = v() if callable(v) else v
                except Exception:
                    continue
                scribble(v)
            for nm in ("noise_axes", "sampling_axes", "eigenvalue_axes", "variance_axes"):
                if is_pca(q.fit):
                    scribble(getattr(E, nm)(q.fit))
            for fn in (S.plane_errors, S.normal_errors):
                scribble(fn(q.fit.axes, q.fit.covariance_matrix, n=20))
            a, b = everything(q.fit), everything(q.twin)
        bad = [k for k in a if a[k] != b[k]]
        m.ok(not bad, "results_belong_to_the_caller", "%s of %s differ from an untouched twin after the caller overwrote earlier results" % (bad, q.name))
        s = snapshot(q.fit)
        bad = [k for k in s if s[k] != q.snap[k]]
        m.ok(not bad, "results_are_not_views_of_the_fit", "%s of %s changed when the caller overwrote earlier results" % (bad, q.name))
    m.nontrivial(tuple(h[0] for h in history), tuple(r.name for r in pool))

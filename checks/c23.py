"""C23: no NaN, infinity or invalid floating-point operation on well-posed data."""
import os, sys, traceback
from common import *
import harness
from attitude import Orientation, ReconstructedPlane
from attitude.error import axes as E, pca_to_mapping, to_normal_errors, from_normal_errors, asymptotes
from attitude import stereonet as S, geom
from attitude.coordinates import centered
from attitude.coordinates.rotations import transform
from attitude.geom.util import angle, perpendicular_vector, unit_vector
from attitude.orientation.linear import LinearOrientation, Regression
from attitude.orientation.grouped import GroupedOrientation
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors, hyperbola_values
from attitude.display.plot.cov_types.regressions import hyperbola

RULE = ("clouds of every attitude (30% exactly or almost horizontal, vertical or cardinal), layout, noise level, scale from 1e-12 to 1e12, offsets up to 1e7 sizes and size classes from 3 points; every public query, error method, surface, conic and export of the fit runs with floating-point exceptions routed to a monitor that records the call site, and every returned number is inspected; degenerate but legal data (three points, exact planes) run the orientation and error queries; distinct by attitude, shape and size class")
CASES = dict(quick=4200, thorough=90000)
FILES = ["orientation/pca.py", "error/axes.py", "stereonet.py", "geom/util.py"]

_prefix = os.path.join(os.path.realpath(harness.REPO), "attitude") + os.sep


class Events:
    """Floating-point events, with the repository line that caused them."""
    def __init__(self):
        self.seen = []

    def __call__(self, err, flag):
        f = sys._getframe(1)
        while f is not None:
            fn = f.f_code.co_filename
            if fn.startswith(_prefix) or os.path.realpath(fn).startswith(_prefix):
                self.seen.append("%s at %s:%d (%s)" % (err, os.path.realpath(fn)[len(_prefix):], f.f_lineno, f.f_code.co_name))
                return
            f = f.f_back


def leaves(v, out):
    if isinstance(v, N.ndarray):
        if v.dtype == object:
            for i in v.ravel():
                leaves(i, out)
        elif v.dtype.kind in "fc":
            out.append(v)
    elif isinstance(v, (float, complex, N.floating, N.complexfloating)):
        out.append(N.asarray(v))
    elif isinstance(v, dict):
        for i in v.values():
            leaves(i, out)
    elif isinstance(v, (list, tuple)):
        try:
            a = N.asarray(v)
        except ValueError:
            a = None
        if a is not None and a.dtype.kind in "fciub":
            out.append(a)
        else:
            for i in v:
                leaves(i, out)


class Watch:
    def __init__(self, m):
        self.m = m
        self.ev = Events()

    def __call__(self, name, fn):
        m = self.m
        del self.ev.seen[:]
        old = N.seterr(divide="call", invalid="call", over="call", under="ignore")
        cb = N.seterrcall(self.ev)
        try:
            v = fn()
        finally:
            N.seterrcall(cb)
            N.seterr(**old)
        m.ok(not self.ev.seen, "no_floating_point_event", "%s: %s" % (name, self.ev.seen[:3]), query=name)
        out = []
        leaves(v, out)
        m.ok(all(N.isfinite(o).all() for o in out), "finite_result", "%s returned %s" % (name, repr(v)[:300]), query=name)
        m.state("query", name)
        return v


METHODS = ["noise_axes", "sampling_axes", "statistical_axes", "hyperbolic_axes", "francq_axes", "babamoradi_axes", "eigenvalue_axes", "variance_axes", "noise_covariance", "sampling_covariance"]
SAFE_PROPS = ["mean", "arr", "array", "normal", "strike", "dip_dr", "axes", "V", "singular_values", "sigma", "offset", "eigenvalues", "center", "centered_array", "principal_axes", "coefficients", "azimuth", "slope", "hyperbolic_axes", "covariance_matrix"]
SAFE_CALLS = ["strike_dip", "dip_direction", "rake", "strike_dip_rake", "angular_errors", "gradient", "residuals", "rotated", "to_mapping", "__repr__"]


def basic(w, f):
    for k in SAFE_PROPS:
        w(k, lambda: getattr(f, k))
    for k in SAFE_CALLS:
        w(k, lambda: getattr(f, k)())
    w("angular_errors_rad", lambda: f.angular_errors(degrees=False))
    w("strike_dip_rad", lambda: f._strike_dip())


def surfaces(w, f, rng):
    ax, cov = f.axes, f.covariance_matrix
    n = int(rng.choice([3, 8, 31, 100, 1000]))
    level = float(rng.choice([1, .1, 2, 5]))
    for t in (True, False):
        for s in ("upper", "lower", "nominal"):
            w("plane_errors", lambda: S.plane_errors(ax, cov, sheet=s, n=n, level=level, traditional_layout=t))
        w("normal_errors", lambda: S.normal_errors(ax, cov, n=n, level=level, traditional_layout=t))
        w("iterative_normal_errors", lambda: S.iterative_normal_errors(ax, cov, n=20, traditional_layout=t))
    for s in ("upper", "lower", "nominal"):
        w("iterative_plane_errors", lambda: S.iterative_plane_errors(ax, cov, sheet=s, n=20))
    w("error_coords", lambda: S.error_coords(ax, cov, n=10, ellipse=False))
    w("error_coords_levels", lambda: S.error_coords(ax, cov, n=10, ellipse=False, levels=[1, 2, 3]))


def full(w, f, rng):
    for k in METHODS:
        w(k, lambda: getattr(E, k)(f))
    cl = float(rng.uniform(.05, .995))
    for k in METHODS[:6]:
        w(k + "_level", lambda: getattr(E, k)(f, confidence_level=cl))
    w("noise_one_axis", lambda: E.noise_axes(f, variance_on_all_axes=False))
    w("sampling_chisq", lambda: E.sampling_axes(f, chisq=True))
    w("explained_variance", lambda: f.explained_variance)
    h = w("hyperbolic_axes", lambda: f.hyperbolic_axes)
    w("U", lambda: f.U)
    w("pca_to_mapping", lambda: pca_to_mapping(f))
    if h.min() > 0:
        nh = w("to_normal_errors", lambda: to_normal_errors(h))
        w("from_normal_errors", lambda: from_normal_errors(nh))
    w("aligned_covariance", lambda: geom.aligned_covariance(f))
    w("angular_error", lambda: f.angular_error(float(f.singular_values[0])))
    w("axis_angular_error", lambda: E.axis_angular_error(h, float(f.singular_values[1])))
    w("scale_errors", lambda: S.scale_errors(f.eigenvalues))
    # the conics hold cubes of the spreads: their inverse exists in double precision
    # only while those are within its range
    sv = f.singular_values
    well = (sv[0] / sv[2]) ** 3 < 1e11
    hyp = w("as_hyperbola", lambda: f.as_hyperbola())
    hr = w("as_hyperbola_rotated", lambda: f.as_hyperbola(rotated=True))
    for nm, c in (("hyperbola", hyp), ("rotated", hr)):
        if not well:
            continue
        w(nm + ".center", lambda: c.center())
        w(nm + ".semiaxes", lambda: c.semiaxes())
    con = w("as_conic", lambda: f.as_conic())
    if well:
        w("asymptotes", lambda: asymptotes(hyp, n=20))
        w("conic.center", lambda: con.center())
    xs = N.linspace(-3, 3, 21) * float(f.singular_values[0])
    s = N.sqrt(h)
    w("hyperbola_values", lambda: hyperbola_values(s[1:], xs))
    w("hyperbolic_errors", lambda: hyperbolic_errors(h, xs))
    w("hyperbola", lambda: hyperbola(h[1:], N.identity(2), N.zeros(2), xs))


def run_case(m, rng, idx):
    w = Watch(m)
    mode = ["full", "full", "full", "degenerate", "rebuild", "pair", "full", "regression"][idx % 8]
    strike, dip = gen.attitude(rng)
    if rng.random() < .25:
        dip = float(rng.choice([0., 90., 0., 90., 1e-9, 89.9999999999]))
    scale = float(10 ** rng.uniform(-12, 12)) if rng.random() < .4 else float(10 ** rng.uniform(-1, 3))
    noise = float(10 ** rng.uniform(-6, -.6))
    if mode == "degenerate":
        kind = str(rng.choice(["three", "planar", "planar_offset", "triangle", "axis_plane"]))
        if kind == "axis_plane":
            k = int(rng.integers(4, 40))
            a = N.round(rng.normal(size=(k, 3)) * 8) * scale
            a[:3] = N.array([[0, 0, 0], [8, 0, 0], [0, 8, 0]]) * scale
            j = int(rng.integers(3))
            a = a[:, rng.permutation(3)]
            a[:, j] = float(rng.integers(-3, 4)) * scale
            if N.linalg.svd(a - a.mean(0), compute_uv=False)[1] < scale:
                a = N.insert(rng.normal(size=(k, 2)) * scale, j, 0, axis=1)
        else:
            c = gen.cloud(rng, n=3 if kind in ("three", "triangle") else int(rng.integers(4, 60)), strike=strike, dip=dip, scale=scale,
                          noise=0. if kind != "three" else noise, offsets=kind == "planar_offset")
            a = c.arr
        m.note(mode=mode, kind=kind, scale=scale, dip=dip, strike=strike, arr=a)
        m.nontrivial(mode, kind, bucket(dip, [1e-5, 1, 45, 89, 89.9999]), bucket(scale, [1e-6, 1e-2, 1, 1e3, 1e7]), int(strike // 60))
        f = w("fit", lambda: Orientation(a))
        basic(w, f)
        w("explained_variance", lambda: f.explained_variance)
        if rng.random() < .3:
            g = w("recover", lambda: Orientation(a, axes=f.principal_axes))
            basic(w, g)
        return
    if mode == "rebuild":
        e = sorted(10 ** rng.uniform(-4, 1.9, 2))
        rake = float(rng.uniform(0, 180))
        m.note(mode=mode, strike=strike, dip=dip, rake=rake, errors=e)
        m.nontrivial(mode, bucket(dip, [1e-5, 1, 45, 89, 89.9999]), int(strike // 30), bucket(e[0], [.01, 1, 10]), bucket(e[1], [.01, 1, 10]))
        r = w("ReconstructedPlane", lambda: ReconstructedPlane(strike, dip, rake, float(e[0]), float(e[1])))
        for k in ("axes", "hyperbolic_axes", "covariance_matrix", "normal"):
            w("rebuilt." + k, lambda: getattr(r, k))
        for k in ("strike_dip_rake", "angular_errors", "to_mapping"):
            w("rebuilt." + k, lambda: getattr(r, k)())
        surfaces(w, r, rng)
        # vectors: parallel, opposite and nearly so
        v = rng.normal(size=3)
        d = rng.normal(size=3) * 10 ** rng.uniform(-17, 0)
        for u in (v, -v, v * 3.7, v + d, -v + d, -v * .1):
            w("angle", lambda: angle(v, u))
            w("rotation_between", lambda: transform(v, u))
        for u in (v, N.eye(3)[int(rng.integers(3))], v[:2]):
            w("perpendicular", lambda: perpendicular_vector(u))
        w("unit", lambda: unit_vector(v))
        return
    c = gen.cloud(rng, lo=5, hi=3000, strike=strike, dip=dip, scale=scale, noise=noise)
    off = 0.
    a = c.arr
    if c.dtype == "float64" and rng.random() < .2:
        off = 10 ** rng.uniform(4, 7)
        if noise * c.aspect > 1e-14 * off * 1e3:
            a = a + off * scale * rng.normal(size=3)
    _, e, _, s, _ = precision(c)
    # well posed: three spreads distinguishable from rounding
    sv = N.linalg.svd(N.asarray(a, float) - N.asarray(a, float).mean(0), compute_uv=False)
    posed = sv[2] > 1e-8 * sv[0] and sv[2] > 1e3 * 2.3e-16 * N.abs(N.asarray(a, float)).max() * len(a) ** .5
    m.note(mode=mode, **gen.describe(c))
    m.state("well-posed", bool(posed))
    m.nontrivial(mode, *signature(c))
    if mode == "regression":
        # the design matrix holds squares of the coordinates next to ones
        if dip > 85 or abs(off) > 0 or not 1e-3 < scale * c.aspect or scale > 1e5:
            return
        r = w("LinearOrientation", lambda: LinearOrientation(a))
        for k in ("strike_dip", "dip_direction", "gradient"):
            w("linear." + k, lambda: getattr(r, k)())
        g = w("Regression", lambda: Regression(a))
        for k in ("coefficients", "predictions", "residuals", "covariance_matrix"):
            w("regression." + k, lambda: getattr(g, k))
        w("regression.standard_errors", lambda: g.standard_errors())
        return
    f = w("fit", lambda: Orientation(a))
    if mode == "full":
        basic(w, f)
        if posed:
            full(w, f, rng)
            surfaces(w, f, rng)
        if rng.random() < .2:
            wt = rng.uniform(.5, 2, 3)
            g = w("weighted", lambda: Orientation(a, weights=wt))
            basic(w, g)
        if rng.random() < .2:
            g = w("recovered", lambda: Orientation(a, axes=f.principal_axes))
            basic(w, g)
            if posed:
                w("U", lambda: g.U)
    else:
        b = gen.cloud(rng, lo=5, hi=300, strike=strike if rng.random() < .4 else None, dip=dip if rng.random() < .4 else None, scale=scale, noise=noise).arr
        f2 = f if rng.random() < .2 else w("fit", lambda: Orientation(a if rng.random() < .2 else b))
        w("fit_angle", lambda: geom.fit_angle(f, f2))
        w("fit_angle_rad", lambda: geom.fit_angle(f, f2, degrees=False))
        if f2 is not f:
            g = w("group", lambda: GroupedOrientation(f, f2, same_plane=bool(rng.random() < .5)))
            basic(w, g)

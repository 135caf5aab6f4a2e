"""C12: linear regression is ordinary least squares, with its covariance, strike and dip."""
from common import *
from attitude import Orientation
from attitude.orientation.linear import LinearOrientation, Regression
from attitude.orientation import LinearOrientation as LO2
from attitude.error.ellipse import ellipse
import matplotlib.pyplot as P
from attitude.display import strike_dip, error_ellipse
from c15 import Recorder

RULE = ("clouds of 3..3000 points not on a vertical plane, noise 0..100%, given as rows, columns, lists, tuples of columns, integer and strided arrays, at any origin and scale, plus synthetic covariance "
        "matrices for the ellipse; non-trivial = coefficients certified through the normal equations in long double; distinct by cloud class and presentation")
CASES = dict(quick=24000, thorough=120000)
FILES = ["orientation/linear/regression.py", "orientation/linear/__init__.py", "orientation/base.py", "error/ellipse.py"]


def hand_over(rng, a, n):
    k = str(rng.choice(["rows", "columns", "tuple", "lists", "list_columns"]))
    if n <= 3:
        k = str(rng.choice(["rows", "lists"]))
    if k == "columns":
        return k, N.ascontiguousarray(a.T)
    if k == "tuple":
        return k, tuple(N.array(a[:, i]) for i in range(3))
    if k == "lists":
        return k, a.tolist()
    if k == "list_columns":
        return k, a.T.tolist()
    return k, a


def run_case(m, rng, idx):
    if idx % 10 == 0:
        return synthetic(m, rng)
    dip = float(rng.uniform(0, 85)) if rng.random() < .8 else float(rng.choice([0, 1e-6, 45]))
    c = gen.cloud(rng, hi=3000, dip=dip, max_noise=1., aspect=float(rng.choice([1, .7, .3, .1])), extreme=.05, n=gen.big(idx, 397))
    if c.dtype == "float32":
        c.arr = N.asarray(c.arr, float)
        c.dtype = "float64"
    m.note(**gen.describe(c))
    arr = N.asarray(c.arr)
    n = c.n
    how, given = hand_over(rng, arr, n)
    m.note(given=how)
    _, cc = ref.center(arr)
    X = N.column_stack([cc[:, :2], N.ones(n, L)])
    sx = N.linalg.svd(X.astype(float)[:, :2], compute_uv=False)
    span = float(sx[0])
    if sx[1] < 1e-4 * sx[0]:
        return
    # condition of the normal matrix with its column of ones
    G = (X.T @ X).astype(float)
    kappa = N.linalg.cond(G)
    if kappa > 1e11:
        return
    delta = EPS * float(N.abs(arr.astype(float)).max()) * (20 + 5 * n ** .5)
    z = cc[:, 2]
    zn = float(N.sqrt((z ** 2).sum())) + 1e-300
    fit = Regression(given)
    co = N.asarray(fit.coefficients, L)
    m.ok(co.shape == (3,), "coefficient_shape", str(co.shape))
    # exact solution by solving the 2x2 centred system in long double
    S = cc[:, :2].T @ cc[:, :2]
    t = cc[:, :2].T @ z
    det = S[0, 0] * S[1, 1] - S[0, 1] ** 2
    want = N.array([(S[1, 1] * t[0] - S[0, 1] * t[1]) / det, (S[0, 0] * t[1] - S[0, 1] * t[0]) / det, 0], L)
    slope = float(N.hypot(want[0], want[1])) + zn / sx[1]
    tolc = 100 * EPS * kappa * slope + 20 * n ** .5 * delta * (1 + slope) / sx[1] + 1e-300
    m.close(co[:2], want[:2], tolc, "least_squares_coefficients")
    m.close(co[2], 0, 100 * EPS * kappa * zn + 20 * delta * (1 + slope), "offset_of_centred_data")
    px, py, pz = fit.predictions
    m.close(px, cc[:, 0], 2 * delta, "prediction_x"); m.close(py, cc[:, 1], 2 * delta, "prediction_y")
    rz = 4 * delta * (1 + slope) + tolc * float(N.abs(cc[:, :2]).max()) * 4 + 1e-12 * zn + 100 * EPS * kappa * zn
    m.close(pz, cc[:, :2] @ want[:2], rz, "predictions")
    res = N.asarray(fit.residuals, L)
    m.close(res, z - cc[:, :2] @ want[:2], 2 * rz, "residuals")
    m.close(X.T @ res, N.zeros(3), N.array([span, span, n ** .5]) * (rz * 4 * n ** .5) + 1e-300, "normal_equations")
    rss = (res ** 2).sum()
    # no other plane has a smaller sum of squares
    for _ in range(2):
        alt = want[:2] + rng.normal(size=2) * slope * 10 ** rng.uniform(-4, 0)
        m.ok(((z - cc[:, :2] @ alt) ** 2).sum() >= rss - 4 * rz * n ** .5 * N.sqrt(rss) - 4 * n * rz ** 2, "no_better_plane")
    cov = N.asarray(fit.covariance_matrix, L)
    if n == 3:
        m.ok(cov.shape == (3, 3) and (cov == 0).all(), "three_points_have_no_covariance", str(cov))
    else:
        Sinv = N.zeros((3, 3), L)
        Sinv[0, 0], Sinv[1, 1] = S[1, 1] / det, S[0, 0] / det
        Sinv[0, 1] = Sinv[1, 0] = -S[0, 1] / det
        Sinv[2, 2] = L(1) / n
        r0 = ((z - cc[:, :2] @ want[:2]) ** 2).sum()
        wc = r0 * Sinv
        tol = 1000 * EPS * kappa * float(N.abs(wc).max()) + 8 * rz * n ** .5 * (N.sqrt(float(r0)) + rz * n ** .5) * float(N.abs(Sinv).max())
        # cross terms with the offset column vanish up to the accuracy of centring
        m.close(cov, wc, tol + 100 * delta / float(sx[1]) * float(N.abs(wc).max()), "covariance")
        m.close(cov, cov.T, tol, "covariance_symmetric")
        m.close(fit.standard_errors(), N.sqrt(N.abs(N.diag(cov))), 1e-12 * N.sqrt(float(N.abs(cov).max())), "standard_errors")
    m.close(fit.coefficients, co, 0, "coefficients_stable")
    # the linear orientation on top of it
    lo = LinearOrientation(given)
    strike, d = lo.strike_dip()
    g = N.hypot(co[0], co[1])
    m.close(d, N.degrees(N.arctan(g)), 1e-9, "linear_dip")
    m.ok(-180.0000001 <= strike <= 360 and 0 <= d <= 90, "linear_ranges", "%s %s" % (strike, d))
    if g > 1e-12:
        nv = N.array([-co[0], -co[1], 1], L)
        rs, rd = ref.strike_dip(nv)
        m.close(ref.mod_diff(strike, rs), 0, 1e-9, "linear_strike_right_hand_rule", "strike %s, coefficients %s" % (strike, fit.coefficients))
        (dd, d2) = lo.dip_direction()
        m.close(ref.mod_diff(dd, strike + 90), 0, 1e-9, "linear_dip_direction")
        R = N.array([[N.cos(L(lo.azimuth)), -N.sin(L(lo.azimuth)), 0], [N.sin(L(lo.azimuth)), N.cos(L(lo.azimuth)), 0], [0, 0, 1]])
        m.close(lo.gradient(), (lo.azimuth, lo.slope), 0, "linear_gradient")
        se = N.sqrt(N.abs(N.diag(R.T @ cov @ R)))
        sc = N.sqrt(float(N.abs(cov).max())) + 1e-300
        (sd, errs) = lo.strike_dip(uncertainties=True)
        m.close(sd, (strike, d), 0, "linear_uncertain_same_angles")
        big = se[:2] > 1e-6 * sc
        if big.all():
            m.close(errs, N.degrees(se[:2]), 1e-8 * N.degrees(sc), "linear_errors")
            m.close(lo.errors(), N.degrees(se[:2]), 1e-8 * N.degrees(sc), "linear_errors")
    if c.noise == 0 and c.dtype == "float64" and how:
        pf = Orientation(arr)
        ps, pd = pf.strike_dip()
        t = N.degrees(tolc * 10) + 4e-6
        if t < .01:
            m.close(d, pd, t, "agrees_with_plane_fit_on_exact_data")
            if g > 1e-3:
                m.close(ref.mod_diff(strike, ps), 0, 1e-5 + 10 * t / float(g), "agrees_with_plane_fit_on_exact_data")
    # error ellipse
    if n > 4 and float(N.abs(cov).max()) > 0:
        C2 = cov[:2, :2].astype(float)
        if N.linalg.cond(C2) < 1e8 and N.linalg.eigvalsh(C2)[0] ** .5 > 1e-7 * float(N.abs(lo.coefficients[:2]).max()):
            m.state("ellipse", "checked")
            level = float(rng.choice([.5, 1, 2, 3, 1.96]))
            e1, e0 = lo.error_ellipse(spherical=False, level=level) if level != 1 else lo.error_ellipse(spherical=False)
            contour(m, N.column_stack([e0, e1]), N.asarray(lo.coefficients[:2], float), C2, level, "error_ellipse")
            az, pl = lo.error_ellipse(spherical=True, level=level)
            m.close(pl, N.pi / 2 - N.arctan(-N.asarray(e0, L)), 1e-10, "spherical_ellipse_slope")
            m.close(az, N.pi + lo.azimuth + N.arctan2(-N.asarray(e1, L), -N.asarray(e0, L)), 1e-10, "spherical_ellipse_azimuth")
            az2, pl2 = lo.error_ellipse(spherical=True, vector=True, level=level)
            m.close(N.asarray(az2) - az, N.pi / 2 + 0 * N.asarray(az), 1e-10, "vector_ellipse_quarter_turn")
            # (the figures are in degrees from the vertical: smaller ellipses drown in rounding)
            if N.linalg.eigvalsh(C2)[0] ** .5 > 1e-4 and rng.random() < .06:
                figures(m, rng, lo, C2)
    m.nontrivial(how, *signature(c))
    m.state("given", how); m.state("n", bucket(n, [4, 5, 10, 100, 1000]))


def contour(m, pts, center, C, level, label):
    v = (N.asarray(pts, L) - center)
    inv = N.linalg.inv(C).astype(L)
    q = N.einsum("ij,jk,ik->i", v, inv, v)
    m.close(q, level ** 2 + 0 * q, 1e-6 * level ** 2, label)
    # a full closed turn around the centre
    m.close(pts[0], pts[-1], 1e-9 * float(N.sqrt(N.abs(C).max())) * level + 1e-12 * float(N.abs(center).max()), label + "_closed")
    w, V = N.linalg.eigh(C)
    u = (v.astype(float) @ V) / N.sqrt(w)
    th = N.unwrap(N.arctan2(u[:, 1], u[:, 0]))
    m.close(abs(th[-1] - th[0]), 2 * N.pi, 1e-3, label + "_full_turn")


def synthetic(m, rng):
    a = rng.normal(size=(2, 2))
    C = a @ a.T + N.eye(2) * 1e-2
    C = C * 10 ** rng.uniform(-4, 4)
    cen = rng.normal(size=2) * N.sqrt(C.max()) * rng.choice([0, 1, 100])
    level = float(10 ** rng.uniform(-1, 1))
    n = int(rng.integers(20, 400))
    m.note(case="ellipse", cov=C, center=cen, level=level, n=n)
    e = ellipse(cen, C, level=level, n=n)
    m.ok(len(e) == n, "ellipse_samples", str(len(e)))
    contour(m, N.asarray(e, float), cen, C, level, "ellipse")
    e = ellipse(tuple(cen), C)
    contour(m, N.asarray(e, float), cen, C, 1, "ellipse_default")
    m.nontrivial("ellipse", bucket(N.linalg.cond(C), [2, 10, 50]), bucket(level, [.3, 1, 3]))


def figures(m, rng, lo, C2):
    """The figures of the error ellipse hold its contours, in degrees, one per level."""
    def check(p, level, label):
        v = N.asarray(p.get_xy(), float)
        m.ok(len(v) >= 100, label + "_samples", str(len(v)))
        contour(m, N.radians(N.column_stack([90 - v[:, 1], v[:, 0]])), N.asarray(lo.coefficients[:2], float), C2, level, label)
    kw = {}
    levels = [1]
    if rng.random() < .7:
        levels = kw["levels"] = [float(x) for x in rng.uniform(.3, 4, int(rng.integers(1, 4)))]
    alpha = None
    if rng.random() < .5:
        alpha = kw["alpha"] = [float(x) for x in rng.uniform(.1, 1, len(levels))]
    if rng.random() < .5:
        kw["facecolor"] = "red"
    elif len(levels) > 1 and alpha is None:
        # one default transparency for several levels is not a usable request
        alpha = kw["alpha"] = [.5] * len(levels)
    if len(levels) > 1 and alpha is None:
        alpha = kw["alpha"] = [.5] * len(levels)
    keep = dict(kw)
    rec = Recorder()
    before = P.get_fignums()
    try:
        strike_dip(lo, ax=rec, **kw)
        m.ok(len(rec.patches) == len(levels), "one_contour_per_level", "%d for %d" % (len(rec.patches), len(levels)))
        m.ok(kw == keep, "options_unchanged")
        for i, (p, l) in enumerate(zip(rec.patches, levels)):
            check(p, l, "drawn_error_ellipse")
            if alpha is not None:
                m.close(p.get_alpha(), alpha[i], 0, "drawn_ellipse_transparency")
        fig = error_ellipse(lo)
        ax = fig.axes[0]
        m.ok(len(ax.patches) == 3, "figure_of_three_levels", str(len(ax.patches)))
        for p, l in zip(ax.patches, [1, 2, 3]):
            check(p, l, "figure_error_ellipse")
        m.ok(ax.get_ylim()[0] > ax.get_ylim()[1], "figure_dip_increases_downward")
        m.state("figures", len(levels))
    finally:
        for k in P.get_fignums():
            if k not in before:
                P.close(k)

"""C16: cross-section error envelopes are the hyperbola of the error axes."""
from common import *
import matplotlib.pyplot as P
from attitude import Orientation
from attitude.display.hyperbola import hyperbolic_errors, hyperbola_values, HyperbolicErrors, apparent_dip_correction
from attitude.display import parametric
from attitude.display.plot.cov_types.regressions import hyperbola as cov_hyperbola
from attitude.error.axes import angular_errors, noise_axes, sampling_axes
from c15 import Recorder

RULE = ("error axes (synthetic over 8 decades and from real fits, noise and sampling), vertical, oblique and axis-aligned sections, with and without a transformation, 2-D and 3-D requests, explicit means, reversed figures, "
        "random abscissae; parametric ellipses and hyperbolas of both kinds, and the figure of conjugate conics read back; non-trivial = every returned point tested against the conic equation in the frame of the section; distinct by request class")
CASES = dict(quick=40000, thorough=200000)
FILES = ["display/hyperbola.py", "display/parametric.py", "geom/conics.py"]


def check_curves(m, out, x, a, b, means, rot, label):
    """out = (nominal, bottom, top reversed); rot = (cos, sin) of the nominal line."""
    nom, bot, top = [N.asarray(o, L) for o in out]
    n = len(x)
    m.ok(nom.shape == (2, n) and bot.shape == (2, n) and top.shape == (2, n), label + "_shape", "%s %s %s" % (nom.shape, bot.shape, top.shape))
    top = top[:, ::-1]
    x = N.asarray(x, L)
    y = N.sqrt(b * (1 + x ** 2 / a))
    c, s = rot
    M = N.asarray(means, L)
    sc = float(N.abs(x).max() + N.abs(y).max() + N.abs(M).max())
    tol = 1e-11 * sc
    e = N.array([c, s], L)
    f = N.array([-s, c], L)
    for got, yy, nm in ((nom, 0 * y, "nominal"), (top, y, "upper"), (bot, -y, "lower")):
        rel = got - M[:, None]
        along = e @ rel
        across = f @ rel
        m.close(along, x, tol, "%s_%s_abscissa" % (label, nm))
        m.close(across, yy, tol + 1e-11 * N.abs(yy), "%s_%s_distance" % (label, nm))
    m.ok(((f @ (top - bot)) > 0).all() or float(b) == 0 or float(N.sqrt(b)) < 10 * tol, label + "_never_cross")


def rot_of(a0):
    """(cos, sin) of the plunge of the first section axis."""
    a0 = N.asarray(a0, L)
    h = N.sqrt((a0[:-1] ** 2).sum())
    r = N.sqrt((a0 ** 2).sum())
    c, s = h / r, N.abs(a0[-1]) / r
    if 1 - c * c <= 1e-12:
        return L(1), L(0)
    return c, s


def run_case(m, rng, idx):
    if idx % 200 == 7:
        return conjugate(m, rng)
    u = rng.random()
    if u < .15:
        return conics(m, rng)
    if u < .25:
        return cov_form(m, rng)
    if u < .4:
        c = gen.cloud(rng, lo=6, hi=300, noise=float(10 ** rng.uniform(-3, -1)), dtypes=False)
        fit = lived(rng, m, Orientation(c.arr))
        h = N.asarray(noise_axes(fit) if rng.random() < .5 else sampling_axes(fit))
        scale = float(N.abs(fit.rotated()).max())
        src = "fit"
    else:
        h = N.sort(10 ** rng.uniform(-4, 4, 3))[::-1].copy()
        scale = float(N.sqrt(h[0])) * 10 ** rng.uniform(-1, 2)
        fit, src = None, "synthetic"
    if not h.min() > 1e-12 * h.max():
        return
    n = int(rng.integers(2, 60))
    x = N.sort(rng.uniform(-1, 1, n)) * scale
    if rng.random() < .3:
        x = N.linspace(-scale, scale, n)
    dim = 2 if rng.random() < .2 else 3
    kw = {}
    means = N.zeros(2)
    if rng.random() < .4:
        means = rng.normal(size=2) * scale
        kw["means"] = means
    rev = bool(rng.random() < .25)
    if rev:
        kw["reverse"] = True
    if dim == 2:
        h = h[[0, 2]] if rng.random() < .5 else h[1:]
        kind = "2d"
        ax = N.eye(2)
        if rng.random() < .6:
            t = float(rng.uniform(-1.4, 1.4))
            ax = N.array([[N.cos(t), N.sin(t)], [-N.sin(t), N.cos(t)]])
            kw["axes"] = ax
        a, b = L(h[0]), L(h[1])
    else:
        Tm = N.eye(3)
        if rng.random() < .6:
            Tm = gen.rotation(rng) if fit is None or rng.random() < .5 else N.array(fit.axes)
            kw["transformation"] = Tm
        kind = str(rng.choice(["default", "vertical", "aligned", "oblique"]))
        ax = N.array([[0., 1, 0], [0, 0, 1]])
        if kind == "vertical":
            t = float(rng.uniform(0, 2 * N.pi))
            ax = N.array([[N.sin(t), N.cos(t), 0], [0, 0, 1.]])
        elif kind == "aligned":
            i, j = [(0, 1), (0, 2), (1, 2)][int(rng.integers(3))]
            ax = N.eye(3)[[i, j]] * rng.choice([-1., 1.], 2)[:, None]
        elif kind == "oblique":
            R = gen.rotation(rng)
            if N.hypot(R[0, 0], R[0, 1]) < .05:
                return
            ax = R[:2].copy()
        if kind != "default":
            kw["axes"] = ax
        D = N.diag(1 / h.astype(L))
        Q = Tm.astype(L).T @ D @ Tm.astype(L)
        a = 1 / (ax[0].astype(L) @ Q @ ax[0].astype(L))
        b = 1 / (ax[1].astype(L) @ Q @ ax[1].astype(L))
    c_, s_ = rot_of(ax[0])
    if 1e-13 < 1 - c_ * c_ < 1e-11:
        return
    rot = (c_, -s_ if rev else s_)
    m.note(source=src, lengths=h, section=kind, axes=ax, n=n, reverse=rev, means=means)
    out = hyperbolic_errors(h, x, **kw)
    check_curves(m, out, x, a, b, means, rot, "envelope")
    if rng.random() < .4:
        H = HyperbolicErrors(h, x, **kw)
        check_curves(m, H.data, x, a, b, means, rot, "object")
        rec = Recorder()
        H.plot(rec, fc="red", alpha=.5)
        xy = rec.patches[-1].get_xy()
        want = N.concatenate([out[1], out[2]], axis=1).T
        m.close(xy[:len(want)], want, 1e-12 * float(N.abs(want).max()), "drawn_polygon")
        m.ok(len(xy) in (len(want), len(want) + 1), "drawn_polygon_size", str(len(xy)))
        k2 = dict(kw, means=rng.normal(size=2) * scale)
        H.update_data(h, x, **k2)
        check_curves(m, H.data, x, a, b, k2["means"], rot, "updated")
        want = N.concatenate([H.data[1], H.data[2]], axis=1).T
        m.close(rec.patches[-1].get_xy()[:len(want)], want, 1e-12 * float(N.abs(want).max()), "redrawn_polygon")
    # asymptotes open to the angular error
    if kind in ("2d", "aligned") and "transformation" not in kw:
        far = N.array([1., 2.]) * float(N.sqrt(a)) * 1e6
        o = hyperbolic_errors(h, far, **{k: v for k, v in kw.items() if k == "axes"})
        e = N.array([c_, s_]); f = N.array([-s_, c_])
        t = N.asarray(o[2], L)[:, ::-1]
        m.close((f @ t) / (e @ t), N.sqrt(b / a) + 0 * (e @ t), 1e-9 * float(N.sqrt(b / a)) + 1e-12, "asymptotic_slope")
        if dim == 3 and tuple(N.abs(ax).argmax(axis=1)) in ((0, 2), (1, 2)):
            k = int(N.abs(ax[0]).argmax())
            m.close(N.arctan(N.sqrt(b / a)), angular_errors(h)[k], 1e-12, "asymptote_is_the_angular_error")
    # the 2-D shortcut agrees
    if dim == 3 and kind in ("default", "aligned") and "transformation" not in kw:
        i, j = N.abs(ax).argmax(axis=1)
        m.close(hyperbola_values(h[[i, j]], x), N.sqrt(b * (1 + x.astype(L) ** 2 / a)), 1e-11 * N.sqrt(b * (1 + x.astype(L) ** 2 / a)), "hyperbola_values")
        if j == 2:
            o2 = hyperbolic_errors(h[[i, j]], x)
            o3 = hyperbolic_errors(h, x, axes=N.eye(3)[[i, j]])
            for p, q in zip(o2, o3):
                m.close(p, q, 1e-11 * (scale + float(N.sqrt(b))), "two_and_three_dimensions_agree")
    if dim == 3:
        R = N.asarray(apparent_dip_correction(ax), L)
        m.close(R @ R.T, N.eye(2), 1e-12, "correction_is_orthogonal")
        m.close(R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0], 1, 1e-12, "correction_is_a_rotation")
        m.close(R[0], [c_, s_], 1e-11 + (1e-6 if 1 - c_ * c_ < 1e-8 else 0), "correction_angle")
    m.nontrivial(src, kind, dim, rev, "means" in kw, "transformation" in kw, bucket(h.max() / h.min(), [10, 1e3, 1e5]))
    m.state("section", kind)


def cov_form(m, rng):
    cov = 10 ** rng.uniform(-3, 3, 2)
    t = float(rng.uniform(-N.pi, N.pi)) if rng.random() < .7 else 0.
    ax = N.array([[N.cos(t), N.sin(t)], [-N.sin(t), N.cos(t)]])
    means = rng.normal(size=2) * 10
    x = N.linspace(-1, 1, int(rng.integers(2, 40))) * N.sqrt(cov[0]) * 10 ** rng.uniform(-1, 1)
    n = 1 if rng.random() < .5 else int(rng.integers(1, 100))
    lv = 1 if rng.random() < .5 else float(rng.uniform(.2, 4))
    kw = {}
    if n != 1: kw["n"] = n
    if lv != 1: kw["level"] = lv
    m.note(case="regression hyperbola", cov=cov, angle=t, n=n, level=lv)
    X, lo, hi = cov_hyperbola(cov, ax, means, x, **kw)
    y = lv * N.sqrt(cov[1]) * N.sqrt(x.astype(L) ** 2 / (L(cov[0]) * n) + L(1) / n)
    sc = float(N.abs(x).max() + y.max() + N.abs(means).max())
    m.close(X, x * ax[0, 0] + y * ax[1, 0] + means[0], 1e-11 * sc, "regression_band_abscissa")
    m.close(hi, x * ax[0, 1] + y * ax[1, 1] + means[1], 1e-11 * sc, "regression_band_upper")
    m.close(lo, x * ax[0, 1] - y * ax[1, 1] + means[1], 1e-11 * sc, "regression_band_lower")
    m.nontrivial("regression", n == 1, lv == 1, t == 0)


def conics(m, rng):
    ax = 10 ** rng.uniform(-3, 3, 2)
    n = int(rng.choice([5, 8, 50, 361, 500, 1000]))
    kw = {}
    if n != 500 or rng.random() < .5:
        kw["n"] = n
    c = N.zeros(2)
    if rng.random() < .6:
        c = rng.normal(size=2) * ax
        kw["center"] = c
    m.note(case="parametric", axes=ax, n=n, center=c)
    x, y = parametric.ellipse(ax, **kw)
    q = ((N.asarray(x, L) - c[0]) / ax[0]) ** 2 + ((N.asarray(y, L) - c[1]) / ax[1]) ** 2
    m.ok(len(q) == n, "ellipse_samples")
    m.close(q, 1 + 0 * q, 1e-10, "ellipse_equation")
    m.close([x[0], y[0]], [x[-1], y[-1]], 1e-9 * ax, "ellipse_closed")
    up = bool(rng.random() < .6)
    k2 = dict(kw)
    if not up or rng.random() < .5:
        k2["opens_up"] = up
    x, y = parametric.hyperbola(ax, **k2)
    m.ok(len(x) == n and len(y) == n, "hyperbola_samples")
    bad = N.isnan(x) | N.isnan(y)
    m.ok(bad.sum() <= 2 and (N.isnan(x) == N.isnan(y)).all(), "hyperbola_gaps", "%d of %d samples missing" % (bad.sum(), n))
    X = (N.asarray(x, L)[~bad] - c[0]) / ax[0]
    Y = (N.asarray(y, L)[~bad] - c[1]) / ax[1]
    q = Y ** 2 - X ** 2 if up else X ** 2 - Y ** 2
    m.close(q, 1 + 0 * q, 1e-9 * (1 + N.maximum(X ** 2, Y ** 2)), "hyperbola_equation")
    m.ok(((Y if up else X) > 0).any() and ((Y if up else X) < 0).any() or n < 8, "hyperbola_both_branches")
    # defaults are not shared state
    x2, y2 = parametric.ellipse(ax)
    m.ok(len(x2) == 500, "ellipse_default_samples")
    m.close((N.asarray(x2, L) / ax[0]) ** 2 + (N.asarray(y2, L) / ax[1]) ** 2, N.ones(500), 1e-10, "ellipse_default_center")
    m.nontrivial("parametric", n, up, "center" in kw)
    m.state("section", "parametric")


def conjugate(m, rng):
    """The figure of a hyperbola, its tangents, and the ellipse of normals conjugate to it."""
    ax = N.sort(10 ** rng.uniform(-1, 2, 2))[::-1].copy()
    if rng.random() < .3:
        ax = ax[::-1].copy()
    keep = ax.copy()
    kw = {}
    width = None
    if rng.random() < .5:
        width = kw["width"] = float(ax.max() * rng.uniform(2, 20))
    foci = bool(rng.random() < .5)
    if foci or rng.random() < .3:
        kw["plot_foci"] = foci
    inv = bool(rng.random() < .3)
    if inv:
        kw["plot_inverse_hyperbola"] = True
    m.note(case="conjugate conics", axes=ax, width=width, foci=foci, inverse=inv)
    fig = P.figure()
    try:
        a = fig.add_subplot(111)
        r = parametric.plot_conjugate_conics(a, ax, **kw)
        m.ok(r is a, "conjugate_figure_returns_its_axes")
        m.ok((ax == keep).all(), "conjugate_figure_leaves_the_lengths_alone")
        A, B = L(keep[0]), L(keep[1])
        lines = {}
        other = []
        for l in a.lines:
            k = l.get_label()
            if k.startswith("_"):
                other.append(l)
            else:
                lines[k] = N.asarray(l.get_xydata(), L).T
        want = ["Hyperboloid (bundle of planes)", "Normal vector endpoint (fixed length)", "Variance ellipsoid", "Hyperbolic tangents", "Normal vector tangents"]
        m.ok(set(lines) == set(want + ["Inverse hyperboloid"] * inv), "conjugate_figure_curves", str(sorted(lines)))
        if inv:
            q = lines["Inverse hyperboloid"]
            q = q[:, ~N.isnan(q).any(axis=0)]
            m.close((q[1] * B) ** 2 - (q[0] * A) ** 2, 1 + 0 * q[0], 1e-9 * (1 + (q[1] * B) ** 2), "inverse_hyperbola_equation")
        hyp, nrm, var, ht, nt = [lines[k] for k in want]
        ok = ~N.isnan(hyp).any(axis=0)
        m.ok(ok.sum() >= hyp.shape[1] - 2, "conjugate_hyperbola_gaps")
        X, Y = hyp[0][ok] / A, hyp[1][ok] / B
        m.close(Y ** 2 - X ** 2, 1 + 0 * X, 1e-9 * (1 + Y ** 2), "conjugate_hyperbola_equation")
        m.close((var[0] / A) ** 2 + (var[1] / B) ** 2, 1 + 0 * var[0], 1e-10, "variance_ellipse_equation")
        # the normals: perpendicular to the extreme planes of the hyperbola
        xy = [N.asarray(l.get_xydata(), L).T for l in other]
        seg = [q for q in xy if q.shape == (2, 2) and not (q[0] == 0).all()]
        pts = [q for q in xy if (q[0] == 0).all()]
        m.ok(len(seg) == 2, "conjugate_tangents_come_in_pairs", str(len(seg)))
        def slope(q):
            return (q[1, 1] - q[1, 0]) / (q[0, 1] - q[0, 0])
        def through(q):
            return q[1, 0] - slope(q) * q[0, 0]
        sl = sorted([float(slope(q)) for q in [ht, nt] + seg])
        exp = sorted([float(B / A), float(-B / A), float(A / B), float(-A / B)])
        m.close(sl, exp, 1e-9 * N.abs(exp), "tangent_slopes")
        m.close(N.abs(slope(ht)), B / A, 1e-9 * float(B / A), "hyperbolic_tangents_are_its_asymptotes")
        m.close(N.abs(slope(nt)), A / B, 1e-9 * float(A / B), "normal_tangents_are_perpendicular_to_them")
        m.close([float(through(q)) for q in [ht, nt] + seg], N.zeros(4), 1e-7 * (500 * max(1., float(A / B), float(B / A))), "tangents_through_the_origin")
        # the ellipse of normals touches its tangents: the least value of t is 1
        c = (nrm[1].max() + nrm[1].min()) / 2
        b = (nrm[1].max() - nrm[1].min()) / 2
        a_ = (nrm[0].max() - nrm[0].min()) / 2
        m.close((nrm[0] / a_) ** 2 + ((nrm[1] - c) / b) ** 2, 1 + 0 * nrm[0], 1e-3, "normal_ellipse_equation")
        m.close(N.abs(nrm[0].max() + nrm[0].min()), 0, 1e-3 * float(a_), "normal_ellipse_on_the_axis")
        m.close(((A / B) * a_) ** 2 + b ** 2, c ** 2, 1e-3 * float(c ** 2), "normal_ellipse_touches_its_tangents")
        d = nrm[1] - (A / B) * N.abs(nrm[0])
        m.ok(float(d.min()) > -1e-9 * float(c) and float(d.min()) < 1e-2 * float(c), "normal_ellipse_inside_its_cone", "%g of %g" % (d.min(), c))
        m.ok(len(pts) == (2 if foci else 0), "foci_drawn_when_asked", str(len(pts)))
        if foci:
            f = sorted(float(N.abs(q[1] - q[1].mean()).max()) for q in pts)
            g = sorted([float(N.sqrt(A ** 2 + B ** 2)), float(N.sqrt(N.abs(a_ ** 2 - b ** 2)))])
            m.close(f, g, 2e-2 * max(g), "foci")
            mid = sorted(float(q[1].mean()) for q in pts)
            m.close(mid, [0, float(c)], 1e-3 * float(c) + 1e-3 * max(g), "foci_about_the_centre")
        w = width
        lim = a.get_xlim()
        m.close(lim[0] + lim[1], 0, 1e-9 * abs(lim[1]), "figure_centred")
        if w is not None:
            m.close(lim, [-w / 2, w / 2], 1e-9 * w, "figure_width")
        else:
            m.ok(lim[1] >= float(N.hypot(A, B)) , "figure_shows_the_ellipse", str(lim))
        m.ok(a.get_aspect() in (1, 1., "equal"), "figure_undistorted", str(a.get_aspect()))
    finally:
        P.close(fig)
    m.nontrivial("conjugate", width is None, foci, bucket(float(A / B), [.1, .5, 1, 2, 10]))
    m.state("section", "conjugate")

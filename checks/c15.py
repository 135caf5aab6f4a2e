"""C15: pole error rings are the exact dual of the girdle surfaces."""
from common import *
from attitude import Orientation, ReconstructedPlane
from attitude import stereonet as S
from attitude.display import polar as DP
import matplotlib.pyplot as P
from c14 import random_axes, lengths, lonlat, to_axes_frame

RULE = ("axes and error lengths as for C14 (any attitude, handedness, way up; ratios to 1e10), both layouts, vectorised, iterative and polar-plot forms, 3..1000 samples, fits and reconstructed planes, repeated calls; "
        "non-trivial = every returned direction mapped back to the axes frame and tested against the dual conic and against the tangent planes of the girdle returned by the code; distinct by attitude, lengths and options")
CASES = dict(quick=7000, thorough=100000)
FILES = ["stereonet.py", "display/polar.py"]


def ring(axes, d, n):
    """Expected directions in the frame of the upright axes."""
    th = N.linspace(0, 2 * N.pi, n).astype(L)
    d = N.asarray(d, L)
    u = N.column_stack([-2 * d[2] * N.cos(th), -2 * d[2] * N.sin(th), N.sqrt((d[0] * N.cos(th)) ** 2 + (d[1] * N.sin(th)) ** 2)])
    return u / N.sqrt((u ** 2).sum(axis=1))[:, None]


def back(P_, axes, traditional):
    c = lonlat(P_)
    if traditional:     # (c0,c1,c2) = (z, x, -y)
        w = N.column_stack([c[:, 1], -c[:, 2], c[:, 0]])
    else:               # (-y, x, z)
        w = N.column_stack([c[:, 1], -c[:, 0], c[:, 2]])
    return w @ N.asarray(axes, L).T, w


def check_ring(m, pts, axes, d, traditional, n, label):
    P_ = N.asarray(pts, float)
    m.ok(P_.shape == (n, 2), label + "_samples", "%s for n=%d" % (P_.shape, n))
    m.ok(N.isfinite(P_).all(), label + "_finite")
    up = -axes if axes[2, 2] < 0 else axes
    v, w = back(P_, up, traditional)
    u = ring(up, d, n)
    cl = N.maximum(N.abs(N.cos(P_[:, 1])), 1e-9)
    tol = N.minimum(1e-12 + 3e-14 / cl, 6e-7)[:, None]
    # the parameter itself is only known to rounding
    th, dl = N.linspace(0, 2 * N.pi, n).astype(L), N.asarray(d, L)
    f = N.hypot(dl[0] * N.cos(th), dl[1] * N.sin(th))
    tol = tol + (3e-14 * N.hypot(2 * dl[2], N.abs(dl[0] ** 2 - dl[1] ** 2) * N.abs(N.sin(th) * N.cos(th)) / f + N.maximum(*dl[:2])) / N.hypot(2 * dl[2], f))[:, None]
    m.close(v, u, tol + 0 * v, label + "_ring", "axes %s lengths %s" % (axes, d))
    # dual conic, on slopes, where the slopes are resolved
    dl = N.asarray(d, L)
    q = N.hypot(dl[0] * v[:, 0], dl[1] * v[:, 1])
    amp = float(dl[:2].max()) * tol[:, 0] * 4 + 4 * float(dl[2]) * tol[:, 0]
    m.close(q, 2 * dl[2] * v[:, 2], amp, label + "_dual_conic")
    # around the upward pole: the nominal pole is strictly inside, and the ring winds once around it
    m.ok((v[:, 2] > 0).all() or float(dl[:2].min()) < 1e-6 * float(dl[2]), label + "_around_the_pole")
    if n >= 17 and float(N.hypot(v[:, 0], v[:, 1]).min()) > 1e-6:
        a = N.unwrap(N.arctan2(v[:, 1], v[:, 0]).astype(float))
        if N.abs(N.diff(a)).max() < 2.5:
            m.close(abs(a[-1] - a[0]), 2 * N.pi, 1e-3, label + "_winds_once")
    m.close(v[0], v[-1], 1.5e-7, label + "_closed")
    return v


def run_case(m, rng, idx):
    u = rng.random()
    fit = None
    if u < .55:
        axes, d, src = random_axes(rng), lengths(rng), "synthetic"
    elif u < .8:
        c = gen.cloud(rng, lo=4, hi=200, noise=float(10 ** rng.uniform(-3, -1)))
        fit = Orientation(c.arr)
        if rng.random() < .5:
            fit = Orientation(c.arr, axes=-fit.principal_axes)
        fit = lived(rng, m, fit)
        axes, d, src = N.array(fit.axes), N.diag(fit.covariance_matrix).copy(), "fit"
    else:
        fit = ReconstructedPlane(float(rng.uniform(0, 360)), float(rng.uniform(0, 90)), float(rng.uniform(0, 180)), float(rng.uniform(.1, 20)), float(rng.uniform(.1, 60)))
        axes, d, src = N.array(fit.axes), N.array(fit.hyperbolic_axes), "reconstructed"
    cov = N.diag(d)
    axes0, cov0 = axes.copy(), cov.copy()
    n = int(rng.choice([3, 4, 5, 17, 100, 101, 360, 999] + [2001, 4097] * (rng.random() < .1)))
    m.note(source=src, axes=axes, lengths=d, n=n)
    out = {}
    for trad in (True, False):
        kw = dict(n=n)
        if not trad or rng.random() < .5:
            kw["traditional_layout"] = trad
        pts = S.normal_errors(axes, cov, **kw)
        out[trad] = check_ring(m, pts, axes, d, trad, n, "vectorised")
        if n <= 101:
            it = S.iterative_normal_errors(axes, cov, **kw)
            check_ring(m, it, axes, d, trad, n, "iterative")
        again = S.normal_errors(axes, cov, **kw)
        m.close(lonlat(N.asarray(again)), lonlat(N.asarray(pts)), 1e-7, "no_memory_of_earlier_calls")
    m.close(out[True], out[False], 1.2e-7, "layouts_agree")
    if idx % 3 == 0:
        check_ring(m, S.normal_errors(axes, cov), axes, d, True, 1000, "defaults")
        check_ring(m, S.iterative_normal_errors(axes, cov), axes, d, True, 100, "iterative_defaults")
    if axes[2, 2] != 0:
        f = S.normal_errors(-axes, cov, n=n)
        m.close(lonlat(N.asarray(f)), lonlat(N.asarray(S.normal_errors(axes, cov, n=n))), 1e-7, "upside_down_axes_same_ring")
    # duality against the girdle the code itself returns: the plane of each pole touches
    # the girdle cone, i.e. never lies strictly beyond it and reaches it
    if d.max() / d.min() < 1e4 and n >= 5:
        G = to_axes_frame(S.plane_errors(axes, cov, n=400, sheet="upper"), axes, True)
        G2 = to_axes_frame(S.plane_errors(axes, cov, n=400, sheet="lower"), axes, True)
        v = out[True] * (1 if axes[2, 2] >= 0 else -1)
        for g in (G, G2):
            sc = N.sqrt((g[:, 0] / d[0]) ** 2 + (g[:, 1] / d[1]) ** 2)
            g = g / sc[:, None]       # points (d0 cos, d1 sin, +-2 d2)
            dots = v @ g.T            # v.(girdle): sinusoid in the girdle angle around offset 2 d2 v2
            amp = N.hypot(d[0] * v[:, 0], d[1] * v[:, 1])
            lo, hi = dots.min(axis=1), dots.max(axis=1)
            off = g[:, 2].mean() * v[:, 2]
            touch = N.minimum(N.abs(lo), N.abs(hi)) / (amp + 1e-300)
            m.close(touch, 0 * touch, 2e-4, "tangent_to_the_girdle")
    m.ok(N.array_equal(axes, axes0) and N.array_equal(cov, cov0), "arguments_unchanged", "axes %s became %s" % (axes0, axes))
    # polar plot
    if idx % 4 == 0:
        fake = fit if isinstance(fit, Orientation) or fit is not None else Plain(axes, cov)
        pts, kw = capture_polar(fake)
        th, r = pts[:, 0].astype(L), N.radians(pts[:, 1].astype(L))
        w = N.column_stack([N.sin(r) * N.sin(th), N.sin(r) * N.cos(th), N.cos(r)])
        up = -axes if axes[2, 2] < 0 else axes
        v = w @ N.asarray(up, L).T
        m.close(v, ring(up, N.diag(fake.covariance_matrix), len(pts)), 1.2e-7, "polar_ring", "axes %s" % axes)
        m.ok(kw.get("facecolor") == "red", "polar_style")
    m.nontrivial(src, n, bucket(d.max() / d.min(), [2, 10, 1e3, 1e6]), bool(axes[2, 2] < 0), bool(N.linalg.det(axes) < 0), int(N.degrees(N.arctan2(axes[2, 0], axes[2, 1])) // 45))
    m.state("axes", "down" if axes[2, 2] < 0 else "level" if axes[2, 2] == 0 else "up", "left" if N.linalg.det(axes) < 0 else "right")


class Plain:
    def __init__(self, axes, cov):
        self.axes, self.covariance_matrix = axes, cov


class Recorder:
    """Stands in for a matplotlib axes: records the patches added to it."""
    def __init__(self):
        self.patches = []

    def add_patch(self, p):
        self.patches.append(p)
        return p


def capture_polar(fit):
    ax = Recorder()
    DP.pole_error(ax, fit, facecolor="red", alpha=.5)
    p = ax.patches[-1]
    col = p.get_facecolor()
    return N.array(p.get_path().vertices), dict(facecolor="red" if tuple(N.round(col, 3)) == (1, 0, 0, .5) else col)

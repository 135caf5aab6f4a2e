"""C14: girdle error surfaces bracket the nominal plane exactly."""
from common import *
from attitude import Orientation, ReconstructedPlane
from attitude import stereonet as S

RULE = ("orthonormal axes of any attitude, handedness and way up (incl. exact cardinal, horizontal and vertical ones), axes of real fits and reconstructed planes; error lengths over 10 decades and ratios 1..1e6, "
        "levels 0..7, 3..1000 samples, both layouts, three sheets, vectorised, iterative, method and bundle forms; non-trivial = every returned direction mapped back to the axes frame and tested against the sheet equation; "
        "distinct by (attitude class, lengths, options)")
CASES = dict(quick=6000, thorough=100000)
FILES = ["stereonet.py"]


def lonlat(v):
    v = N.asarray(v)
    lon, lat = v[:, 0].astype(L), v[:, 1].astype(L)
    return N.column_stack([N.cos(lat) * N.cos(lon), N.cos(lat) * N.sin(lon), N.sin(lat)])


def to_axes_frame(pts, axes, traditional):
    """Longitude/latitude (radians) -> unit vectors in the frame of the axes."""
    c = lonlat(pts)
    if traditional:       # (c0,c1,c2) = (z, x, y)
        w = N.column_stack([c[:, 1], c[:, 2], c[:, 0]])
    else:                 # (c0,c1,c2) = (-y, x, z)
        w = N.column_stack([c[:, 1], -c[:, 0], c[:, 2]])
    return w @ N.asarray(axes, L).T


def random_axes(rng):
    u = rng.random()
    if u < .4:
        A = gen.rotation(rng)
    elif u < .7:
        s, d = gen.attitude(rng)
        sv, dv, nv = gen.frame(s, d)
        t = rng.uniform(0, 2 * N.pi) if rng.random() < .6 else 0.
        A = N.array([N.cos(t) * sv + N.sin(t) * dv, -N.sin(t) * sv + N.cos(t) * dv, nv])
    else:
        A = N.eye(3)[rng.permutation(3)]
    A = A * rng.choice([-1., 1.], 3)[:, None]
    return A


def lengths(rng):
    d = N.sort(10 ** rng.uniform(-4, 6, 3))[::-1] if rng.random() < .5 else N.sort(10 ** rng.uniform(-1, 3, 3))[::-1]
    if rng.random() < .15:
        d[1] = d[0]
    if rng.random() < .1:
        d = rng.permutation(d)
    return d.copy()


def sheet_value(v, d):
    """Signed offset over the in-plane ellipse radius, in units of d2."""
    r = N.sqrt((v[:, 0] / d[0]) ** 2 + (v[:, 1] / d[1]) ** 2)
    return v[:, 2] / d[2] / r


def check_sheet(m, pts, axes, d, sheet, level, traditional, n, label):
    P = N.asarray(pts, float)
    m.ok(P.shape == (n, 2), label + "_samples", "%s for n=%d" % (P.shape, n))
    m.ok(N.isfinite(P).all(), label + "_finite")
    v = to_axes_frame(P, axes, traditional)
    dl = N.asarray(d, L)
    # the side: 'upper' is above the plane in the traditional sense of this library,
    # i.e. towards the nadir of the projection; independent of the handedness of the axes
    up = -1 if axes[2, 2] > 0 else 1
    want = {"upper": up, "lower": -up, "nominal": 0}[sheet] * 2 * level
    th = N.linspace(0, 2 * N.pi, n).astype(L)
    u = N.column_stack([dl[0] * N.cos(th), dl[1] * N.sin(th), want * dl[2] + 0 * th])
    u = u / N.sqrt((u ** 2).sum(axis=1))[:, None]
    # a latitude near the pole of the projection resolves less
    cl = N.maximum(N.abs(N.cos(P[:, 1])), 1e-9)
    # and the parameter itself is only known to rounding
    speed = N.hypot(dl[0] * N.sin(th), dl[1] * N.cos(th)) / N.sqrt((dl[0] * N.cos(th)) ** 2 + (dl[1] * N.sin(th)) ** 2 + (want * dl[2]) ** 2)
    tol = N.minimum(1e-12 + 3e-14 / cl, 6e-7)[:, None] + (3e-14 * speed)[:, None]
    m.close(v, u, tol + 0 * v, label + "_sheet", "%s sheet, level %s, axes %s, lengths %s" % (sheet, level, axes, d))
    m.close(v[0], v[-1], 1.5e-7 + 1e-15 * float(speed[0]), label + "_closed")


def run_case(m, rng, idx):
    u = rng.random()
    if u < .6:
        axes = random_axes(rng)
        d = lengths(rng)
        src = "synthetic"
        fit = None
    elif u < .85:
        c = gen.cloud(rng, lo=4, hi=200, noise=float(10 ** rng.uniform(-3, -1)))
        fit = Orientation(c.arr)
        if rng.random() < .5:
            fit = Orientation(c.arr, axes=-fit.principal_axes)
        fit = lived(rng, m, fit)
        axes = N.array(fit.axes)
        d = N.diag(fit.covariance_matrix).copy() if rng.random() < .6 else N.array(fit.hyperbolic_axes)
        src = "fit"
    else:
        fit = ReconstructedPlane(float(rng.uniform(0, 360)), float(rng.uniform(0, 90)), float(rng.uniform(0, 180)), float(rng.uniform(.1, 20)), float(rng.uniform(.1, 60)))
        axes, d = N.array(fit.axes), N.array(fit.hyperbolic_axes)
        src = "reconstructed"
    cov = N.diag(d)
    n = int(rng.choice([3, 4, 5, 17, 100, 101, 360, 999] + [2001, 4097] * (rng.random() < .1)))
    level = 1. if rng.random() < .4 else float(rng.choice([0, .1, .5, 2, 3, 5, 1.5]))
    trad = bool(rng.random() < .5)
    m.note(source=src, axes=axes, lengths=d, n=n, level=level, traditional=trad)
    for sheet in ("upper", "lower", "nominal"):
        kw = dict(n=n)
        if level != 1 or rng.random() < .3:
            kw["level"] = level
        if not trad or rng.random() < .3:
            kw["traditional_layout"] = trad
        pts = S.plane_errors(axes, cov, sheet=sheet, **kw)
        check_sheet(m, pts, axes, d, sheet, level, trad, n, "vectorised")
        if n <= 101:
            it = S.iterative_plane_errors(axes, cov, sheet=sheet, n=n)
            check_sheet(m, it, axes, d, sheet, 1, True, n, "iterative")
            vec = S.plane_errors(axes, cov, sheet=sheet, n=n)
            m.close(lonlat(N.asarray(it)), lonlat(N.asarray(vec)), 1e-7, "iterative_equals_vectorised")
        if sheet == "upper":
            m.close(lonlat(N.asarray(S.plane_errors(axes, cov, **kw))), lonlat(N.asarray(pts)), 1e-7, "upper_is_the_default")
    if idx % 3 == 0:
        check_sheet(m, S.plane_errors(axes, cov), axes, d, "upper", 1, True, 1000, "defaults")
        check_sheet(m, S.iterative_plane_errors(axes, cov), axes, d, "upper", 1, True, 100, "iterative_defaults")
    # the two layouts are the same directions
    a = to_axes_frame(S.plane_errors(axes, cov, n=n, sheet="lower", traditional_layout=True), axes, True)
    b = to_axes_frame(S.plane_errors(axes, cov, n=n, sheet="lower", traditional_layout=False), axes, False)
    m.close(a, b, 1.2e-7, "layouts_agree")
    # upside-down axes describe the same surfaces
    flip = axes * N.array([1., 1., -1.])[:, None]
    a = lonlat(N.asarray(S.plane_errors(axes, cov, n=n, level=level)))
    b = lonlat(N.asarray(S.plane_errors(flip, cov, n=n, level=level)))
    if axes[2, 2] != 0:
        m.close(a, b, 1e-7, "upside_down_axes_same_surface")
    # the bundle of surfaces
    levels = None if rng.random() < .5 else [float(x) for x in rng.choice([0, .1, .25, .5, 1, 1.5, 2, 3, 4, 4.5, 7], int(rng.choice([1, 2, 3, 3, 4, 6, 10])), replace=False)]
    kw = dict(n=n, traditional_layout=trad)
    if rng.random() < .5 and trad:
        kw.pop("traditional_layout")
    ell = False
    if levels is not None:
        kw["levels"] = levels
    if isinstance(fit, Orientation) and rng.random() < .5:
        d0 = N.diag(fit.covariance_matrix)
        out = fit.error_coords(ellipse=ell, **kw)
    else:
        d0 = d
        out = S.error_coords(axes, cov, ellipse=ell, **kw)
    check_sheet(m, N.radians(out["nominal"]), axes, d0, "nominal", 1, trad, n, "bundle_nominal")
    parts = [(1, out)] if levels is None else [(l, out[l]) for l in levels]
    m.ok(set(out) == ({"nominal", "upper", "lower"} if levels is None else {"nominal"} | set(levels)), "bundle_keys", str(sorted(map(str, out))))
    for l, o in parts:
        m.ok(set(o) >= {"upper", "lower"}, "bundle_sheets")
        for sheet in ("upper", "lower"):
            check_sheet(m, N.radians(o[sheet]), axes, d0, sheet, l, trad, n, "bundle")
    if isinstance(fit, Orientation):
        sheet = str(rng.choice(["upper", "lower", "nominal"]))
        check_sheet(m, fit.plane_errors(sheet=sheet, n=n), axes, N.diag(fit.covariance_matrix), sheet, 1, True, n, "method")
    m.nontrivial(src, n, level, trad, levels is None, bucket(d.max() / d.min(), [2, 10, 1e3, 1e6]), bool(axes[2, 2] < 0), bool(N.linalg.det(axes) < 0), int(N.degrees(N.arctan2(axes[2, 0], axes[2, 1])) // 45))
    m.state("axes", "down" if axes[2, 2] < 0 else "level" if axes[2, 2] == 0 else "up", "left" if N.linalg.det(axes) < 0 else "right")

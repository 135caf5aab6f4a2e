"""C13: a plane reconstructed from angles has exactly those angles."""
from common import *
from attitude import ReconstructedPlane, Orientation
from attitude.orientation.reconstructed import ErrorShell
from attitude import stereonet as S
from c14 import to_axes_frame

RULE = ("strike (all quadrants, cardinal, negative and beyond 360), dip (0, 90, within 1e-6 of both), rake 0..180 incl. special values, negative and beyond 180, full angular errors 1e-3..170 degrees, normal error over 8 decades, "
        "python and numpy numbers; plus planes rebuilt from real fits; non-trivial = axes, lengths and reported angles checked against direct trigonometry in long double; distinct by octant, dip, rake and error class")
CASES = dict(quick=18000, thorough=300000)
FILES = ["orientation/reconstructed.py"]
ASSUMPTIONS = ["the axis along the rake line carries the first of the two errors (behaviour pinned by the repository's reference images)"]


def run_case(m, rng, idx):
    s, d = gen.attitude(rng)
    if rng.random() < .1:
        s += float(rng.choice([-360, -180, 360]))
    r = float(rng.uniform(0, 180)) if rng.random() < .75 else float(rng.choice([0, 1e-6, 30, 45, 90, 135, 179.9999, 180]))
    if rng.random() < .12:
        # the same line, named otherwise
        r = float(rng.choice([-180, -90, -30, 200, 270, 360, 400])) if rng.random() < .4 else float(rng.uniform(-360, 540))
    e1 = float(10 ** rng.uniform(-3, 1.8)) if rng.random() < .7 else float(rng.choice([1, 2, 5, 10, 30, 90]))
    e2 = float(10 ** rng.uniform(-3, 2.2)) if rng.random() < .7 else float(rng.choice([1, 2, 5, 10, 30, 90, 120, 171, 179]))
    kw = {}
    ne = 1.
    if rng.random() < .5:
        ne = float(10 ** rng.uniform(-4, 4))
        kw["normal_error"] = ne
    if rng.random() < .15:
        s, d, r = round(s), round(d), round(r)
    if rng.random() < .2:
        s, d, r, e1, e2 = map(N.float64, (s, d, r, e1, e2))
    m.note(strike=s, dip=d, rake=r, errors=[e1, e2], normal_error=ne)
    p = ReconstructedPlane(s, d, r, e1, e2, **kw)
    check(m, p, s, d, r, (e1, e2), ne)
    # same input, same plane; different input, different identifier
    q = ReconstructedPlane(s, d, r, e1, e2, **kw)
    m.ok(p.hash == q.hash and N.array_equal(p.axes, q.axes), "deterministic")
    m.ok(ReconstructedPlane(s, d, r, e1, e2 * 1.01, **kw).hash != p.hash, "identifier_depends_on_errors")
    # scaling the normal error scales every length
    k = float(10 ** rng.uniform(-2, 2))
    q = ReconstructedPlane(s, d, r, e1, e2, normal_error=ne * k)
    m.close(N.asarray(q.hyperbolic_axes), N.asarray(p.hyperbolic_axes, L) * k, 1e-12 * N.asarray(q.hyperbolic_axes), "normal_error_scales_lengths")
    m.close(q.axes, p.axes, 0, "normal_error_keeps_axes")
    # what is drawn uses these axes
    if idx % 4 == 0:
        shapes(m, p)
    # a fit, described by angles and rebuilt
    if idx % 5 == 0:
        c = gen.cloud(rng, n=int(rng.integers(6, 60)), noise=.03, dtypes=False, scale=100.)
        f = Orientation(c.arr)
        sdr = f.strike_dip_rake()
        mn, mx = f.angular_errors()
        if mn < 1e-4:
            return
        p = ReconstructedPlane(*sdr, 2 * mn, 2 * mx)
        m.note(from_fit=gen.describe(c))
        check(m, p, *sdr, (2 * mn, 2 * mx), 1.)
        m.close(ref.line_angle(p.normal, f.normal), 0, 2e-7, "plane_of_the_fit")
    m.nontrivial(int(s // 45), bucket(d, [1e-9, 1e-3, 1, 45, 89, 89.999, 90 - 1e-9]), int(r // 30), bucket(e1, [.01, .1, 1, 10]), bucket(e2, [.01, .1, 1, 10, 90]), bool(kw))


def check(m, p, s, d, r, errors, ne):
    sv, dv, nv = gen.frame(float(s), float(d))
    n = N.asarray(p.normal, L)
    m.close((n ** 2).sum(), 1, 1e-12, "normal_unit")
    vertical = d > 90 - 1e-6
    if vertical:
        m.close(ref.line_angle(n, nv), 0, 1e-7, "normal_of_strike_and_dip")
    else:
        m.close(ref.angle(n, nv), 0, 1e-7, "normal_of_strike_and_dip", "normal %s" % p.normal)
    m.ok(n[2] > -1e-12, "normal_upward", str(p.normal))
    A = N.asarray(p.axes, L)
    m.ok(A.shape == (3, 3), "axes_shape")
    m.close(A @ A.T, N.eye(3), 1e-7, "axes_orthonormal")
    m.close(ref.line_angle(A[2], n), 0, 1e-7, "normal_is_third_axis")
    m.ok(A[2, 2] >= 0, "third_axis_upward", str(p.axes))
    rr = N.radians(L(r))
    line = N.cos(rr) * sv.astype(L) + N.sin(rr) * dv.astype(L)
    m.close(ref.line_angle(A[1], line), 0, 2e-7, "axis_along_rake_line", "axes %s, rake line %s" % (p.axes, line.astype(float)))
    h = N.asarray(p.hyperbolic_axes, L)
    m.ok(h.shape == (3,), "lengths_shape")
    m.close(h[2], ne, 1e-12 * ne, "normal_error_length")
    full = 2 * N.degrees(N.arctan2(h[2], h[:2]))
    m.close(full, [errors[1], errors[0]], 1e-9, "opening_angles", "lengths %s" % p.hyperbolic_axes)
    C = N.asarray(p.covariance_matrix)
    m.close(C, N.diag(N.asarray(p.hyperbolic_axes)), 0, "covariance_is_lengths")
    got = p.strike_dip_rake()
    m.ok(tuple(got) == (s, d, r), "reports_its_angles", str(got))
    m.ok(tuple(p.angular_errors()) == tuple(errors), "reports_its_errors", str(p.angular_errors()))
    m.ok(p.disabled is False, "enabled")


def shapes(m, p):
    g = next(iter(p.cartopy_girdle().geometries()))
    up = N.radians(N.array(g.exterior.coords))
    lo = N.radians(N.array(g.interiors[0].coords))
    h = N.asarray(p.hyperbolic_axes, L)
    for pts, sgn in ((up, -1), (lo, 1)):
        v = to_axes_frame(pts, p.axes, False)
        # on the sheet: offset twice the normal length relative to the in-plane ellipse
        t = v[:, 2] / N.sqrt((v[:, 0] / h[0]) ** 2 + (v[:, 1] / h[1]) ** 2)
        # directions near the pole of the projection resolve to 2e-8: matters where one length is 1e5 times another
        w = N.column_stack([v[:, 0] / h[0], v[:, 1] / h[1]])
        blur = 3e-8 * N.maximum(1 / h[0], 1 / h[1]) / N.sqrt((w ** 2).sum(axis=1)) + 3e-8 / N.abs(v[:, 2])
        m.close(t / h[2] / 2, sgn + 0 * t, 1e-4 + blur, "map_girdle_sheet")
    v = to_axes_frame(N.radians(N.array(next(iter(p.cartopy_normal().geometries())).exterior.coords)), p.axes, False)
    q = N.sqrt((h[0] * v[:, 0]) ** 2 + (h[1] * v[:, 1]) ** 2) / v[:, 2]
    blur = 3e-8 * N.maximum(h[0], h[1]) / N.sqrt((h[0] * v[:, 0]) ** 2 + (h[1] * v[:, 1]) ** 2)
    m.close(q / (2 * h[2]), 1 + 0 * q, 1e-4 + blur, "map_normal_ring")

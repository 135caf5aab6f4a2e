"""C02: strike, dip, dip direction and rake describe the fitted plane."""
from common import *
from attitude import Orientation
from attitude.orientation.grouped import GroupedOrientation

RULE = ("point clouds as for C01 biased towards special attitudes (horizontal, vertical, cardinal strikes, dips within 1e-7 deg of 0/90), "
        "upside-down decompositions and data recovered from saved axes; non-trivial = angles reported by a fit were checked "
        "against the normal and axes of the same fit and, for well-posed data, against the attitude the points were generated on")
CASES = dict(quick=20000, thorough=200000)
FILES = ["orientation/pca.py", "orientation/base.py"]
DIP_TOL = 1e-5       # degrees; arccos near 1 resolves no better than ~1e-8 rad


def vec(az, pl):
    """Unit vector with azimuth az, plunge pl (degrees), downward positive."""
    a, p = N.radians(L(az)), N.radians(L(pl))
    return N.array([N.sin(a) * N.cos(p), N.cos(a) * N.cos(p), -N.sin(p)])


def check_angles(m, fit):
    nv = N.asarray(fit.normal, L)
    strike, dip = fit.strike_dip()
    m.ok(0 <= strike <= 360, "strike_range", "strike %r" % strike)
    m.ok(0 <= dip <= 90, "dip_range", "dip %r" % dip)
    rs, rd = ref.strike_dip(nv)
    h = float(N.hypot(nv[0], nv[1]))
    m.close(dip, rd, DIP_TOL, "dip")
    if h > 1e-12:
        tol = 1e-9 + N.degrees(1e-14 / h)
        if 90 - rd > 1e-9:
            m.close(ref.mod_diff(strike, rs), 0, tol, "strike_right_hand_rule", "strike %r, normal %s" % (strike, fit.normal))
        else:
            m.close(ref.mod_diff(strike, rs, 180), 0, tol, "strike_right_hand_rule", "strike %r, normal %s" % (strike, fit.normal))
        # the strike line and the line of dip lie in the plane
        m.close((vec(strike, 0) * nv).sum(), 0, 1e-11, "strike_in_plane")
        m.close((vec(strike + 90, dip) * nv).sum(), 0, 1e-7, "dip_line_in_plane")
    else:
        m.close(dip, 0, DIP_TOL, "horizontal_dip")
    dd, ddip = fit.dip_direction()
    m.close(ref.mod_diff(dd, strike + 90), 0, 1e-9, "dip_direction")
    m.ok(ddip == dip, "dip_direction_dip")
    s3, d3, rake = fit.strike_dip_rake()
    m.ok(s3 == strike and d3 == dip, "strike_dip_rake_consistent")
    # rake: from the up-dip line to the long axis, inside the plane
    m.ok(0 <= rake <= 180, "rake_range", "rake %r" % rake)
    if h > 1e-7:
        up = N.array([0, 0, 1], L) - nv * nv[2]
        up = up / N.sqrt((up ** 2).sum())
    else:
        up = -vec(strike + 90, dip)
    want = N.degrees(ref.angle(up, N.asarray(fit.axes[0], L)))
    m.close(rake, want, DIP_TOL + N.degrees(1e-9 / max(h, 1e-3)) + (N.degrees(3e-15 / h) if 1e-7 < h < 1e-3 else 1e-4 if h <= 1e-7 else 0),
            "rake", "axes %s" % fit.axes)
    m.ok(fit.rake() == rake, "rake_consistent")
    # gradient representation of the (unoriented) normal
    az, sl = fit.gradient()
    g = N.array([N.sin(L(az)) * N.sin(L(sl)), N.cos(L(az)) * N.sin(L(sl)), N.cos(L(sl))])
    m.close(ref.line_angle(g, nv), 0, 1e-7, "gradient")
    m.ok(fit.azimuth == az and fit.slope == sl, "gradient_consistent")
    text = repr(fit)
    m.ok("strike: %.2f" % strike in text and "dip: %.2f" % dip in text, "repr", text)
    return strike, dip


def run_case(m, rng, idx):
    u = rng.random()
    kw = {}
    if u < .12:
        kw = dict(dip=0.)
    elif u < .2:
        kw = dict(dip=90.)
    elif u < .3:
        kw = dict(strike=float(rng.choice([0, 90, 180, 270, 360])))
    c = gen.cloud(rng, hi=400, extreme=.08, n=gen.big(idx, 797), **kw)
    if rng.random() < .1:
        # exact small-integer planes: signed zeros and exact ties in the SVD
        v1, v2 = rng.integers(-3, 4, 3), rng.integers(-3, 4, 3)
        if rng.random() < .4:
            v1[2] = v2[2] = 0
        if not N.cross(v1, v2).any():
            v1, v2 = N.array([1, 0, 0]), N.array([0, 1, 0])
        k = rng.integers(-5, 6, size=(c.n, 2))
        k[:3] = [[0, 0], [1, 0], [0, 1]]
        c.arr = (k @ N.array([v1, v2])).astype(rng.choice([N.int64, N.float64]))
        c.dtype, c.kind, c.noise = str(c.arr.dtype), "integer", 0
        c.nv = N.cross(v1, v2).astype(float)
        c.nv /= N.linalg.norm(c.nv)
        c.strike, c.dip = map(float, ref.strike_dip(c.nv))
        c.offset = N.zeros(3)
    m.note(**gen.describe(c))
    fit = lived(rng, m, Orientation(c.arr))
    strike, dip = check_angles(m, fit)
    delta, e, cc, s, V = precision(c)
    good, ax = gaps(s, e)
    h = float(N.hypot(*fit.normal[:2]))
    if good:
        rs, rd = ref.strike_dip(V[2])
        tol = N.degrees(40 * e / float(s[1] - s[2]))
        m.close(dip, rd, DIP_TOL + tol, "dip_vs_reference")
        if h > 1e-6:
            p = 360 if rd < 90 - 10 * tol - 1e-6 else 180
            m.close(ref.mod_diff(strike, rs, p), 0, 1e-6 + 2 * tol / h, "strike_vs_reference")
        if c.noise == 0 and c.dtype != "float32":
            rounding = .5 if c.dtype.startswith("int") and c.kind != "integer" else EPS * float(N.abs(N.asarray(c.arr, float)).max())
            t2 = tol + N.degrees(20 * rounding * c.n ** .5 / float(s[1]))
            if t2 < .1:
                m.close(dip, c.dip, DIP_TOL + t2, "true_dip_recovered")
                if h > 1e-5:
                    p = 360 if c.dip < 90 - 10 * t2 - 1e-6 else 180
                    m.close(ref.mod_diff(strike, c.strike, p), 0, 1e-5 + 4 * t2 / h, "true_strike_recovered")
    if rng.random() < .3:
        # an upside-down decomposition describes the same plane
        flip = rng.choice([-1., 1.], 3)
        p = fit.singular_values * (fit.axes * flip[:, None])
        g = Orientation(c.arr, axes=p)
        s2, d2 = check_angles(m, g)
        m.close(d2, dip, DIP_TOL, "flipped_dip")
        if h > 1e-7:
            m.close(ref.mod_diff(s2, strike, 360 if dip < 90 - 1e-6 else 180), 0, 1e-6, "flipped_strike")
    m.nontrivial(*signature(c))
    m.state("quadrant", int(strike // 90), "dip", bucket(dip, [1e-6, 1, 45, 89, 89.99999]))
    m.state("axis3_down", bool(fit.axes[2, 2] < 0), "horizontal", h == 0, "vertical", float(fit.normal[2]) == 0)

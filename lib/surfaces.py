"""What the front end's rings must be: sheets of the error cone and their duals."""
import math, re
from common import *
from attitude import Orientation

LAYOUT = dict(traditionalLayout=False, degrees=True)


def unit(pts, o):
    """lon/lat of the front end -> unit vectors in the caller's coordinates."""
    k = math.pi / 180 if o.get("degrees") else 1.
    p = N.array(pts, dtype=float)
    lon, lat = p[:, 0] * k, p[:, 1] * k
    c = N.array([N.cos(lat) * N.cos(lon), N.cos(lat) * N.sin(lon), N.sin(lat)])
    s = 1. if o.get("upperHemisphere", True) else -1.
    c[2] *= s
    u = N.array([c[1], c[2], c[0]]).T if o["traditionalLayout"] else N.array([c[1], -c[0], c[2]]).T
    tol = 2e-13 + o.get("slack", 0) + 1e-14 / N.maximum(N.abs(N.cos(lat)), 1e-8)
    return u, tol


def tolonlat(u, o):
    """Oracle for single directions (degrees)."""
    x, y, z = u
    c = [z, x, y] if o["traditionalLayout"] else [-y, x, z]
    if not o.get("upperHemisphere", True):
        c[2] = -c[2]
    return [math.degrees(math.atan2(c[1], c[0])), math.degrees(math.asin(max(-1, min(1, c[2] / math.sqrt(sum(i * i for i in c))))))]


def steps(th):
    return N.angle(N.exp(1j * N.diff(N.append(th, th[0]))))


def spacing(m, th, n, label, other=None):
    """Ring in order around the ellipse, no holes."""
    d = steps(th)
    if other is not None and N.abs(steps(other)).max() < N.abs(d).max():
        d = steps(other)
    sgn = 1 if N.sum(d) > 0 else -1
    m.ok((sgn * d > -1e-6).all(), label + "_in_order", str(d[:20]))
    m.close(abs(N.sum(d)), 2 * math.pi, 1e-6, label + "_once_around")
    g = math.acos(max(-1, 1 - 4. / n)) * 1.01 + 1e-6
    m.ok(N.abs(d).max() <= g, label + "_sampling", "largest step %g with n=%d" % (N.abs(d).max(), n))


def girdle(m, pts, h, ax, sheet, o, n):
    s = N.sqrt(h)
    c1 = dict(upper=1, lower=-1, nominal=0)[sheet]
    if o.get("upperHemisphere", True):
        c1 = -c1
    if ax[2][2] < 0:
        c1 = -c1
    u, tol = unit(pts, o)
    e = u @ ax.T
    t = N.hypot(e[:, 0] / s[0], e[:, 1] / s[1])
    th = N.arctan2(e[:, 0] / s[0], e[:, 1] / s[1])
    w = N.array([s[0] * N.sin(th), s[1] * N.cos(th), c1 * s[2] + 0 * th]).T
    w /= N.linalg.norm(w, axis=1)[:, None]
    amp = 4 + s[2] / s[1] + s[0] / s[1]
    m.close(w, e, tol[:, None] * amp, "girdle_" + sheet)
    spacing(m, th, n, "girdle")
    return u


def ellipse(m, pts, h, ax, sheet, o, n, level):
    s = N.sqrt(h)
    v0 = 1 if sheet == "upper" else -1
    u, tol = unit(pts, o)
    e = u @ ax.T
    p, q = e[:, 0] * s[0], e[:, 1] * s[1]
    th = N.arctan2(p, q)
    # normals of the cone: s0 p = level s2 sin, s1 q = level s2 cos, r = 1
    w = N.array([level * s[2] / s[0] * N.sin(th), level * s[2] / s[1] * N.cos(th), v0 + 0 * th]).T
    w /= N.linalg.norm(w, axis=1)[:, None]
    amp = 4 + s[0] / s[1] + s[0] / (s[2] * level) + level * s[2] / s[1]
    m.close(w, e, tol[:, None] * amp, "ellipse_" + sheet)
    if max(tol) * amp < 1e-7:
        # sampled evenly either on the ellipse of normals or on the girdle's
        spacing(m, th, n, "ellipse", N.arctan2(p / s[1], q / s[0]))
    return e


def case_axes(rng):
    u = rng.random()
    if u < .3:
        c = gen.cloud(rng, lo=5, hi=80, noise=float(10 ** rng.uniform(-3, -.5)), dtypes=False)
        f = Orientation(c.arr)
        mp = f.to_mapping()
        h, ax = N.array(mp["hyperbolic_axes"], float), N.array(mp["axes"], float)
        if h.min() > 1e-9 * h.max() and N.isfinite(h).all():
            return "export", h, ax
    q, _ = N.linalg.qr(rng.normal(size=(3, 3)))
    kind = "random"
    if u > .8:
        kind = ["horizontal", "vertical", "cardinal"][int(rng.integers(3))]
        a = rng.uniform(0, 2 * math.pi)
        if kind == "horizontal":
            q = N.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])
        elif kind == "vertical":
            b = rng.uniform(0, 2 * math.pi)
            e, z = N.array([math.cos(a), math.sin(a), 0]), N.array([0, 0, 1.])
            q = N.array([math.cos(b) * e + math.sin(b) * z, -math.sin(b) * e + math.cos(b) * z, N.cross(e, z)])
            if rng.random() < .6:       # nearly vertical
                t = float(10 ** rng.uniform(-6, -.7))
                w = N.cross(z, e)
                q = q @ (N.outer(e, e) + math.cos(t) * (N.outer(z, z) + N.outer(w, w)) + math.sin(t) * (N.outer(w, z) - N.outer(z, w)))
        else:
            q = N.eye(3)[rng.permutation(3)]
    q = q * rng.choice([-1, 1], 3)[:, None]
    h = N.sort(10 ** rng.uniform(-3, 2, 3))[::-1].copy()
    if rng.random() < .1:
        h[0] = h[1]
    if rng.random() < .15:          # unconstrained: normal error larger than the plane
        h = h[[0, 2, 1]]
    return kind, h, q


def options(rng):
    o = dict(traditionalLayout=bool(rng.random() < .5))
    if rng.random() < .6:
        o["upperHemisphere"] = bool(rng.random() < .5)
    if rng.random() < .7:
        o["n"] = int(rng.choice([4, 5, 6, 7, 10, 11, 50, 60, 100, 101, 200, 400]))
    return o


def rand_unit(rng):
    v = rng.normal(size=3)
    return v / N.linalg.norm(v)


def vec(lonlat):
    lo, la = N.radians(N.asarray(lonlat, float)).T
    return N.array([N.cos(la) * N.cos(lo), N.cos(la) * N.sin(lo), N.sin(la)]).T


def rotation(r):
    """Map frame -> view frame, for the angles of a view (degrees)."""
    a, b, g = [math.radians(x) for x in (list(r) + [0, 0, 0])[:3]]
    Z = N.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
    Y = N.array([[math.cos(b), 0, -math.sin(b)], [0, 1, 0], [math.sin(b), 0, math.cos(b)]])
    X = N.array([[1, 0, 0], [0, math.cos(g), -math.sin(g)], [0, math.sin(g), math.cos(g)]])
    return X @ Y @ Z


def project(v, R, k, t):
    """Lambert azimuthal equal area, screen coordinates (y down)."""
    w = N.asarray(v) @ R.T
    f = N.sqrt(2 / N.maximum(1 + w[..., 0], 1e-300))
    return N.stack([t[0] + k * f * w[..., 1], t[1] - k * f * w[..., 2]], -1)


def unproject(xy, R, k, t):
    x, y = (xy[:, 0] - t[0]) / k, (t[1] - xy[:, 1]) / k
    r2 = x * x + y * y
    w0 = 1 - r2 / 2
    f = N.sqrt(N.maximum(1 - r2 / 4, 0))
    return N.array([w0, f * x, f * y]).T @ R


def vertices(d):
    return N.array([[float(a), float(b)] for a, b in re.findall(r"[ML]([-\d.e+]+),([-\d.e+]+)", d or "")]).reshape(-1, 2)


def direction(lonlat):
    """Net coordinates of a direction given in east, north, up."""
    x, y, z = lonlat
    return N.array([-y, x, z], float)


def trace(m, d, ax, R, clip, k, t):
    """The drawn trace is on the plane's great circle, inside the view."""
    nv = direction(ax[2])
    tilt = math.degrees(math.asin(min(1, abs(float(R[0] @ nv)))))    # of the view centre above the plane
    c = clip if clip < 89 else 90
    xy = vertices(d)
    if tilt > c + .5:
        m.ok(len(xy) == 0, "invisible_trace_not_drawn", "%d vertices" % len(xy))
    elif tilt < c - .5:
        m.ok(len(xy) >= 2, "visible_trace_drawn", str(d)[:80])
    if not len(xy):
        return
    u = unproject(xy, R, k, t)
    off = N.sort(N.abs(u @ nv))
    # d3 places a few interpolated vertices beside the circle (its precision setting is a hundredth of a pixel)
    m.ok(off[-1] < 1e-2 and (abs(tilt - c) < .5 or off[int(.8 * (len(off) - 1))] < 5e-5), "trace_on_the_great_circle", "tilt %g, clip %g, off by up to %g" % (tilt, clip, off[-1]))
    m.ok((u @ R[0] >= math.cos(math.radians(c)) - 2e-5).all(), "trace_inside_the_view", "%g" % (u @ R[0]).min())
    if tilt < c - 3:
        # both ends reach the edge of the view
        span = N.degrees(N.arccos(N.clip(u @ R[0], -1, 1))).max()
        m.ok(span > c - 1, "trace_reaches_the_edge", "%g of %g" % (span, c))


def net_frame(sphere, clip):
    """Scale and centre of a drawn net, from the outline of its sphere."""
    xy = vertices(sphere)
    lo, hi = xy.min(axis=0), xy.max(axis=0)
    c = clip if clip < 89 else 90
    return float((hi - lo).mean() / 2 / (2 * math.sin(math.radians(c) / 2))), (lo + hi) / 2


def region(m, d, kind, h, ax, R, clip, k, t, label, tol=.015):
    """A drawn error region: its outline is on the cone (planes) or the cone
    of normals (poles), or on the edge of the view."""
    s = N.sqrt(N.asarray(h, float))
    ax = N.asarray(ax, float)
    c = clip if clip < 89 else 90
    xy = vertices(d)
    nv = direction(ax[2])
    frame = N.array([direction(a) for a in ax])
    a = math.degrees(math.acos(max(-1, min(1, float(R[0] @ nv)))))
    narrow, wide = [math.degrees(math.atan(s[2] / x)) for x in (max(s[0], s[1]), min(s[0], s[1]))]
    # the vertices of a needle bunch at its ends, where d3 merges them
    need = 20 if narrow > .05 else 4 if wide > .01 else 0
    if len(xy):
        u = unproject(xy, R, k, t)
        e = u @ frame.T
        w = N.array([s[0] ** 2, s[1] ** 2, -s[2] ** 2]) if kind == "pole" else N.array([s[0] ** -2., s[1] ** -2., -s[2] ** -2.])
        # distance from the cone, as an angle
        off = N.abs(e ** 2 @ w) / N.maximum(2 * N.linalg.norm(e * w, axis=1), 1e-300)
        on = off <= tol
        rim = N.degrees(N.arccos(N.clip(u @ R[0], -1, 1))) > c - .5
        m.ok((on | rim).all(), label + "_outline", "%d of %d vertices of the %s region are neither on its cone nor on the edge of the view (up to %.3g)" % ((~(on | rim)).sum(), len(xy), kind, off[~rim].max() if (~rim).any() else 0))
        near = on & ~rim
    else:
        u, near = N.zeros((0, 3)), N.zeros(0, bool)
    seen = 0
    for sg in (1, -1) if kind == "pole" else ():
        b = a if sg > 0 else 180 - a
        if b + wide < c - 1:
            n = int((near & (u @ (sg * nv) > math.cos(math.radians(min(89.9, wide + 2))))).sum()) if len(u) else 0
            m.ok(n >= need, label + "_drawn", "%d vertices around a visible pole at %g degrees" % (n, b))
            seen += 1
        elif b - wide <= c + 1:
            seen += 1
    if kind == "pole" and not seen:
        m.ok(len(xy) == 0, label + "_hidden", "%d vertices for poles outside the view" % len(xy))
    return seen


def cone(o):
    """Error axes and axes of strike, dip, rake, larger and smaller angular error."""
    s, d, k = [math.radians(x) for x in o[:3]]
    n = N.array([math.sin(d) * math.cos(s), -math.sin(d) * math.sin(s), math.cos(d)])
    along = N.array([math.sin(s), math.cos(s), 0])
    up = N.cross(n, along)
    a0 = math.sin(k) * along + math.cos(k) * up
    ax = N.array([a0, N.cross(n, a0), n])
    if n[2] < 0:
        ax[2] *= -1
    return N.array([1 / math.tan(math.radians(o[4] / 2)) ** 2, 1 / math.tan(math.radians(o[3] / 2)) ** 2, 1.]), ax


def angles(rng):
    """A record that gives its plane by angles alone, with its error axes and axes."""
    # (exactly vertical, either side may be up: left to C29)
    s = float(rng.choice([0, 90, 180, 270, 360, -45, 400])) if rng.random() < .3 else float(rng.uniform(-180, 540))
    d = float(rng.choice([0, 1e-6, 45, 89.9, 89.999999])) if rng.random() < .3 else float(rng.uniform(0, 89.99))
    k = float(rng.choice([0, 90, 180, -90, 270])) if rng.random() < .3 else float(rng.uniform(-180, 360))
    a, b = sorted(float(x) for x in rng.uniform(.2, 60, 2))
    h, ax = cone([s, d, k, b, a])
    return dict(strike=s, dip=d, rake=k, maxError=b, minError=a), h, ax


def moved(s):
    """The matrix an SVG transform stands for, however it is written (None if it is none)."""
    M, rest = N.eye(3), s or ""
    while rest.strip(" ,\t\n"):
        q = re.match(r"[\s,]*(\w+)\s*\(([^)]*)\)", rest)
        if q is None:
            return None
        try:
            a = [float(x) for x in re.split(r"[\s,]+", q.group(2).strip())]
        except ValueError:
            return None
        T, k = N.eye(3), q.group(1)
        if k == "translate" and len(a) in (1, 2):
            T[:2, 2] = a if len(a) == 2 else [a[0], 0]
        elif k == "scale" and len(a) in (1, 2):
            T[0, 0], T[1, 1] = a[0], a[-1]
        elif k == "rotate" and len(a) in (1, 3):
            c, d = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
            T[:2, :2] = [[c, -d], [d, c]]
            if len(a) == 3:
                T[:2, 2] = N.array(a[1:]) - T[:2, :2] @ N.array(a[1:])
        elif k == "matrix" and len(a) == 6:
            T[:2] = N.array(a).reshape(3, 2).T
        else:
            return None
        M = M @ T
        rest = rest[q.end():]
    return M


def place(s):
    """Where an SVG transform puts the origin."""
    M = moved(s)
    return None if M is None or not (s or "").strip() else M[:2, 2]

"""C17: conic algebra obeys the geometry of quadrics."""
from common import *
from attitude.geom.conics import Conic, conic, angle_subtended
from attitude.geom.util import plane as make_plane, Plane, augment, augment_tensor

RULE = ("ellipses, ellipsoids, hyperbolas and hyperboloids of one and two sheets (semiaxes over 3 decades, special and random orientations, centred, near and far), pushed through random sequences of translations and linear maps; random planes, poles and viewpoints; "
        "every result is evaluated on sampled surface points kept alongside by direct vector algebra in extended precision; distinct by class of quadric, history and query")
CASES = dict(quick=16000, thorough=150000)
FILES = ["geom/conics.py", "geom/util.py"]


def rotation(rng, dim):
    if rng.random() < .2:
        p = rng.permutation(dim)
        return N.eye(dim)[p] * rng.choice([-1, 1], size=dim)
    q, r = N.linalg.qr(rng.normal(size=(dim, dim)))
    return q * N.sign(N.diag(r))


def sample(rng, ax, sig, n):
    """n points on sum sig_i x_i^2/ax_i^2 = 1 (centred, axis aligned)."""
    dim = len(ax)
    pts = []
    while len(pts) < n:
        u = rng.normal(size=dim)
        if rng.random() < .1:
            u = N.eye(dim)[rng.integers(dim)]
        q = (sig * u ** 2).sum()
        if q > .02 * (u ** 2).sum():
            pts.append(L(1) * u * ax / N.sqrt(L(q)))
    return N.array(pts, L)


def q_of(C, p):
    """(value, size of the terms) of the quadratic form at p, in extended precision."""
    C = N.asarray(C, L)
    v = N.append(N.asarray(p, L), 1)
    return v @ C @ v, N.abs(v) @ N.abs(C) @ N.abs(v)


def on_surface(m, C, pts, label, tol=1e-12, extra=0):
    worst = 0
    for p in pts:
        v, s = q_of(C, p)
        worst = max(worst, float(abs(v) / (tol * s + extra)))
    m.close(worst, 0, 1, label, "point off the surface")


def gradient(C, p):
    C = N.asarray(C, L)
    return (C @ N.append(N.asarray(p, L), 1))


def elongated(m, rng):
    """Needles and plates along the coordinate axes, where everything is known componentwise."""
    dim = int(rng.integers(2, 4))
    ax = 10 ** rng.uniform(-2.5, 2.5, dim)
    t = rng.normal(size=dim) * 10 ** rng.uniform(-1, 2)
    C = Conic.from_semiaxes(ax)
    m.note(kind="elongated", semiaxes=ax, offset=t)
    m.close(C.center(), N.zeros(dim), 1e-12, "elongated_center")
    T = C.translate(t)
    m.close(T.center(), t, 1e-10 * N.abs(t).max(), "elongated_center_moves")
    A = N.array(C.major_axes(), float)
    m.close(N.sort(N.linalg.norm(A, axis=1)), N.sort(ax), 1e-9 * N.sort(ax), "elongated_axes")
    m.ok(C.is_elliptical() and not C.is_hyperbolic() and not C.is_parabolic(), "elongated_class")
    H = C.copy()
    H[0, 0] *= -1
    m.ok(H.is_hyperbolic() and not H.is_elliptical() and not H.is_parabolic(), "elongated_class")
    j = int(rng.integers(dim))
    p = t.copy()
    p[j] += ax[j] * .999
    m.ok(bool(C.contains(p - t)), "elongated_contains")
    p[j] += ax[j] * .002
    m.ok(not C.contains(p - t), "elongated_contains")
    m.close(N.linalg.inv(C.dual()) @ N.diag(N.append(ax ** 2, -1)), N.eye(dim + 1), 1e-9, "elongated_dual")
    m.nontrivial("elongated", dim, int(N.log10(ax.max() / ax.min())), j)


def run_case(m, rng, idx):
    if idx % 40 == 11:
        return elongated(m, rng)
    dim = 2 if rng.random() < .35 else 3
    u = rng.random()
    sig = N.ones(dim)
    if u < .4:
        if dim == 2:
            sig = N.array([[1., -1.], [-1., 1.]][rng.integers(2)])
        else:
            k = 1 if rng.random() < .5 else 2
            sig = N.array([1., 1., 1.])
            sig[rng.permutation(3)[:k]] = -1
    ell = bool((sig > 0).all())
    spread = rng.uniform(0, 1.3)
    ax = 10 ** rng.uniform(-spread, spread, dim)
    if rng.random() < .2:
        ax[:] = ax[0]
    if rng.random() < .1:
        ax[:2] = ax[0]
    scale = float(10 ** rng.uniform(-2, 3)) if rng.random() < .4 else 1.
    ax = ax * scale
    kind = {(2, 2): "ellipse", (2, 0): "hyperbola", (3, 3): "ellipsoid", (3, 1): "one_sheet", (3, -1): "two_sheets"}[dim, int(sig.sum())]
    m.note(kind=kind, semiaxes=ax, signs=sig)
    # construction
    if ell:
        if rng.random() < .5:
            C = Conic.from_semiaxes(ax if rng.random() < .5 else tuple(ax))
        else:
            C = Conic.from_axes(1 / ax ** 2 if rng.random() < .5 else list(1 / ax ** 2))
        m.ok(isinstance(C, Conic) and C.shape == (dim + 1, dim + 1), "constructed_shape")
    else:
        C = conic(N.diag(list(sig / ax ** 2) + [-1.]))
    pts = sample(rng, ax, sig, 6)
    on_surface(m, C, pts, "axis_aligned_surface")
    if ell and rng.random() < .3:
        # integer axes are as good as any
        ia = rng.integers(1, 9, dim)
        Ci = Conic.from_semiaxes(tuple(int(i) for i in ia))
        on_surface(m, Ci, sample(rng, ia.astype(float), sig, 3), "integer_semiaxes")
    if rng.random() < .2:
        # integer matrices, moved by fractions and mapped by integers
        Ci = conic(N.diag([int(i) for i in rng.integers(1, 9, dim)] + [-int(rng.integers(1, 9))]))
        v = rng.normal(size=dim) * 3
        m.close(N.asarray(Ci.translate(v).center(), float), v, 1e-9 * (1 + N.abs(v).max()), "integer_conic_translates")
        iv = rng.integers(-5, 6, dim)
        m.close(N.asarray(Ci.translate(iv).center(), float), iv, 1e-9 * 6, "integer_conic_translates_by_integers")
        A = augment_tensor(rotation(rng, dim))
        Cf = conic(N.asarray(Ci, float))
        m.close(N.asarray(Ci.transform(A), float), N.asarray(Cf.transform(A)), 1e-12 * 10, "integer_conic_transforms")
        q = N.asarray(Ci.pole(Ci.polar_plane(v)), float)
        m.close(q, v, 1e-9 * (1 + N.abs(v).max()), "integer_conic_pole")
    # history of affine maps, carried alongside in extended precision
    cen = N.zeros(dim, L)
    B = N.eye(dim, dtype=L)   # linear part carrying the original body
    hist = ""
    orth = True
    for k in range(int(rng.integers(0, 5))):
        before = N.array(C)
        old = C
        if rng.random() < .5:
            v = rng.normal(size=dim) * scale * 10 ** rng.uniform(-1, 1)
            if rng.random() < .15:
                v = N.round(v / scale) * scale
            C = C.translate(v)
            m.close(N.asarray(C.translate(-v)), before, 1e-9 * (N.abs(before).max() + N.abs(N.asarray(C)).max()), "translation_inverts")
            cen = cen + v
            pts = pts + v
            hist += "t"
        else:
            A = rotation(rng, dim)
            if rng.random() < .4:
                A = A @ N.diag(10 ** rng.uniform(-.3, .3, dim)) @ rotation(rng, dim)
                orth = False
                hist += "l"
            else:
                hist += "r"
            T = augment_tensor(A)
            m.ok(T.shape == (dim + 1, dim + 1) and N.array_equal(T[:dim, :dim], A) and (T[dim] == N.eye(dim + 1)[dim]).all() and (T[:, dim] == N.eye(dim + 1)[dim]).all(), "augmented_tensor")
            C = C.transform(T)
            Ai = N.linalg.inv(A)
            Ai = N.asarray(2 * Ai - Ai @ A @ Ai, L)
            Ti = augment_tensor(Ai.astype(float))
            m.close(N.asarray(C.transform(Ti)), before, 1e-9 * (N.abs(before).max() + N.abs(N.asarray(C)).max()), "transformation_inverts")
            A2 = augment_tensor(rotation(rng, dim))
            m.close(N.asarray(C.transform(A2)), N.asarray(old.transform(T @ A2)), 1e-11 * N.abs(N.asarray(C)).max() * 10, "transformations_compose")
            cen = Ai @ cen
            pts = pts @ Ai.T
            B = Ai @ B
        m.ok(N.array_equal(N.array(old), before), "operand_untouched")
        m.ok(isinstance(C, Conic), "result_is_conic")
    m.state("quadric", kind, hist[:3])
    Cm = N.asarray(C, L)
    far = float(N.abs(pts).max() + N.abs(cen).max()) / float(ax.min())
    on_surface(m, C, pts, "surface_moves_with_maps", 1e-10)
    m.nontrivial(kind, hist, bucket(far, [3, 10, 100]), bucket(ax.max() / ax.min(), [1.5, 5, 30]), int(N.log10(scale)))
    m.close(N.asarray(C), N.asarray(C).T, 1e-10 * N.abs(N.asarray(C)).max(), "symmetric_matrix")
    if far > 3e4:
        return
    loose = 1e-12 * far ** 2 * (ax.max() / ax.min()) ** 2 * 10 + 1e-11
    size = float(N.abs(pts).max() + N.abs(cen).max())
    c0 = N.asarray(C.center(), L)
    m.ok(c0.shape == (dim,), "centre_shape")
    m.close(c0, cen, min(loose, 1e-3) * size, "centre")
    on_surface(m, C, 2 * c0 - pts, "centre_of_symmetry", min(1e-9 + loose, 1e-4))
    m.ok(bool(C.is_elliptical()) == ell, "elliptical_class", kind)
    m.ok(bool(C.is_hyperbolic()) == (not ell), "hyperbolic_class", kind)
    m.ok(not C.is_parabolic(), "parabolic_class", kind)
    if rng.random() < .3:
        neg = conic(-N.asarray(C))
        m.ok(bool(neg.is_elliptical()) == ell and bool(neg.is_hyperbolic()) == (not ell), "class_of_negated", kind)
    # containment
    for p in pts[:2]:
        for f in (.5, .9, 1.1, 3) + tuple(1 + float(rng.choice([-1, 1]) * 10 ** rng.uniform(-11, -1)) for _ in range(3)):
            x = cen + (p - cen) * f
            v, s = q_of(C, x)
            if abs(v) > 1e-12 * s:
                m.ok(bool(C.contains(N.asarray(x, float))) == (f < 1), "containment", "factor %s" % f)
                m.ok(bool(C.contains(x.astype(float), shell_only=True)) == bool(N.isclose(float(v), 0, rtol=0, atol=1e-8)) or abs(abs(v) - 1e-8) < 1e-9 * s, "shell_containment", "factor %s" % f)
        v, s = q_of(C, p)
        if s < 1e5:
            m.ok(C.contains(N.asarray(p, float), shell_only=True), "shell_contains_surface")
    m.ok(bool(C.contains(N.asarray(cen, float))), "contains_centre")
    # a point for which the equation holds exactly
    e = 2. ** rng.integers(-6, 7, 3)
    p = N.zeros(3)
    i = int(rng.integers(3))
    p[i] = e[i] * rng.choice([-1, 1])
    E = Conic.from_semiaxes(e)
    m.ok(bool(E.contains(p)) and bool(E.contains(p, shell_only=True)), "boundary_contained", "%s %s" % (e, p))
    if ell:
        M = N.asarray(C.major_axes(), L)
        m.ok(M.shape == (dim, dim), "major_axes_shape")
        s2 = N.sort(N.linalg.svd(N.asarray(B * ax, float), compute_uv=False))
        lens = N.sqrt((M ** 2).sum(1))
        m.close(N.sort(N.asarray(lens, float)), s2, min(1e-10 + loose, 1e-3) * s2.max(), "major_axes_lengths")
        G = M @ M.T / N.outer(lens, lens)
        m.close(G - N.diag(N.diag(G)), 0, 1e-10, "major_axes_perpendicular")
        for r in M:
            on_surface(m, C, [cen + r, cen - r], "major_axes_end_on_surface", min(1e-9 + loose, 1e-3))
    # poles and polars
    Ci = N.linalg.cond(N.asarray(C, float))
    for k in range(2):
        v = N.asarray(cen + rng.normal(size=dim) * scale * 10 ** rng.uniform(-.5, 1.2), float)
        pp = C.polar_plane(v)
        m.ok(isinstance(pp, Plane) and pp.shape == (dim + 1,), "polar_plane_shape")
        if Ci < 1e8:
            sz = N.abs(v).max() + size
            m.close(C.pole(pp), v, 1e-14 * Ci * sz * 100 + 1e-10 * sz, "pole_of_polar_plane")
            # a plane is the same plane after scaling its equation
            q = float(rng.choice([-1, 1]) * 10 ** rng.uniform(*([-3, 3] if rng.random() < .7 else [-12, 12])))
            m.close(C.pole((pp * q).view(Plane)), v, 1e-14 * Ci * sz * 100 + 1e-10 * sz, "pole_of_scaled_plane", "scaled by %s" % q)
    p = pts[0]
    pp = C.polar_plane(N.asarray(p, float))
    g = gradient(C, p)
    m.close(N.asarray(pp), g, 1e-10 * (N.abs(Cm) @ N.abs(N.append(p, 1))).max(), "polar_plane_of_surface_point_is_tangent")
    # duality
    if Ci < 1e7:
        D = C.dual()
        DD = conic(D).dual()
        m.close(N.asarray(DD), N.asarray(C), 1e-14 * Ci * N.abs(N.asarray(C)).max() * 100, "dual_of_dual")
        for p in pts[:3]:
            g = gradient(C, p)
            Dl = N.asarray(D, L)
            t = g @ Dl @ g
            m.close(t, 0, 1e-13 * Ci * (N.abs(g) @ N.abs(Dl) @ N.abs(g)) + 1e-300, "dual_holds_tangent_planes")
    slices(m, rng, C, dim, cen, size, scale, pts)
    if ell:
        tangency(m, rng, C, dim, cen, size, scale, pts, ax, B, far)
        if dim == 3 or True:
            subtended(m, rng, dim)


def slices(m, rng, C, dim, cen, size, scale, pts):
    n = rng.normal(size=dim)
    if rng.random() < .3:
        n = N.eye(dim)[rng.integers(dim)] * rng.choice([-1., 1.])
    n = n / N.linalg.norm(n)
    through = N.asarray(cen + rng.normal(size=dim) * scale * .5, float)
    d = -float(n @ through)
    if rng.random() < .3:
        d, through = 0., N.zeros(dim)
        pl = make_plane(n)
    else:
        k = 1. if rng.random() < .5 else float(rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 2))
        pl = make_plane(n * k, d * k)
    m.ok(isinstance(pl, Plane) and pl.shape == (dim + 1,), "plane_shape")
    con, T, off = C.slice(pl)
    T, off = N.asarray(T, L), N.asarray(off, L)
    m.ok(con.shape == (dim, dim) and T.shape == (dim, dim + 1) and off.shape == (dim,), "slice_shapes", "%s %s %s" % (con.shape, T.shape, off.shape))
    m.close(n @ off + d, 0, 1e-12 * (abs(d) + 1e-300) * 10 + 1e-300, "slice_offset_on_plane")
    m.close(off - n * (n @ off), 0, 1e-12 * (abs(d) + 1e-300), "slice_offset_is_foot")
    E = T[:-1, :-1]
    m.close(E @ E.T, N.eye(dim - 1), 1e-12, "slice_basis_orthonormal")
    m.close(E @ n, 0, 1e-12, "slice_basis_in_plane")
    for k in range(3):
        y = rng.normal(size=dim - 1) * (scale + abs(d))
        X = N.append(N.asarray(y, L), 1) @ T
        m.close(X[-1], 1, 0, "slice_homogeneous")
        m.close(n @ X[:-1] + d, 0, 1e-12 * (abs(d) + N.abs(y).max()), "slice_points_in_plane")
        v, s = q_of(C, X[:-1])
        w, _ = q_of(con, y)
        m.close(w, v, 1e-11 * s, "slice_is_restriction")
    m.state("slice", dim, int(N.sign(float(N.linalg.det(N.asarray(con, float)[:-1, :-1])))))
    # explicit basis
    if dim == 3 and rng.random() < .5:
        a1 = N.cross(n, rng.normal(size=3))
        a1 /= N.linalg.norm(a1)
        a2 = N.cross(n, a1) * rng.choice([-1, 1]) + (a1 * rng.normal() if rng.random() < .3 else 0)
        con, T, off = C.slice(pl, axes=(a1, a2))
        T = N.asarray(T, L)
        m.close(T[:2, :3], [a1, a2], 0, "slice_keeps_given_axes")
        y = rng.normal(size=2) * scale
        X = N.append(N.asarray(y, L), 1) @ T
        v, s = q_of(C, X[:-1])
        w, _ = q_of(con, y)
        m.close(w, v, 1e-11 * s, "slice_is_restriction_given_axes")


def tangency(m, rng, C, dim, cen, size, scale, pts, ax, B, far):
    """Projection from an outside viewpoint (also the default one, the origin)."""
    kw = {}
    vp = N.zeros(dim)
    if rng.random() < .7:
        vp = N.asarray(cen + (pts[1] - cen) * rng.uniform(1.2, 6), float)
        if rng.random() < .3:
            vp = N.asarray(cen, float) + rng.normal(size=dim) * scale * 20
        kw = dict(viewpoint=vp)
    v, s = q_of(C, vp)
    c, _ = q_of(C, cen)
    ratio = -v / c
    if not ratio > .1 or ratio > 1e6 or far > 1e3:
        return
    con, T, off = C.projection(**kw)
    T = N.asarray(T, L)
    m.ok(con.is_elliptical() or dim == 2, "outline_is_closed")
    cc = N.asarray(N.asarray(con.center()), L)
    M = N.asarray(con.major_axes(), L)
    m.state("viewpoint", bool(kw), bucket(float(ratio), [1, 10, 1000]))
    worst = worst2 = 0
    for k in range(8):
        if dim == 3:
            t = k * .8 + .1
            y = cc + M[0] * N.cos(t) + M[1] * N.sin(t)
        else:
            y = cc + M[0] * (1 if k % 2 else -1)
        x = (N.append(y, 1) @ T)[:-1]
        g = gradient(C, x)
        q, s = q_of(C, x)
        worst = max(worst, abs(float(q / s)))
        t = g @ N.append(vp, 1)
        st = N.abs(g) @ N.append(N.abs(vp), 1)
        cs = (N.abs(N.append(x, 1)) @ N.abs(N.asarray(C, L))) @ N.append(N.abs(vp), 1)
        worst2 = max(worst2, abs(float(t / (st + 1e-3 * cs))))
    tol = 1e-9 * (1 + far) * (ax.max() / ax.min()) ** 2
    m.close(worst, 0, min(tol, 1e-4), "outline_on_surface")
    m.close(worst2, 0, min(tol, 1e-4), "outline_is_tangent")
    # every ray to the outline grazes: the midpoint of viewpoint and centre side is outside/inside
    x = (N.append(cc, 1) @ T)[:-1]
    q, s = q_of(C, x)
    m.ok(q < 0, "centre_of_outline_inside")


def subtended(m, rng, dim):
    r = 10 ** rng.uniform(-1, 1)
    d = r * (1 + 10 ** rng.uniform(-2, 2))
    kw = {}
    vp = N.zeros(dim)
    if rng.random() < .5:
        vp = rng.normal(size=dim) * d
        kw = dict(viewpoint=vp)
    if rng.random() < .6:
        u = rng.normal(size=dim)
        u /= N.linalg.norm(u)
        S = Conic.from_semiaxes([r] * dim).translate(u * d + vp)
        want = N.full(dim - 1, N.arcsin(r / d))
        kind = "sphere"
    else:
        axs = r * 10 ** rng.uniform(-.7, .7, dim)
        i = int(rng.integers(dim))
        d = axs[i] * (1 + 10 ** rng.uniform(-1, 1.5))
        u = N.eye(dim)[i] * rng.choice([-1, 1])
        R = N.eye(dim)
        if rng.random() < .5:
            R = rotation(rng, dim)
        S = Conic.from_semiaxes(axs).translate(u * d)
        S = S.transform(augment_tensor(R.T))
        if kw:
            S = S.translate(vp)
        # tangent from distance d to the ellipse with semiaxes (axs[i], axs[j])
        want = N.sort([N.arctan(axs[j] / N.sqrt(d ** 2 - axs[i] ** 2)) for j in range(dim) if j != i])[::-1]
        kind = "ellipsoid"
    m.state("subtended", kind, dim, bool(kw))
    got = N.atleast_1d(S.angle_subtended(**kw))
    m.ok(got.shape == (dim - 1,), "subtended_shape", str(got.shape))
    m.close(got, want, 2e-6, "subtended_angle", kind)
    t = N.atleast_1d(angle_subtended(S, tangent=True, **kw))
    m.close(N.arctan(t), want, 2e-6, "subtended_tangent", kind)

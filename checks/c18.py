"""C18: angles, rotations and coordinate conversions."""
from common import *
from attitude import Orientation, ReconstructedPlane
from attitude.geom import fit_angle, angle as geom_angle, rotate_2D as geom_rotate, vector as geom_vector, axis_aligned_transforms
from attitude.geom.util import (angle, unit_vector, augment, augment_tensor, column, dot, plane, Plane, perpendicular_vector, vector)
from attitude.geom.transform import rotate_2D
from attitude.coordinates import spherical, cartesian as sph_to_cart, centered
from attitude.coordinates import rotations
from attitude.orientation.base import rotation as z_rotation

RULE = ("vector pairs in 2 and 3 dimensions: random, parallel, opposite, nearly so (1e-16..1e-2), perpendicular, axis-aligned, integer, of sizes 1e-100..1e100; random and special angles, directions and planes; pairs of real fits; "
        "distinct by class of pair, dimension and magnitudes")
CASES = dict(quick=60000, thorough=500000)
FILES = ["geom/util.py", "geom/__init__.py", "geom/transform.py", "coordinates/__init__.py", "coordinates/rotations.py"]


def norm(v):
    v = N.asarray(v, L)
    s = N.abs(v).max()
    return s * N.sqrt(((v / s) ** 2).sum()) if s else s


def true_angle(a, b):
    """Kahan's formula, accurate for every pair."""
    a, b = N.asarray(a, L) / norm(a), N.asarray(b, L) / norm(b)
    return 2 * N.arctan2(norm(a - b), norm(a + b))


def vec(rng, dim):
    u = rng.random()
    if u < .15:
        v = N.zeros(dim)
        v[rng.integers(dim)] = rng.choice([-1., 1.])
    elif u < .25:
        v = rng.integers(-3, 4, dim).astype(float)
    elif u < .35:
        v = rng.normal(size=dim) * 10 ** rng.uniform(-8, 0, dim)
    else:
        v = rng.normal(size=dim)
    if not v.any():
        v[0] = 1
    return v


def pair(rng, dim):
    a = vec(rng, dim)
    kind = str(rng.choice(["random", "equal", "parallel", "opposite", "near_parallel", "near_opposite", "perpendicular", "far_scales"]))
    k = float(10 ** rng.uniform(-3, 3))
    if kind == "random":
        b = vec(rng, dim)
    elif kind == "equal":
        b = a.copy()
    elif kind == "parallel":
        b = a * k
    elif kind == "opposite":
        b = -a * (k if rng.random() < .7 else 1)
    elif kind in ("near_parallel", "near_opposite"):
        b = a / N.linalg.norm(a) + rng.normal(size=dim) * 10 ** rng.uniform(-17, -2)
        b = b * (1 if kind == "near_parallel" else -1) * k
    elif kind == "perpendicular":
        w = vec(rng, dim)
        b = N.cross(a, w) if dim == 3 else N.array([-a[1], a[0]])
        if not b.any():
            b = N.eye(dim)[int(N.argmin(N.abs(a)))]
    else:
        a = a * 10 ** rng.uniform(-100, 100)
        b = vec(rng, dim) * 10 ** rng.uniform(-100, 100)
    return kind, a, b


def run_case(m, rng, idx):
    which = idx % 6
    if which == 0:
        angles(m, rng)
    elif which == 1:
        rotate(m, rng)
    elif which == 2:
        convert(m, rng)
    elif which == 3:
        planes(m, rng)
    elif which == 4:
        small(m, rng)
    else:
        if rng.random() < .4:
            fits(m, rng)
        else:
            angles(m, rng)


def angles(m, rng):
    dim = int(rng.choice([2, 3, 3, 3, 4]))
    kind, a, b = pair(rng, dim) if dim < 4 else ("random", rng.normal(size=4), rng.normal(size=4))
    m.note(kind=kind, a=a, b=b)
    t = true_angle(a, b)
    fn = angle if rng.random() < .7 else geom_angle
    got = fn(a, b)
    m.ok(N.ndim(got) == 0 and N.isfinite(got), "angle_finite", "%r" % got)
    m.ok(0 <= got <= N.pi, "angle_in_range", "%r" % got)
    m.close(got, t, 3e-7 if min(t, N.pi - t) < 1e-5 else 1e-14 / N.sin(t) * 20 + 1e-13, "angle_value", kind)
    m.close(fn(b, a), got, 3e-7, "angle_symmetric")
    m.close(fn(a, b, cos=True), N.cos(t), 1e-12, "cosine")
    m.close(fn(list(a), tuple(b)), got, 3e-7, "angle_of_lists")
    k = 10 ** rng.uniform(-5, 5)
    m.close(fn(a * k, b), got, 3e-7, "angle_scale_free")
    m.close(fn(-a, b), N.pi - t, 3e-7, "angle_supplement")
    u = unit_vector(a)
    m.close(norm(u), 1, 1e-13, "unit_length")
    m.close(u, N.asarray(a, L) / norm(a), 1e-13, "unit_direction")
    m.nontrivial("angle", kind, dim, bucket(float(t), [1e-12, 1e-7, 1e-3, 1.5, 3, 3.14159]))
    m.state("pair", kind, dim)


def is_rotation(m, R, label, tol=1e-12):
    R = N.asarray(R, L)
    d = len(R)
    m.close(R @ R.T, N.eye(d), tol, label + "_orthogonal")
    det = N.linalg.det(N.asarray(R, float))
    m.close(det, 1, tol * 10, label + "_proper")


def rotate(m, rng):
    kind, a, b = pair(rng, 3)
    while kind == "far_scales":
        kind, a, b = pair(rng, 3)
    m.note(kind=kind, a=a, b=b)
    keep = a.copy(), b.copy()
    R = rotations.transform(a, b)
    m.ok(N.shape(R) == (3, 3), "rotation_shape")
    is_rotation(m, R, "rotation")
    ua, ub = N.asarray(a, L) / norm(a), N.asarray(b, L) / norm(b)
    m.close(N.asarray(R, L) @ ua, ub, 5e-7, "rotation_maps_vectors", kind)
    t = true_angle(a, b)
    # no detour: the angle of the rotation is the angle between the vectors
    c = (N.trace(N.asarray(R, L)) - 1) / 2
    m.close(N.arccos(N.clip(c, -1, 1)), t, 5e-7, "rotation_angle", kind)
    m.ok(N.array_equal(a, keep[0]) and N.array_equal(b, keep[1]), "rotation_inputs_untouched")
    Ri = rotations.transform(b, a)
    m.close(N.asarray(Ri, L) @ ub, ua, 5e-7, "rotation_back", kind)
    if 1e-3 < t < N.pi - 1e-3:
        m.close(N.asarray(Ri) @ N.asarray(R), N.eye(3), 1e-10, "rotations_invert")
    m.nontrivial("rotate", kind, bucket(float(t), [1e-12, 1e-7, 1e-3, 1.5, 3, 3.14159]))
    m.state("rotated", kind)
    # plane rotations
    th = float(rng.choice([0, N.pi / 2, N.pi, -N.pi / 2, 2 * N.pi])) if rng.random() < .3 else rng.uniform(-10, 10)
    for fn in (rotate_2D, geom_rotate):
        R2 = fn(th)
        m.ok(N.shape(R2) == (2, 2), "plane_rotation_shape")
        is_rotation(m, R2, "plane_rotation", 1e-14)
        m.close(N.asarray(R2) @ [1, 0], [N.cos(th), N.sin(th)], 1e-13, "plane_rotation_angle")
    Rz = z_rotation(th)
    is_rotation(m, Rz, "z_rotation", 1e-14)
    m.close(Rz @ [1, 0, 0], [N.cos(th), N.sin(th), 0], 1e-13, "z_rotation_angle")
    m.close(Rz @ [0, 0, 1], [0, 0, 1], 0, "z_rotation_axis")
    T = rotations.stereonet_transformation()
    m.close(T @ [1, 0, 0], [0, 0, 1], 0, "stereonet_transformation")
    m.close(T @ T.T, N.eye(3), 0, "stereonet_transformation_orthogonal")


def lonlat_vec(lon, lat):
    lon, lat = N.asarray(lon, L), N.asarray(lat, L)
    return N.array([N.cos(lat) * N.cos(lon), N.cos(lat) * N.sin(lon), N.sin(lat)], L)


def convert(m, rng):
    n = int(rng.choice([1, 2, 3, 4, 20]))
    P = N.array([vec(rng, 3) for i in range(n)])
    P = P * (10 ** rng.uniform(-50, 50) if rng.random() < .2 else 10 ** rng.uniform(-3, 4))
    m.note(points=P)
    keep = P.copy()
    S = spherical(P.T)
    m.ok(S.shape == (n, 3), "spherical_shape", str(S.shape))
    r = N.array([norm(p) for p in P])
    m.close(S[:, 0] / r, 1, 1e-12, "radius")
    m.ok((S[:, 1] >= 0).all() and (S[:, 1] <= N.pi).all() and (N.abs(S[:, 2]) <= N.pi).all(), "spherical_ranges")
    lat = N.arctan2(N.asarray(P[:, 2], L) / r, N.hypot(N.asarray(P[:, 0], L) / r, N.asarray(P[:, 1], L) / r))
    m.close(S[:, 1], N.pi / 2 - lat, 3e-7, "colatitude")
    h = N.hypot(P[:, 0], P[:, 1]) > 0
    az = N.arctan2(N.asarray(P[:, 1], L), N.asarray(P[:, 0], L))
    m.close(N.abs(N.exp(1j * S[h, 2]) - N.exp(1j * az[h].astype(float))), 0, 1e-12, "azimuth")
    for i in range(n):
        q = N.asarray(sph_to_cart(S[i]), L)
        m.ok(q.shape == (3,), "cartesian_shape")
        m.close(q / r[i], P[i] / r[i], 3e-7, "cartesian_inverts_spherical")
    q = N.asarray(sph_to_cart(S.T), L)
    m.close(q.T / r[:, None], P / r[:, None], 3e-7, "cartesian_of_many")
    m.ok(N.array_equal(P, keep), "conversion_inputs_untouched")
    # forward from angles
    th, ph, rr = rng.uniform(0, N.pi), rng.uniform(-N.pi, N.pi), 10 ** rng.uniform(-3, 3)
    if rng.random() < .2:
        th = float(rng.choice([0, N.pi / 2, N.pi]))
    x = N.array(sph_to_cart((rr, th, ph)), float)
    m.close(x / rr, [N.sin(th) * N.cos(ph), N.sin(th) * N.sin(ph), N.cos(th)], 1e-13, "cartesian_definition")
    b = spherical(x[:, None])[0]
    m.close(b[:2], [rr, th], N.array([1e-12 * rr, 3e-7]), "spherical_inverts_cartesian")
    # longitude and latitude
    if rng.random() < .3:
        lon = N.array(rng.choice([-N.pi, -N.pi / 2, 0, N.pi / 2, N.pi], n))
        lat = N.array(rng.choice([-N.pi / 2, 0, N.pi / 2, N.pi / 4], n))
    elif rng.random() < .3:
        # just off the principal directions
        lon = rng.choice([-N.pi / 2, 0, N.pi / 2], n) + rng.choice([-1, 1], n) * 10 ** rng.uniform(-12, -3, n)
        lat = rng.choice([0, 0, N.pi / 4], n) + rng.choice([-1, 1], n) * 10 ** rng.uniform(-12, -3, n)
    else:
        lon, lat = rng.uniform(-N.pi, N.pi, n), rng.uniform(-N.pi / 2, N.pi / 2, n)
    v = lonlat_vec(lon, lat)
    c = rotations.cartesian(lon, lat)
    m.close(c, v, 1e-13, "lonlat_to_cartesian")
    f = N.array(rotations.from_stereonet(lon, lat))
    t = N.array(rotations.to_stereonet(lon, lat))
    m.ok(f.shape == (2, n) and t.shape == (2, n), "stereonet_conversion_shape", "%s" % (f.shape,))
    # (an arc sine or cosine next to a pole of the result resolves half the digits)
    tol = lambda sine: N.where(N.abs(sine) > .99, 3e-7, 1e-12)
    m.close(lonlat_vec(*f), [v[1], v[2], -v[0]], tol(v[0]), "from_stereonet_frame")
    m.close(lonlat_vec(*t), [-v[2], v[0], v[1]], tol(v[1]), "to_stereonet_frame")
    m.close(lonlat_vec(*rotations.from_stereonet(*t)), v, 5e-7, "from_inverts_to_stereonet")
    m.close(lonlat_vec(*rotations.to_stereonet(*f)), v, 5e-7, "to_inverts_from_stereonet")
    m.ok((N.abs(f[1]) <= N.pi / 2 + 1e-12).all() and (N.abs(t[1]) <= N.pi / 2 + 1e-12).all(), "latitude_range")
    # centring
    a = rng.normal(size=(int(rng.integers(1, 50)), 3)) * 10 ** rng.uniform(-3, 3) + rng.normal(size=3) * 10 ** rng.uniform(-2, 5)
    if rng.random() < .2:
        a = N.round(a).astype(int)
    keep = a.copy()
    got = centered(a if rng.random() < .7 else a.tolist())
    mean = N.asarray(a, L).mean(axis=0)
    m.close(got, a - mean, 1e-14 * (N.abs(a).max() + 1) * 50, "centred")
    m.ok(N.array_equal(a, keep), "centring_input_untouched")
    m.nontrivial("convert", n, bucket(float(N.abs(lat).max()), [1e-9, 1, 1.57]), bucket(float(r.max()), [1e-20, 1, 1e20]))


def planes(m, rng):
    dim = int(rng.choice([2, 3, 3]))
    n = vec(rng, dim) * 10 ** rng.uniform(-5, 5)
    d = 0 if rng.random() < .2 else float(rng.normal() * 10 ** rng.uniform(-5, 5))
    m.note(normal=n, offset=d)
    p = plane(n, d) if rng.random() < .8 or d else plane(n)
    m.ok(isinstance(p, Plane) and p.shape == (dim + 1,), "plane_shape")
    h = N.asarray(p.hessian_normal(), L)
    m.close(norm(h[:-1]), 1, 1e-13, "hessian_unit_normal")
    m.close(h * norm(n), N.append(N.asarray(n, L), d), 1e-13 * N.append(N.full(dim, N.abs(n).max()), abs(d)), "hessian_proportional")
    u = N.asarray(p.normal(), L)
    m.close(u, N.asarray(n, L) / norm(n), 1e-13, "plane_normal")
    o = N.asarray(p.offset(), L)
    m.ok(o.shape == (dim,), "plane_offset_shape")
    m.close(N.asarray(n, L) @ o + d, 0, 1e-12 * abs(d) + 1e-300, "offset_on_plane")
    m.close(o - u * (u @ o), 0, 1e-12 * norm(o) + 1e-300, "offset_along_normal")
    v = vec(rng, dim) * 10 ** rng.uniform(-6, 6)
    if rng.random() < .3:
        v = N.eye(3)[rng.integers(3)] + rng.normal(size=3) * 10 ** rng.uniform(-17, -3)
        v = v[:dim]
        if not v.any():
            v[0] = 1
    w = N.asarray(perpendicular_vector(v), L)
    m.ok(w.shape == v.shape and N.isfinite(w.astype(float)).all() and norm(w) > 0, "perpendicular_nonzero", "%s for %s" % (w, v))
    m.close(w @ v / norm(w) / norm(v), 0, 1e-12, "perpendicular")
    m.nontrivial("plane", dim, bool(d), bucket(abs(float(d)), [1e-3, 1, 1e3]), bucket(float(norm(v)), [1e-3, 1, 1e3]))
    m.state("plane", dim, bool(d))


def small(m, rng):
    dim = int(rng.integers(1, 5))
    v = rng.normal(size=dim)
    m.note(v=v)
    a = augment(v)
    m.ok(N.array_equal(a, list(v) + [1]), "augmented")
    m.ok(N.array_equal(vector(*v), v) and N.array_equal(geom_vector(*v), v), "vector")
    c = column(v)
    m.ok(c.shape == (dim, 1) and N.array_equal(c[:, 0], v), "column")
    M = rng.normal(size=(dim, dim))
    big = dim + int(rng.integers(0, 3))
    T = augment_tensor(M, big)
    want = N.eye(big)
    want[:dim, :dim] = M
    m.ok(N.array_equal(T, want), "augmented_tensor_sized")
    w1 = N.eye(dim + 1)
    w1[:dim, :dim] = M
    m.ok(N.array_equal(augment_tensor(M), w1), "augmented_tensor")
    A, B = rng.normal(size=(dim, 3)), rng.normal(size=(3, 2))
    m.close(dot(M, A, B), M @ A @ B, 1e-12, "dot_chain")
    m.close(dot(M), M, 0, "dot_single")
    xy, xz, yz = axis_aligned_transforms()
    p = rng.normal(size=3)
    m.ok(N.array_equal(xy @ p, p[:2]) and N.array_equal(xz @ p, p[[0, 2]]) and N.array_equal(yz @ p, p[1:]), "axis_aligned_transforms")
    m.nontrivial("small", dim, big)


def fits(m, rng):
    def one():
        if rng.random() < .3:
            s, d = gen.attitude(rng)
            return ReconstructedPlane(s, min(d, 89.9), rng.uniform(0, 180), 5, 1), "angles"
        c = gen.cloud(rng, lo=4, hi=200)
        return lived(rng, m, Orientation(c.arr)), "cloud"
    (a, ka), (b, kb) = one(), one()
    if rng.random() < .2:
        b, kb = a, "same"
    t = true_angle(a.normal, b.normal)
    m.note(a=N.asarray(a.normal), b=N.asarray(b.normal))
    got = fit_angle(a, b)
    m.ok(N.isfinite(got) and 0 <= got <= 180, "fit_angle_range", "%r" % got)
    m.close(got, N.degrees(t), N.degrees(3e-7), "fit_angle_degrees")
    m.close(fit_angle(a, b, degrees=True), got, 0, "fit_angle_degrees_explicit")
    m.close(fit_angle(a, b, degrees=False), t, 3e-7, "fit_angle_radians")
    m.close(fit_angle(b, a), got, 3e-5, "fit_angle_symmetric")
    m.nontrivial("fits", ka, kb, bucket(float(t), [1e-9, .1, 1, 1.6]))
    m.state("fits", ka, kb)

"""C01: a fit is the total-least-squares plane of its points, with its full decomposition."""
from common import *
from attitude import Orientation

RULE = ("random and hostile point clouds (9 layouts, n 3..25000, any strike/dip incl. exact 0/90/cardinal, noise 0..30%, "
        "offsets to 1e4 spans, float64/float32/int/big-endian, 7 memory layouts), plus undersized inputs and 2-D lines; "
        "non-trivial = a fit was returned and certified against long-double arithmetic; distinct by the class signature")
CASES = dict(quick=20000, thorough=120000)
FILES = ["orientation/pca.py"]


def run_case(m, rng, idx):
    u = rng.random()
    if u < .04:
        k = int(rng.integers(0, 3))
        a = rng.normal(size=(k, 3)) * 10 ** rng.uniform(-3, 5)
        m.note(case="undersized", points=k)
        m.raises(ValueError, lambda: Orientation(a), "too_few_points")
        return
    if u < .10:
        return line2d(m, rng)
    c = gen.cloud(rng, extreme=.12, n=gen.big(idx, 307))
    m.note(**gen.describe(c))
    check_fit(m, c, rng)
    m.nontrivial(*signature(c))
    m.state("layout", c.kind); m.state("dtype", c.dtype); m.state("memory", c.memory)
    m.state("n_decade", bucket(c.n, [4, 10, 100, 1000, 10000]))


def check_fit(m, c, rng):
    fit = lived(rng, m, Orientation(c.arr))
    delta, e, cc, s, V = precision(c)
    n = c.n
    certify(m, fit, c.arr, delta, e, cc, s, V, 3)
    nv = N.asarray(fit.normal, L)
    m.close((nv ** 2).sum(), 1, 1e-12, "normal_unit")
    m.ok(nv[2] >= 0, "normal_upward", "normal %s points down" % (fit.normal,))
    m.close(ref.line_angle(nv, fit.axes[2]), 0, 1e-12, "normal_is_third_axis")
    good, _ = gaps(s, e)
    if good:
        m.close(ref.line_angle(nv, V[2]), 0, 20 * e / float(s[1] - s[2]) + 1e-14, "normal_vs_reference")
    # no plane through the centroid fits better (total least squares)
    got = ((cc @ nv) ** 2).sum()
    best = s[2] ** 2
    m.ok(got <= best + 4 * e * s[2] + 4 * e * e, "least_squares_optimal",
         "sum of squared distances %s exceeds the optimum %s" % (float(got), float(best)))
    if c.noise == 0 and c.dtype == "float64" and good:
        # coordinates are stored rounded: n points off the plane by eps*|x|
        tol = (e + n ** .5 * EPS * float(N.abs(N.asarray(c.arr, float)).max()) * 4) / float(s[1]) * 20 + 1e-13
        m.close(ref.line_angle(nv, c.nv), 0, tol, "exact_plane_recovered")


def certify(m, fit, arr, delta, e, cc, s, V, dim):
    n = len(arr)
    A = N.asarray(fit.axes, L)
    m.ok(A.shape == (dim, dim), "axes_shape", "axes have shape %s" % (A.shape,))
    m.close(A @ A.T, N.eye(dim), 1e-12, "axes_orthonormal")
    sv = N.asarray(fit.singular_values, L)
    m.ok(sv.shape == (dim,), "sv_shape", str(sv.shape))
    m.ok((N.diff(sv) <= 0).all() and sv[-1] >= 0, "sv_descending", str(fit.singular_values))
    m.close(sv, s, e, "singular_values")
    P = cc @ A.T
    m.close(N.sqrt((P ** 2).sum(axis=0)), sv, 2 * e, "spread_along_axes")
    G = P.T @ P
    off = G - N.diag(N.diag(G))
    m.close(off, 0 * off, 2 * e * (sv[:, None] + sv[None, :] + e) + 1e-300, "axes_uncorrelated")
    mean = N.asarray(arr).astype(L).mean(axis=0)
    m.close(fit.center, mean, delta, "center_is_mean")
    m.close(fit.mean, mean, delta, "center_is_mean")
    m.close(fit.centered_array, cc, 2 * delta, "centered_array")
    m.close(fit.array, N.asarray(arr).astype(L), 0, "array_kept")
    m.ok(fit.n == n, "n", "%s != %s" % (fit.n, n))
    ev = sv ** 2 / (n - 1)
    m.close(fit.eigenvalues, ev, 1e-13 * ev, "eigenvalues")
    if dim == 3:
        m.close(fit.explained_variance, ev[:2].sum() / ev.sum(), 1e-12, "explained_variance")
    m.close(fit.rotated(), P, 4 * delta + 1e-13 * float(s[0]), "despun_coordinates")
    inplane = P.copy(); inplane[:, -1] = 0
    m.close(fit.residuals(), cc - inplane @ A, 8 * delta + 1e-13 * float(s[0]), "residuals")
    U = N.asarray(fit.U, L)
    m.ok(U.shape == (n, dim), "U_shape", str(U.shape))
    m.close((U * sv) @ A, cc, 4 * delta + 1e-12 * float(s[0]), "decomposition_reconstructs")
    m.close(N.diag(N.asarray(fit.sigma)), sv, 0, "sigma")


def line2d(m, rng):
    """The same machinery fits lines to 2-D sections."""
    n = gen.npoints(rng, 3, 2000)
    th = rng.uniform(0, N.pi) if rng.random() < .7 else float(rng.choice([0, N.pi / 2, N.pi / 4]))
    sc = 10 ** rng.uniform(-2, 4)
    t = rng.normal(size=n)
    d = N.array([N.cos(th), N.sin(th)])
    p = t[:, None] * d * sc + rng.normal(size=(n, 2)) * sc * 10 ** rng.uniform(-6, -1) + rng.normal(size=2) * sc * 10
    c = gen.Cloud(); c.arr = p; c.dtype = "float64"
    m.note(case="line", n=n, theta=th, scale=sc)
    fit = Orientation(p)
    delta, e, cc, s, V = precision(c)
    certify(m, fit, p, delta, e, cc, s, V, 2)
    m.nontrivial("line", bucket(n, [4, 10, 100]), int(th * 4), int(N.log10(sc)))
    m.state("layout", "line2d")

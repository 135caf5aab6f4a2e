"""C05: reported angular errors are consistent, ordered, bounded and monotone."""
from common import *
from attitude import Orientation
from attitude.error import axes as E
from attitude.error.axes import angular_errors

RULE = ("fits of random clouds with 0..100% noise; families of confidence levels, noise amplitudes and sample sizes; synthetic axis triples over 12 decades; "
        "non-trivial = angles checked for bounds, order, agreement with the error axes and monotonicity; distinct by cloud class")
CASES = dict(quick=30000, thorough=150000)
FILES = ["error/axes.py", "orientation/pca.py"]


def run_case(m, rng, idx):
    if idx % 5 == 0:
        return synthetic(m, rng)
    c = gen.cloud(rng, hi=3000, max_noise=1., extreme=.1, n=gen.big(idx, 499))
    m.note(**gen.describe(c))
    fit = lived(rng, m, Orientation(c.arr))
    n = c.n
    mn, mx = fit.angular_errors()
    h = N.asarray(fit.hyperbolic_axes, L)
    m.ok(N.isfinite(mn) and N.isfinite(mx), "finite", "%r %r" % (mn, mx))
    m.ok(0 <= mn <= 90 and 0 <= mx <= 90, "range", "%r %r" % (mn, mx))
    want = N.degrees(N.arctan2(N.sqrt(h[2]), N.sqrt(h[:2])))
    m.close([mn, mx], want, 1e-11 * want, "agrees_with_error_axes")
    m.close(fit.angular_errors(degrees=False), N.radians(want), 1e-11 * N.radians(want), "radians")
    m.close(fit.angular_errors(degrees=True), want, 1e-11 * want, "degrees")
    ev = N.asarray(fit.singular_values, L) ** 2 / (n - 1)
    z = ref.fisher2(n, .95)
    # the errors are subtracted from the in-plane spread; resolved = some spread is left
    err = z * N.sqrt(4 * ev * ev[2] / (n - 2))
    resolved = bool((err[:2] < ev[:2]).all())
    m.state("resolved", resolved, "n", bucket(n, [4, 6, 11, 101]))
    if resolved:
        # smaller spread, larger error, provided the correction keeps the order of the axes
        if h[0] >= h[1]:
            m.ok(mn <= mx + 1e-12, "min_before_max", "%r %r" % (mn, mx))
        m.ok(n < 4 or mn <= mx * (1 + 1e-9) + 1e-9 or err[0] > .25 * ev[0], "min_before_max_well_posed", "%r %r" % (mn, mx))
    # exact data have no error
    s = N.asarray(fit.singular_values, float)
    if s[2] < 1e-13 * s[1]:
        m.close([mn, mx], [0, 0], 1e-4, "exact_plane_no_error")
    # monotone in the confidence level, as long as the axes stay resolved
    p = N.sort(rng.uniform(.3, .995, 2))
    for f, r in ((E.noise_axes, lambda q: ref.fisher2(n, q) * N.sqrt(4 * ev * ev[2] / (n - 2))),
                 (E.sampling_axes, lambda q: ref.fisher2(n, q) * N.sqrt(L(2) / (n - 1)) * ev)):
        if (r(p[1])[:2] < ev[:2]).all():
            a = angular_errors(f(fit, confidence_level=float(p[0])))
            b = angular_errors(f(fit, confidence_level=float(p[1])))
            m.ok(a[0] <= b[0] * (1 + 1e-12) + 1e-13 and a[1] <= b[1] * (1 + 1e-12) + 1e-13, "monotone_in_confidence",
                 "%s at %s, %s at %s" % (a, p[0], b, p[1]))
    # monotone in the noise: the same residual pattern, amplified
    if n >= 6 and c.dtype == "float64" and gaps(s, 1e-14 * s[0])[0] and s[2] > 1e-9 * s[0]:
        k = float(rng.uniform(1.05, 3))
        P = fit.rotated()
        Q = P.copy(); Q[:, 2] *= k
        if s[2] * k < .5 * s[1]:
            g = Orientation(Q)
            e2 = N.asarray(g.singular_values, L) ** 2 / (n - 1)
            err2 = z * N.sqrt(4 * e2 * e2[2] / (n - 2))
            if (err2[:2] < .9 * e2[:2]).all():
                a2 = g.angular_errors()
                m.ok(a2[0] >= mn * (1 - 1e-6) - 1e-9 and a2[1] >= mx * (1 - 1e-6) - 1e-9, "monotone_in_noise",
                     "noise x%s: %s -> %s" % (k, (mn, mx), a2))
    m.nontrivial(*signature(c))


def synthetic(m, rng):
    h = 10 ** rng.uniform(-6, 6, 3)
    u = rng.random()
    if u < .2:
        h[2] = 0
    elif u < .3:
        h[1] = 0            # nothing left of an axis: it is unconstrained
        if u < .25:
            h[0] = 0
    m.note(case="synthetic", hyp=h)
    a = angular_errors(h)
    m.close(a, N.arctan2(N.sqrt(L(h[2])), N.sqrt(h[:2].astype(L))), 1e-13, "formula")
    m.ok(len(a) == 2 and all(0 <= x <= N.pi / 2 for x in a), "range_synthetic", str(a))
    k = 10 ** rng.uniform(-3, 3)
    m.close(angular_errors(h * k), a, 1e-12, "scale_free")
    if h[0] >= h[1]:
        m.ok(a[0] <= a[1], "longer_axis_smaller_error")
    m.nontrivial("synthetic", *N.floor(N.log10(h + 1e-9)).astype(int).tolist())

"""C04: error-axis lengths are the published statistic of the data, for every option."""
from common import *
import scipy.special as sp
from attitude import Orientation
from attitude.error import axes as E
from attitude.error import to_normal_errors, from_normal_errors

RULE = ("fits of random clouds (n 3..25000 and some up to 100001) x confidence levels (0.05..0.999999, incl. many levels and sample sizes in one process) x method "
        "(noise, sampling, via the dispatcher, Francq, Babamoradi, eigenvalue) x option (variance on all axes or not, chi-square, dof); "
        "non-trivial = lengths compared with a closed-form long-double evaluation; distinct by (method, option, n class, level, noise class)")
CASES = dict(quick=7200, thorough=200000)
FILES = ["error/axes.py"]


def axes_tolerance(s, n, e, p=.95):
    """Propagated accuracy e of the singular values into the error axes."""
    s = N.asarray(s, float)
    z = float(ref.fisher2(n, p)) if n > 2 else 0
    dev = (2 * s * e + e * e) / (n - 1)
    derr = z * 2 / N.sqrt(max(n - 2, 1)) * (s * e + s[-1] * e + e * e) / (n - 1)
    derr = N.maximum(derr, z * N.sqrt(2. / (n - 1)) * dev)
    return 4 * (dev + derr)


def angle_tolerance(s, n, e):
    s = N.asarray(s, float)
    z = float(ref.fisher2(n, .95))
    f = 1 + z * 2 / N.sqrt(max(n - 2, 1))
    return 400 * f * e / s[1] + 1e-12


LEVELS = [.05, .5, .68, .8, .9, .95, .99, .999, .9999, .99999, .999999]


def run_case(m, rng, idx):
    c = gen.cloud(rng, dtypes=False, hi=25000, extreme=.1) if rng.random() > .006 else gen.cloud(rng, dtypes=False, n=int(rng.choice([32768, 46341, 65536, 70000, 100001])))
    m.note(**gen.describe(c))
    fit = lived(rng, m, Orientation(c.arr))
    n = c.n
    ev = N.asarray(fit.singular_values, L) ** 2 / (n - 1)
    scale = ev[0]

    def same(got, want, label):
        want = N.asarray(want, L)
        # the quantile itself loses digits as 1-p does
        m.close(got, want, 1e-9 * N.abs(want) + 1e-11 * ev + 4e-14 / (1 - p) * (N.abs(want) + ev) + 1e-300, label, "n=%d level=%s" % (n, p))

    levels = [.95] + [float(x) for x in rng.choice(LEVELS, 2, replace=False)] + [float(rng.uniform(.3, .9999))]
    for p in levels:
        d = p != .95
        kw = dict(confidence_level=p) if d or rng.random() < .5 else {}
        same(E.noise_axes(fit, **kw), ref.noise_axes(ev, n, p), "noise")
        same(E.sampling_axes(fit, **kw), ref.sampling_axes(ev, n, p), "sampling")
        same(E.statistical_axes(fit, **kw), ref.noise_axes(ev, n, p), "default_is_noise")
        same(E.statistical_axes(fit, method="sampling", **kw), ref.sampling_axes(ev, n, p), "method_sampling")
        same(E.statistical_axes(fit, method="noise", **kw), ref.noise_axes(ev, n, p), "method_noise")
        same(E.hyperbolic_axes(fit, **kw), ref.noise_axes(ev, n, p), "dispatch_default")
        same(E.hyperbolic_axes(fit, type="noise", **kw), ref.noise_axes(ev, n, p), "dispatch_noise")
        same(E.hyperbolic_axes(fit, type="sampling", **kw), ref.sampling_axes(ev, n, p), "dispatch_sampling")
        z = ref.fisher2(n, p)
        m.close(E.fisher_statistic(n, p), z, (1e-9 + 4e-14 / (1 - p)) * z, "F_quantile")
        dof = int(rng.integers(1, min(4, n - 1) + 1)) if n > 3 else 2
        if n > dof:
            q = E.fisher_statistic(n, p, dof=dof)
            # F cdf through the regularised incomplete beta function
            x = dof * q / (dof * q + n - dof)
            m.close(sp.betainc(dof / 2., (n - dof) / 2., x), p, 1e-7, "F_quantile_dof", "n=%d dof=%d" % (n, dof))
        same(E.noise_axes(fit, variance_on_all_axes=False, **kw), ref.noise_axes(ev, n, p, False), "noise_variance_of_mean")
        same(E.sampling_axes(fit, variance_on_all_axes=False, **kw), ref.sampling_axes(ev, n, p, False), "sampling_variance_of_mean")
        # chi-square variant: quantile with two degrees of freedom is -2 log(1-p)
        zc = -2 * N.log1p(-L(p))
        same(E.noise_axes(fit, chisq=True, **kw), ref._scale(ev, zc * N.sqrt(4 * ev * ev[2] / (n - 2)), n, True), "chisq")
        same(E.sampling_axes(fit, chisq=True, **kw), ref._scale(ev, zc * N.sqrt(L(2) / (n - 1)) * ev, n, True), "chisq_sampling")
        na = E.apply_error_scaling(N.array(ev, float), N.array([.1, .2, .3]) * float(ev[2]), n=n, variance_on_all_axes=False)
        same(na, ref._scale(ev, N.array([.1, .2, .3], L) * ev[2], n, False), "error_axis_of_the_mean")
        nb = E.apply_error_scaling(N.array(ev, float), N.array([.1, .2, .3]) * float(ev[2]), n=n)
        same(nb, ref._scale(ev, N.array([.1, .2, .3], L) * ev[2], n, True), "scaling")
        m.nontrivial(bucket(n, [4, 5, 6, 8, 11, 30, 100, 1000, 10000]), round(p, 2), bucket(c.noise, [1e-12, 1e-6, 1e-3, .1]))
    p = .95
    same(fit.hyperbolic_axes, ref.noise_axes(ev, n), "fit_default")
    same(E.sampling_covariance(fit), 2 * ev ** 2 / (n - 1), "sampling_covariance")
    same(E.noise_covariance(fit), 4 * ev * ev[2] / (n - 2), "noise_covariance")
    same(E.eigenvalue_axes(fit), ev, "eigenvalue")
    same(E.variance_axes(fit), ev, "eigenvalue")
    v = float(10 ** rng.uniform(-3, 3))
    m.close(E.mean_estimator(v, n), v / (n - 1), 1e-12 * v, "mean_variance")
    for p in levels[:2]:
        fac = 2 * ref.fisher2(n, p) / (n - 2)
        h = ev * N.sqrt(fac)
        same(E.francq_axes(fit, confidence_level=p), ref._scale(ev, h, n, True), "francq")
        same(E.babamoradi_axes(fit, confidence_level=p), ev * fac * (L(n) ** 2 - 1) / n, "babamoradi")
    p = .95
    # the covariance used for drawing
    cov = N.asarray(fit.covariance_matrix, L)
    sv = N.asarray(fit.singular_values, L)
    P = N.asarray(fit.rotated(), L)
    want = N.diag(4 * sv * ((P - P.mean(axis=0)) ** 2).mean(axis=0))
    m.close(cov, want, 1e-9 * N.abs(want) + 1e-12 * float(want[0, 0]), "plot_covariance")
    if rng.random() < .5:
        m.close(fit._covariance_matrix("sampling") if hasattr(fit, "_covariance_matrix") else N.diag(ev), N.diag(ev), 1e-9 * float(scale), "sampling_matrix")
    a = N.sort(10 ** rng.uniform(-3, 3, 3))[::-1]
    m.close(from_normal_errors(to_normal_errors(a)), a, 1e-12 * a, "normal_plane_duality")
    b = to_normal_errors(a)
    m.close(b * a, N.ones(3) * a[2] ** 2, 1e-12 * a[2] ** 2, "normal_errors_reciprocal")
    m.close(E.axis_angular_error(a, a[0]), N.arctan2(a[2], a[0]), 1e-14, "axis_angular_error")
    m.close(fit.angular_error(float(sv[0])), N.arctan2(L(fit.hyperbolic_axes[-1]), sv[0]), 1e-12, "angular_error_of_length")
    m.state("n", bucket(n, [4, 5, 6, 8, 11, 30, 100, 1000, 10000]))
    m.state("noise", bucket(c.noise, [1e-12, 1e-6, 1e-3, .1]))

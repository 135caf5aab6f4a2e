"""C03: the result of a fit does not depend on the frame or the bookkeeping of the data."""
from common import *
from attitude import Orientation
from attitude.error.axes import noise_axes, sampling_axes
import c04

RULE = ("pairs of fits of the same cloud before and after a transformation (translation, uniform scaling, permutation, vertical-axis rotation, "
        "general rotation, mirror image, replication of the points, memory layout/dtype, uniform weights, per-axis weights vs pre-scaled data); "
        "non-trivial = both fits well determined and all invariants compared; distinct by cloud class and transformation")
CASES = dict(quick=12000, thorough=80000)
FILES = ["orientation/pca.py", "coordinates/__init__.py"]
KINDS = ["translate", "scale", "permute", "rotz", "rotate", "mirror", "replicate", "layout", "uniform_weights", "axis_weights"]


def summary_of(fit):
    return dict(normal=N.asarray(fit.normal, L), axes=N.asarray(fit.axes, L), s=N.asarray(fit.singular_values, L),
                ae=fit.angular_errors(), sdr=fit.strike_dip_rake(), hyp=fit.hyperbolic_axes, samp=sampling_axes(fit))


def unsigned(m, got, want, tol, label, message=""):
    m.close(ref.line_angle(got, want), 0, tol, label, message)


def compare(m, c, A, B, T, k, e, s, label, n2=None, replicas=1):
    """B was fitted to k*T(A's data)."""
    n = c.n
    gap_n = float(s[1] - s[2])
    good, axes_ok = gaps(s, e)
    tn = 40 * e / gap_n + 1e-13
    unsigned(m, B["normal"], A["normal"] @ T.T, tn, label + ":normal")
    f = N.sqrt(L(replicas))
    m.close(B["s"] / k / f, A["s"], 4 * e, label + ":singular_values")
    if axes_ok:
        ta = 40 * e / min(gap_n, float(s[0] - s[1])) + 1e-13
        for i in range(3):
            unsigned(m, B["axes"][i], A["axes"][i] @ T.T, ta, label + ":axes")
    if replicas == 1:
        for key in ("hyp", "samp"):
            t = c04.axes_tolerance(s, n, e) + 1e-12 * N.asarray(A[key])
            m.close(N.asarray(B[key]) / k ** 2, A[key], t, label + ":error_axes")
        ev = N.asarray(A["s"], float) ** 2 / (n - 1)
        err = float(ref.fisher2(n, .95)) * N.sqrt(4 * ev * ev[2] / (n - 2))
        if (err[:2] < .8 * ev[:2]).all():
            t = N.degrees(c04.angle_tolerance(s, n, e))
            m.close(B["ae"], A["ae"], t, label + ":angular_errors")
    elif n >= 8:
        # more of the same data never means more uncertainty
        ev = N.asarray(A["s"], float) ** 2 / (n - 1)
        err = float(ref.fisher2(n, .95)) * N.sqrt(4 * ev * ev[2] / (n - 2))
        if (err[:2] < .8 * ev[:2]).all():
            t = N.degrees(c04.angle_tolerance(s, n, e))
            m.ok(B["ae"][0] <= A["ae"][0] * (1 + 1e-9) + t and B["ae"][1] <= A["ae"][1] * (1 + 1e-9) + t,
                 label + ":more_data_tightens", "%s -> %s" % (A["ae"], B["ae"]))


def run_case(m, rng, idx):
    kind = KINDS[idx % len(KINDS)]
    c = gen.cloud(rng, hi=3000, dtypes=False, max_noise=.15, extreme=.1, n=gen.big(idx, 307))
    c.arr = N.array(c.arr)
    arr = c.arr
    m.note(transformation=kind, **gen.describe(c))
    delta, e, cc, s, V = precision(c)
    good, axes_ok = gaps(s, e)
    if not good:
        m.state("skipped", "ill-posed")
        return
    fa = lived(rng, m, Orientation(arr))
    A = summary_of(fa)
    I = N.eye(3)
    T, k, rep = I, 1., 1
    weights = None
    if kind == "translate":
        d = rng.normal(size=3) * c.scale * 10 ** rng.uniform(-2, 3)
        out = arr + d
    elif kind == "scale":
        k = float(rng.choice([2., .5, 1000., 1e-3, 3.2808, 1e5])) if rng.random() < .5 else 10 ** rng.uniform(-4, 4) if rng.random() < .5 else 10 ** rng.uniform(-14, 14)
        out = arr * k
    elif kind == "permute":
        out = arr[rng.permutation(c.n)]
    elif kind == "rotz":
        a = rng.uniform(0, 2 * N.pi) if rng.random() < .6 else float(rng.choice([N.pi / 2, N.pi, -N.pi / 2, N.pi / 4]))
        T = gen.rotz(a)
        out = arr @ T.T
    elif kind == "rotate":
        T = gen.rotation(rng)
        out = arr @ T.T
    elif kind == "mirror":
        d = N.ones(3); d[int(rng.integers(3))] = -1
        T = N.diag(d)
        out = arr @ T.T
    elif kind == "replicate":
        rep = int(rng.integers(2, 5))
        out = N.vstack([arr] * rep)
    elif kind == "layout":
        _, out = gen.present(rng, arr, str(rng.choice(gen.MEMORY)))
    elif kind == "uniform_weights":
        out = arr
        weights = N.ones(3) * 10 ** rng.uniform(-2, 2)
    else:
        return axis_weights(m, rng, c)
    c2 = gen.Cloud(); c2.arr = out; c2.dtype = "float64"
    _, e2, _, s2, _ = precision(c2)
    e_tot = e + e2 / k + EPS * 30 * float(N.abs(arr).max()) * c.n ** .5 + EPS * 30 * float(N.abs(out).max()) / k * c.n ** .5
    if not gaps(s, e_tot)[0]:
        m.state("skipped", "ill-posed-pair")
        return
    fb = lived(rng, m, Orientation(out) if weights is None else Orientation(out, weights=weights))
    B = summary_of(fb)
    compare(m, c, A, B, T, k, e_tot, s, kind, replicas=rep)
    tn = N.degrees(40 * e_tot / float(s[1] - s[2]))
    h = float(N.hypot(*fa.normal[:2]))
    if kind in ("translate", "scale", "permute", "replicate", "layout", "uniform_weights", "rotz"):
        m.close(B["sdr"][1], A["sdr"][1], tn + 4e-6, kind + ":dip")
        if h > 1e-5:
            turn = N.degrees(-N.arctan2(T[1, 0], T[0, 0]))
            p = 360 if A["sdr"][1] < 90 - 10 * tn - 1e-5 else 180
            m.close(ref.mod_diff(B["sdr"][0], A["sdr"][0] + turn, p), 0, 1e-6 + 2 * tn / h, kind + ":strike")
            if axes_ok and gaps(s, e_tot)[1]:
                ta = N.degrees(80 * e_tot / min(float(s[1] - s[2]), float(s[0] - s[1])))
                ra, rb = A["sdr"][2], B["sdr"][2]
                ra, rb = min(ra, 180 - ra), min(rb, 180 - rb)
                m.close(rb, ra, ta + 1e-5 + 4 * tn / h, kind + ":rake")
    m.nontrivial(kind, *signature(c)[:6])
    m.state("transformation", kind)


def axis_weights(m, rng, c):
    """Weights divide the coordinate axes before the decomposition."""
    w = 10 ** rng.uniform(-1, 1, 3)
    fa = Orientation(c.arr, weights=w)
    out = N.asarray(c.arr) / w
    c2 = gen.Cloud(); c2.arr = out; c2.dtype = "float64"
    _, e2, _, s2, _ = precision(c2)
    e2 += EPS * 30 * float(N.abs(out).max()) * c.n ** .5
    ok, axok = gaps(s2, e2)
    if not ok:
        m.state("skipped", "ill-posed-weighted")
        return
    fb = Orientation(out)
    unsigned(m, fa.axes[2], fb.axes[2], 40 * e2 / float(s2[1] - s2[2]) + 1e-13, "axis_weights:normal")
    m.close(N.asarray(fa.singular_values, L) / w, fb.singular_values, 4 * e2, "axis_weights:loadings")
    m.close(fa.centered_array, N.asarray(c.arr, L) - N.asarray(c.arr, L).mean(axis=0), EPS * float(N.abs(c.arr).max()) * (20 + 5 * c.n ** .5) * 2,
            "axis_weights:data_unweighted")
    m.nontrivial("axis_weights", *signature(c)[:6])
    m.state("transformation", "axis_weights")

"""C24: resampling helpers and the percentile bands they feed."""
import math
from common import *
import matplotlib.pyplot as P
from matplotlib.collections import PolyCollection
from attitude import Orientation
from attitude.display.error_comparison import error_comparison, bootstrap_ci
from attitude.display.plot.cov_types.regressions import bootstrap_noise, bootstrap_resampled, hyperbola
from attitude.display.plot.cov_types.misc import ci, percentiles, augment

RULE = ("data sets of many shapes and types are handed to the resampling helpers with an estimator that records (and sometimes overwrites) every sample it receives; the recorded event log is checked offline: number and order of calls, provenance of every row, size, mean, independence and placement of the noise (at error probabilities below 1e-9); percentiles of arrays with ties and one element against a definition by sorting, for every axis; the bootstrapped comparison figure is read back; distinct by helper, shape, type and options")
CASES = dict(quick=8000, thorough=60000)
FILES = ["display/plot/cov_types/regressions.py", "display/plot/cov_types/misc.py", "display/error_comparison.py"]
ASSUMPTIONS = ["statistical oracles use thresholds of at least 6.5 standard deviations"]


class Log:
    """Estimator that records what it is called with."""
    def __init__(self, rng, out):
        self.calls, self.out, self.values = [], out, []
        self.mutate = bool(rng.random() < .4)

    def __call__(self, a):
        self.calls.append(N.array(a, copy=True))
        k = len(self.calls)
        if self.out == "scalar":
            v = float(k) + float(a[0, 0]) * 1e-3
        elif self.out == "vector":
            v = N.array([k, a.mean(), k * 2.])
        else:
            v = N.array([[k, 0.], [a.sum(), 1.]])
        self.values.append(N.array(v, copy=True))
        if self.mutate:
            a[...] = -7
        return v


def check_calls(m, log, r, n, shape):
    m.ok(len(log.calls) == n, "one_call_per_replicate", "%d calls for n=%d" % (len(log.calls), n))
    m.ok(all(c.shape == shape for c in log.calls), "samples_have_the_shape_of_the_data")
    r = N.asarray(r)
    m.ok(len(r) == n, "one_result_per_replicate")
    m.ok(n == 0 or (r.shape == (n,) + log.values[0].shape and (r == N.array(log.values)).all()), "results_in_call_order")


def resampled(m, rng):
    l = int(rng.choice([1, 2, 3, 5, 10, 30, 100]))
    k = int(rng.integers(1, 5))
    n = int(rng.choice([0, 1, 2, 10, 60]))
    data = rng.normal(size=(l, k))
    data[:, 0] = rng.permutation(l) + .25
    if rng.random() < .3:
        data = (data * 1000).astype(rng.choice(["float32", "int64"]))
        data[:, 0] = rng.permutation(l) + 3
    mem, data = gen.present(rng, data)
    keep = data.copy()
    log = Log(rng, str(rng.choice(["scalar", "vector", "matrix"])))
    m.note(helper="resampled", l=l, k=k, n=n, dtype=str(data.dtype), memory=mem)
    m.nontrivial("resampled", l, k, n, str(data.dtype), mem, log.mutate)
    r = bootstrap_resampled(data, log, n=n)
    m.ok((data == keep).all(), "data_unchanged")
    check_calls(m, log, r, n, data.shape)
    if n and l >= 30:
        again = Log(rng, "scalar")
        again.mutate = False
        bootstrap_resampled(data, again, n=n)
        m.ok(not all((a == b).all() for a, b in zip(log.calls, again.calls)), "every_bootstrap_draws_afresh")
    idx = {float(v): i for i, v in enumerate(keep[:, 0])}
    picks = []
    for c in log.calls:
        p = [idx.get(float(v), -1) for v in c[:, 0]]
        m.ok(min(p) >= 0 and (keep[p] == c).all(), "rows_come_from_the_data")
        picks.append(p)
    if n and l >= 10:
        p = N.array(picks)
        # uniform over rows, rows repeated, replicates different
        z = (N.bincount(p.ravel(), minlength=l) - p.size / l) / math.sqrt(p.size / l)
        if p.size / l >= 50:
            m.ok(N.abs(z).max() < 8, "rows_drawn_uniformly", "%s" % z)
        d = N.array([len(set(x)) for x in picks])
        mean = l * (1 - (1 - 1 / l) ** l)
        m.ok(abs(d.mean() - mean) < 7 * math.sqrt(l * .1 / len(d)) + .5, "drawn_with_replacement", "%g distinct rows of %d" % (d.mean(), l))
        m.ok(len(set(map(tuple, picks))) == len(picks), "replicates_differ")
        # positions independent: i-th pick not tied to i
        if p.size >= 500:
            m.ok(abs((p == N.arange(l)).mean() - 1 / l) < 7 * math.sqrt(1 / l / p.size) + .002, "rows_in_random_order")


def noise(m, rng):
    l = int(rng.choice([1, 2, 5, 20, 60]))
    k = int(rng.choice([1, 2, 3, 3, 4]))
    n = int(rng.choice([0, 1, 3, 30, 80]))
    std = float(rng.choice([1., .1, 7., 10 ** rng.uniform(-2, 2)]))
    sym = bool(rng.random() < .5)
    data = rng.normal(size=(l, k)) * 10 ** rng.uniform(-1, 2) + rng.normal(size=k)
    if rng.random() < .2:
        data = N.round(data * 10).astype(int)
    mem, data = gen.present(rng, data)
    keep = data.copy()
    log = Log(rng, str(rng.choice(["scalar", "vector", "matrix"])))
    kw = {}
    if std != 1 or rng.random() < .5:
        kw["std"] = std
    if not sym or rng.random() < .5:
        kw["symmetric"] = sym
    m.note(helper="noise", l=l, k=k, n=n, std=std, symmetric=sym, dtype=str(data.dtype), memory=mem)
    m.nontrivial("noise", l, k, n, sym, str(data.dtype), mem, log.mutate, len(kw))
    N.random.seed(int(rng.integers(2 ** 31)))
    r = bootstrap_noise(data, log, n=n, **kw)
    m.ok((data == keep).all(), "data_unchanged")
    check_calls(m, log, r, n, data.shape)
    if not n:
        return
    again = Log(rng, "scalar")
    again.mutate = False
    bootstrap_noise(data, again, n=n, **kw)
    m.ok(not any((a == b).all() for a, b in zip(log.calls, again.calls)), "every_bootstrap_draws_afresh")
    e = N.array([c - keep for c in log.calls])
    if not sym:
        m.ok((e[:, :, :-1] == 0).all(), "noise_only_on_the_last_coordinate")
        e = e[:, :, -1:]
    e = e / std
    N_ = e.size
    m.ok((e != 0).all(), "noise_everywhere")
    m.ok(N.abs(e).max() < 7.5, "noise_size_bounded", "%g standard deviations" % N.abs(e).max())
    if N_ >= 200:
        m.ok(abs(e.mean()) < 6.5 / math.sqrt(N_), "noise_zero_mean", "%g" % e.mean())
        m.ok(abs((e ** 2).mean() - 1) < 7 * math.sqrt(2 / N_) + .02, "noise_of_the_requested_size", "variance %g" % (e ** 2).mean())
    # independence between replicates, rows and coordinates
    for axis in range(3):
        if e.shape[axis] > 1:
            a = N.take(e, range(e.shape[axis] - 1), axis) * N.take(e, range(1, e.shape[axis]), axis)
            m.ok(not (N.diff(e, axis=axis) == 0).any(), "noise_not_repeated")
            if a.size >= 200:
                m.ok(abs(a.mean()) < 7 / math.sqrt(a.size) + .01, "noise_independent", "correlation %g along axis %d" % (a.mean(), axis))


def pct(a, p):
    """Linear interpolation between order statistics."""
    s = sorted(float(x) for x in a)
    t = p / 100 * (len(s) - 1)
    i = min(int(math.floor(t)), len(s) - 1)
    j = min(i + 1, len(s) - 1)
    if s[i] == s[j]:
        return s[i]
    return s[i] + (s[j] - s[i]) * (t - i)


def along(a, axis, p):
    if axis is None:
        return pct(N.ravel(a), p)
    return N.apply_along_axis(lambda v: pct(v, p), axis, a)


def percent(m, rng):
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.choice([1, 2, 3, 5, 8, 20], nd))
    a = rng.normal(size=shape) * 10 ** rng.uniform(-3, 3) + rng.normal() * 100
    if rng.random() < .3:
        a = N.round(a)
    if rng.random() < .2:
        a = a.astype(int)
    mem, a = (gen.present(rng, a) if nd == 2 else ("plain", a))
    keep = a.copy()
    axis = None if rng.random() < .35 else int(rng.integers(-nd, nd))
    big = float(N.abs(a).max()) + 1
    m.note(helper="percentiles", shape=shape, axis=axis, dtype=str(a.dtype))
    m.nontrivial("percentiles", shape, axis, str(a.dtype), mem)
    style = int(rng.integers(4))
    ps = [float(x) for x in rng.uniform(0, 100, int(rng.integers(1, 5)))] + ([0, 100, 50] if rng.random() < .5 else [])
    arg = [ps, tuple(ps), N.array(ps), ps[0]][style]
    r = percentiles(a, arg, axis) if rng.random() < .5 else percentiles(a, arg, axis=axis)
    if style < 3:
        m.ok(len(r) == len(ps), "one_score_per_percentile")
        for s, p in zip(r, ps):
            m.close(s, along(a, axis, p), 1e-12 * big, "percentile")
    else:
        m.close(N.squeeze(r), N.squeeze(along(a, axis, ps[0])), 1e-12 * big, "percentile_scalar")
    w = sorted(float(x) for x in rng.uniform(0, 100, 2))
    lo = []
    for which in w + [95, None]:
        b = ci(a, axis=axis) if which is None else ci(a, which, axis) if rng.random() < .5 else ci(a, which=which, axis=axis)
        which = 95 if which is None else which
        m.ok(len(b) == 2, "interval_has_two_bounds")
        m.close(b[0], along(a, axis, 50 - which / 2), 1e-12 * big, "lower_bound")
        m.close(b[1], along(a, axis, 50 + which / 2), 1e-12 * big, "upper_bound")
        m.ok((N.asarray(b[0]) <= N.asarray(b[1]) + 1e-12 * big).all(), "bounds_ordered")
        lo.append(b)
    m.ok((N.asarray(lo[1][0]) <= N.asarray(lo[0][0]) + 1e-12 * big).all() and (N.asarray(lo[1][1]) >= N.asarray(lo[0][1]) - 1e-12 * big).all(), "intervals_nested")
    m.ok((a == keep).all(), "data_unchanged")
    if nd == 1:
        A = augment(a)
        m.ok(A.shape == (len(a), 2) and (A[:, 0] == a).all() and (A[:, 1] == 1).all(), "design_matrix")


def band(m, rng, figure):
    n = int(rng.choice([12, 40, 90]))
    s1 = float(10 ** rng.uniform(1.2, 2.5))
    data = rng.normal(size=(n, 3)) * [s1 * rng.uniform(3, 6), s1, 1.]
    sig = float(rng.choice([.2, .8, 1.5, .02 * s1]))
    data[:, 2] *= sig
    R = gen.rotation(rng)
    f = Orientation(data @ R + rng.normal(size=3) * 100)
    d = f.rotated()
    keep = [x.copy() for x in (f.arr, f.array, f.axes, f.singular_values)]
    N.random.seed(int(rng.integers(2 ** 31)))
    m.note(helper="band", n=n, s1=s1, sigma=sig, figure=figure)
    m.nontrivial("band", n, figure, sig)
    width = float(rng.uniform(1, 4) * s1)
    if figure:
        fig = error_comparison(f, do_bootstrap=True, width=width)
        try:
            ax = fig.axes[0]
            b = [c for c in ax.collections if c.get_label() == "Noise bootstrap"]
            m.ok(len(b) == 1, "band_drawn_once", str(len(b)))
            v = b[0].get_paths()[0].vertices
            xs = N.unique(v[:, 0])
            lo = N.array([v[v[:, 0] == x, 1].min() for x in xs])
            hi = N.array([v[v[:, 0] == x, 1].max() for x in xs])
            m.close([xs[0], xs[-1]], [-width / 2, width / 2], 1e-9 * width, "band_spans_the_figure")
        finally:
            P.close(fig)
    else:
        xs = N.linspace(-width / 2, width / 2, 41)
        dk = d.copy()
        lo, hi = bootstrap_ci(d, xs)
        m.ok((d == dk).all(), "data_unchanged")
    m.ok((lo <= hi).all(), "bounds_ordered")
    m.ok((lo < 0).all() and (hi > 0).all(), "band_contains_the_nominal_fit")
    s = max(1., d[:, 2].std())
    ev = d.var(axis=0)
    var = (s * s / n) * (1 + xs ** 2 * (ev[1] + ev[2] + s * s) / (ev[1] - ev[2]) ** 2)
    half = 1.96 * N.sqrt(var)
    r = (hi - lo) / 2 / half
    m.ok(r.min() > .8 and r.max() < 1.25, "band_is_the_95_percent_interval", "ratio %g to %g" % (r.min(), r.max()))
    m.ok(N.abs((hi + lo) / 2 / half).max() < .2, "band_centred", "%g" % N.abs((hi + lo) / 2 / half).max())
    m.ok(all((a == b).all() for a, b in zip(keep, (f.arr, f.array, f.axes, f.singular_values))), "fit_unchanged")


def run_case(m, rng, idx):
    if idx < (16 if TIER == "quick" else 320):
        return band(m, rng, idx % 16 < 8)
    [resampled, noise, percent][idx % 3](m, rng)

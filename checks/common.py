"""Helpers shared by the check modules."""
import numpy as N
import gen, ref
from ref import L

EPS = 2.3e-16


def precision(c):
    """(delta, e): absolute accuracy of centring, and of the decomposition,
    that double (or single) precision arithmetic can be held to on this data."""
    arr = N.asarray(c.arr)
    eps = 1.3e-7 if c.dtype == "float32" else EPS
    n = len(arr)
    big = float(N.abs(arr.astype(float)).max())
    # summing a column whose values are all alike drifts: n/4 ulp at worst
    delta = eps * big * (20 + 5 * n ** .5 + n / 4)
    if c.dtype == "float32":
        delta = eps * big * (20 + n)
    _, cc, s, V = ref.pca(c.arr)
    e = float(100 * EPS * s[0] * (1 + n ** .5 / 10) + n ** .5 * delta)
    return delta, e, cc, s, V


def gaps(s, e):
    """Is the normal / are all three axes well determined at accuracy e?"""
    s = [float(x) for x in s]
    normal = s[1] - s[2] > 1e4 * e and s[2] < .7 * s[1]
    axes = normal and s[0] - s[1] > 1e4 * e and s[1] < .95 * s[0]
    return normal, axes


def bucket(x, edges):
    return int(N.searchsorted(edges, x))


def signature(c):
    return (c.kind, bucket(c.n, [4, 6, 11, 50, 500, 5000]), bucket(c.dip, [1e-6, .1, 5, 40, 80, 89.9, 89.99999]),
            int(c.strike // 45), bucket(c.noise, [1e-12, 1e-6, 1e-3, 1e-1]), c.dtype, c.memory,
            bucket(c.scale, [.1, 10, 1000]), bucket(c.aspect, [.05, .2, .6]))


def _member(rng, f):
    """A member of a group, as create_groups leaves it."""
    from attitude.orientation.grouped import GroupedOrientation, create_groups
    other = type(f)(N.asarray(f.array, float)[::-1] * [1, 1, -1] + 1.)
    if rng.random() < .5:
        f.member_group = GroupedOrientation(f, other)     # keeps the group alive
        return f
    if f.hash == other.hash:
        return f
    out = create_groups([f, other], [f.hash, other.hash], copy=bool(rng.random() < .5))
    return out[0]


def _queries(rng, f):
    from attitude.error import axes as E
    for q in rng.permutation(10)[:3]:
        [f.angular_errors, f.residuals, f.rotated, f.rake, f.strike_dip_rake, lambda: f.U, lambda: f.to_mapping(name="x", strike=1., disabled=None),
         lambda: E.noise_axes(f, confidence_level=.5), lambda: E.sampling_axes(f, variance_on_all_axes=False), lambda: (f.hash, f.hyperbolic_axes, f.covariance_matrix)][q]()
    return f


def lived(rng, m, f, p=.3):
    """The same fit after some of the things that happen to fits: none of them may show in any answer."""
    import copy, pickle
    while rng.random() < p:
        k = ("copied", "deep_copied", "pickled", "disabled", "enabled_again", "member", "queried", "queried")[rng.integers(8)]
        m.state("life", k)
        m.note(**{"life_%s" % k: True})
        if k == "copied":
            f = copy.copy(f)
        elif k == "deep_copied":
            f = copy.deepcopy(f)
        elif k == "pickled":
            f = pickle.loads(pickle.dumps(f))
        elif k == "disabled":
            f.disabled = True
        elif k == "enabled_again":
            f.disabled = True
            f.disabled = False
        elif k == "member" and f.axes.shape == (3, 3):
            f = _member(rng, f)
        else:
            f = _queries(rng, f)
    return f

"""C06: the 95% region holds the true plane at least 95% of the time (and is not everything)."""
from common import *
from attitude import Orientation

RULE = ("repeated sampling: per case one population (attitude x aspect x layout x sample size 10..2000 x noise 0.1..8% of the short extent), "
        "hundreds of independent data sets drawn from it and fitted by the real code; the monitor counts how often the true plane satisfies "
        "h0 p^2 + h1 q^2 <= h2 in the reported axes; non-trivial = population whose coverage and exclusion counts were judged; distinct by population class")
CASES = dict(quick=480, thorough=1600)
FILES = ["orientation/pca.py", "error/axes.py"]
ASSUMPTIONS = ["coverage is judged by the count in a finite number of repetitions against 95%; the measured coverage (99% or more in every "
               "population) makes an alarm by chance improbable (below 1e-6 per population)"]


def inside(axes, h, normal):
    """Is the plane with this normal inside the error region of (axes, h)?"""
    v = axes @ normal
    if v[2] == 0:
        return False
    p, q = v[0] / v[2], v[1] / v[2]
    return h[0] * p * p + h[1] * q * q <= h[2] * (1 + 1e-12)


def rotated(axes, k, angle):
    """The fitted normal, tilted toward in-plane axis k."""
    return N.cos(angle) * axes[2] + N.sin(angle) * axes[k]


def run_case(m, rng, idx):
    R = 300 if TIER == "quick" else 1500
    s, d = gen.attitude(rng)
    sv, dv, nv = gen.frame(s, d)
    n = int(rng.choice([10, 11, 12, 15, 20, 30, 60, 120, 400, 600, 1000, 2000]))
    asp = float(rng.choice([1, .6, .3, .1]))
    noise = float(10 ** rng.uniform(-3, -1.1))
    kind = str(rng.choice(["gaussian", "uniform", "grid", "ring", "trace"]))
    rake = rng.uniform(0, N.pi)
    C = N.array([[N.cos(rake), N.sin(rake)], [-N.sin(rake), N.cos(rake)]])
    iso = rng.random() < .5
    scale = float(10 ** rng.uniform(-1, 3))
    m.note(strike=s, dip=d, n=n, aspect=asp, noise=noise, layout=kind, isotropic=iso, scale=scale, repetitions=R)
    hits = out = 0
    err = N.zeros(2)
    for r in range(R):
        _, p = gen.layout(rng, n, kind)
        p = p * [1, asp]
        ext = N.sqrt(((p - p.mean(0)) ** 2).mean(0)).min()
        sig = noise * ext
        q = (p @ C) @ N.array([sv, dv])
        q = q + (rng.normal(size=(n, 3)) * sig if iso else rng.normal(size=(n, 1)) * sig * nv)
        fit = Orientation(q * scale + rng.uniform(-1, 1, 3) * scale * 10)
        A = N.asarray(fit.axes, float)
        h = N.asarray(fit.hyperbolic_axes, float)
        hits += inside(A, h, nv)
        e = N.radians(fit.angular_errors())
        err += e
        for k in (0, 1):
            for sgn in (1, -1):
                a = min(4 * e[k], N.pi / 2 * .99)
                out += not inside(A, h, rotated(A, k, sgn * a))
                m.ok(inside(A, h, rotated(A, k, sgn * e[k] * .9)), "near_planes_not_excluded")
    # the true coverage is 99% or more: seeing less than 95% by chance has probability < 1e-6
    m.ok(hits >= .95 * R, "coverage", "the true plane was inside the 95%% region in %d of %d repetitions" % (hits, R))
    m.ok(out == 4 * R, "excludes_far_planes", "%d of %d" % (out, 4 * R))
    m.state("coverage_percent", int(100 * hits / R))
    m.state("n", n)
    m.nontrivial(n, asp, kind, iso, bucket(noise, [2e-3, 5e-3, 2e-2, 5e-2]), bucket(d, [.01, 10, 45, 80, 89.9]))

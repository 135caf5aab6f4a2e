"""
Workload generation: point clouds digitised on (noisy) planes, from friendly to
hostile.  x = east, y = north, z = up; strike/dip follow the right-hand rule.
"""
import numpy as N

SPECIAL_STRIKES = [0, 45, 90, 135, 180, 225, 270, 315, 360, 1e-9, 359.9999999, 30, 179.999999, 90.0000001]
SPECIAL_DIPS = [0, 1e-7, 1e-3, 1, 30, 45, 60, 89, 89.999, 89.9999999, 90]


def frame(strike, dip):
    """Unit vectors (strike direction, down-dip direction, upward normal)."""
    s, d = N.radians(strike), N.radians(dip)
    cs, ss = _cs(strike)
    cd, sd = _cs(dip)
    return (N.array([ss, cs, 0.]),
            N.array([cs * cd, -ss * cd, -sd]),
            N.array([cs * sd, -ss * sd, cd]))


def _cs(deg):
    """cos, sin, exact at multiples of 90 degrees."""
    r = N.radians(deg)
    c, s = N.cos(r), N.sin(r)
    q = deg / 90.
    if q == int(q):
        c, s = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][int(q) % 4]
    return c, s


def attitude(rng):
    strike = float(rng.choice(SPECIAL_STRIKES)) if rng.random() < .3 else rng.uniform(0, 360)
    u = rng.random()
    if u < .3:
        dip = float(rng.choice(SPECIAL_DIPS))
    elif u < .5:
        dip = 10 ** rng.uniform(-6, 1.9)
    else:
        dip = rng.uniform(0, 90)
    return strike, min(dip, 90.)


def npoints(rng, lo=3, hi=25000):
    u = rng.random()
    if u < .25:
        n = int(rng.choice([3, 4, 5, 6, 7, 8, 9, 10]))
    elif u < .35:
        n = int(rng.choice([31, 32, 99, 100, 101, 127, 128, 129, 255, 256, 999, 1000, 1001]))
    elif u < .97:
        n = int(10 ** rng.uniform(.5, 2.7))
    else:
        n = int(10 ** rng.uniform(2.7, 4.4))
    return int(min(max(n, lo), hi))


BIG = [1025, 4097, 10001, 16385, 33000, 70000, 120001]


def big(idx, period=400, sizes=BIG):
    """A schedule of large data sets: about one case in `period`, every size in turn."""
    return sizes[idx // period % len(sizes)] if idx % period == 7 else None


LAYOUTS = ["gaussian", "uniform", "trace", "grid", "ring", "clusters", "duplicates", "lopsided", "three_arms"]


def layout(rng, n, kind=None):
    """In-plane coordinates, roughly unit size, rank 2."""
    kind = kind or str(rng.choice(LAYOUTS))
    if kind == "gaussian":
        p = rng.normal(size=(n, 2))
    elif kind == "uniform":
        p = rng.uniform(-1, 1, size=(n, 2))
    elif kind == "trace":
        t = N.sort(rng.uniform(-1, 1, n))
        p = N.column_stack([t, N.sin(t * rng.uniform(1, 6)) * rng.uniform(.2, 1) + rng.normal(size=n) * .02])
    elif kind == "grid":
        k = int(N.ceil(N.sqrt(n)))
        g = N.stack(N.meshgrid(N.arange(k), N.arange(k)), -1).reshape(-1, 2)[:n]
        p = (g - g.mean(0)) / max(k, 1) * 2
    elif kind == "ring":
        t = N.arange(n) * 2 * N.pi / n + rng.uniform(0, 6)
        p = N.column_stack([N.cos(t), N.sin(t)])
    elif kind == "clusters":
        c = rng.uniform(-1, 1, size=(max(3, min(n, 4)), 2))
        p = c[N.arange(n) % len(c)] + rng.normal(size=(n, 2)) * .03
    elif kind == "duplicates":
        b = rng.normal(size=(max(3, n // 3), 2))
        p = b[N.arange(n) % len(b)]
    elif kind == "lopsided":
        p = rng.normal(size=(n, 2)) * .1
        p[: max(1, n // 10)] += rng.uniform(1, 3, size=2)
    else:
        a = rng.integers(0, 3, n) * 2 * N.pi / 3 + .3
        r = rng.uniform(.1, 1, n)
        p = N.column_stack([r * N.cos(a), r * N.sin(a)])
    if n >= 3:
        s = N.linalg.svd(p - p.mean(0), compute_uv=False)
        if not s[1] > 1e-3 * s[0]:
            p = N.array([[0, 0], [1, 0], [0, 1.]])[N.arange(n) % 3] + rng.normal(size=(n, 2)) * .05
    return kind, p


MEMORY = ["plain", "fortran", "strided", "reversed", "readonly", "transposed", "columns"]


def present(rng, arr, kind=None):
    """The same numbers, handed over the way callers hand arrays over."""
    kind = kind or (str(rng.choice(MEMORY)) if rng.random() < .5 else "plain")
    a = arr
    if kind == "fortran":
        a = N.asfortranarray(arr)
    elif kind == "strided":
        b = N.zeros((2 * len(arr), arr.shape[1]), arr.dtype)
        b[::2] = arr
        a = b[::2]
    elif kind == "reversed":
        a = N.ascontiguousarray(arr[::-1])[::-1]
    elif kind == "readonly":
        a = arr.copy()
        a.setflags(write=False)
    elif kind == "transposed":
        a = N.ascontiguousarray(arr.T).T
    elif kind == "columns":
        b = N.ones((len(arr), arr.shape[1] + 2), arr.dtype)
        b[:, 1:-1] = arr
        a = b[:, 1:-1]
    else:
        a = arr.copy()
    return kind, a


class Cloud:
    """A generated data set and what is known about it by construction."""
    pass


def cloud(rng, lo=3, hi=25000, dtypes=True, noise=None, max_noise=.3, offsets=True, aspect=None,
          strike=None, dip=None, n=None, scale=None, kind=None, present_as=None, extreme=0):
    c = Cloud()
    c.n = n or npoints(rng, lo, hi)
    s, d = attitude(rng)
    c.strike = s if strike is None else strike
    c.dip = d if dip is None else dip
    c.sv, c.dv, c.nv = frame(c.strike, c.dip)
    c.kind, p = layout(rng, c.n, kind)
    c.scale = scale if scale is not None else float(10 ** rng.uniform(-3, 4)) if rng.random() < .5 else 100.
    if scale is None and extreme and rng.random() < extreme:
        c.scale = float(10 ** rng.uniform(-12, 12))
    c.aspect = aspect if aspect is not None else float(rng.choice([1, .7, .3, .1, .02]))
    rake = rng.uniform(0, 2 * N.pi) if rng.random() < .7 else float(rng.choice([0, N.pi / 2, N.pi / 4]))
    p = p * c.scale * [1, c.aspect]
    R = N.array([[N.cos(rake), N.sin(rake)], [-N.sin(rake), N.cos(rake)]])
    p = p @ R
    if noise is None:
        u = rng.random()
        noise = 0. if u < .08 else 10 ** rng.uniform(-9, -3) if u < .35 else 10 ** rng.uniform(-3, N.log10(max_noise))
    c.noise = noise
    q = p @ N.array([c.sv, c.dv])
    sig = noise * c.scale * c.aspect
    c.sigma = sig
    style = str(rng.choice(["normal", "isotropic", "vertical"]))
    if noise:
        if style == "normal":
            q = q + rng.normal(size=(c.n, 1)) * sig * c.nv
        elif style == "isotropic":
            q = q + rng.normal(size=(c.n, 3)) * sig
        else:
            q[:, 2] += rng.normal(size=c.n) * sig * max(abs(c.nv[2]), .05)
    c.noise_style = style
    c.offset = N.zeros(3)
    if offsets:
        u = rng.random()
        if u < .3:
            c.offset = rng.uniform(-1, 1, 3) * c.scale * 10
        elif u < .5:
            c.offset = rng.uniform(-1, 1, 3) * c.scale * 1e4
        elif u < .6:
            c.offset = N.array([5e5, 4e6, -2500.]) * min(1, c.scale / 100)
    q = q + c.offset
    c.dtype = "float64"
    if dtypes:
        u = rng.random()
        if u < .05 and c.scale >= 10 and c.n <= 2000 and N.abs(c.offset).max() <= 100 * c.scale:
            q = q.astype(N.float32)
            c.dtype = "float32"
        elif u < .12 and 100 <= c.scale < 1e5 and c.aspect >= .3:
            q = N.round(q).astype(rng.choice([N.int32, N.int64]))
            c.dtype = str(q.dtype)
        elif u < .15:
            q = q.astype(">f8")
            c.dtype = ">f8"
    c.memory, c.arr = present(rng, q, present_as)
    return c


def describe(c):
    return dict(n=c.n, strike=c.strike, dip=c.dip, layout=c.kind, scale=c.scale, aspect=c.aspect,
                noise=c.noise, noise_style=c.noise_style, offset=c.offset.tolist(), dtype=c.dtype,
                memory=c.memory)


def rotation(rng):
    """A random proper rotation."""
    q, r = N.linalg.qr(rng.normal(size=(3, 3)))
    q = q * N.sign(N.diag(r))
    if N.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def rotz(a):
    c, s = N.cos(a), N.sin(a)
    return N.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])

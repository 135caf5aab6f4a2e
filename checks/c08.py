"""C08: a fit recovered from its saved axes is the same fit."""
from common import *
import copy, io, json, pickle
from attitude import Orientation, create_groups
from c04 import angle_tolerance

RULE = ("random clouds (all layouts, exactly planar and 3-point ones included, plain and weighted) fitted, their principal axes carried through "
        "memory, pickle, JSON text, npy and repr, and recovered; groups recovered too; non-trivial = every query of the recovered fit compared with the original's; distinct by cloud class and carrier")
CASES = dict(quick=10000, thorough=120000)
FILES = ["orientation/pca.py", "orientation/base.py"]


def carry(rng, ax, kind):
    if kind == "memory":
        return ax
    if kind == "copy":
        return ax.copy()
    if kind == "pickle":
        return pickle.loads(pickle.dumps(ax))
    if kind == "json":
        a = json.loads(json.dumps(ax.tolist()))
        # plain lists do as well
        return a if rng.random() < .4 else N.array(a)
    if kind == "npy":
        b = io.BytesIO()
        N.save(b, ax)
        b.seek(0)
        return N.load(b)
    if kind == "fortran":
        return N.asfortranarray(ax)
    if kind == "readonly":
        a = ax.copy()
        a.setflags(write=False)
        return a
    b = io.StringIO()
    N.savetxt(b, ax, fmt="%.17g")
    b.seek(0)
    return N.loadtxt(b)


KINDS = ["memory", "copy", "pickle", "json", "npy", "text", "fortran", "readonly"]


# kept with the fit (bit for bit); the others are recomputed, where vector units may differ in the last bit
STORED = ("axes", "sv", "normal", "mean", "arr")


def queries(f):
    h = f.hyperbolic_axes
    return dict(axes=f.axes.copy(), sv=f.singular_values.copy(), normal=f.normal.copy(), sd=f.strike_dip(), rake=f.rake(),
                h=N.array(h), err=f.angular_errors(), res=f.residuals(), rot=f.rotated(), mean=N.array(f.center),
                arr=N.array(f.centered_array), ev=f.eigenvalues)


def compare(m, a, b, s, e, label):
    """a, b: original and recovered queries.  Only rounding of one
    multiplication and one division separates them."""
    u = 1e-13
    m.close(b["axes"], a["axes"], u, label + "_axes")
    m.close(b["sv"], a["sv"], u * s[0], label + "_singular_values")
    m.close(b["normal"], a["normal"], u, label + "_normal")
    # a vertical plane has two equivalent strikes
    period = 180 if abs(a["normal"][2]) < 1e-13 else 360
    m.ok(ref.mod_diff(b["sd"][0], a["sd"][0], period) <= 1e-10 / max(N.hypot(*a["normal"][:2]), 1e-12) + 1e-10
         or N.hypot(*a["normal"][:2]) < 1e-13, label + "_strike", "%s %s" % (b["sd"], a["sd"]))
    m.close(b["sd"][1], a["sd"][1], 1e-5, label + "_dip")
    m.ok(N.isfinite(b["rake"]), label + "_rake_finite")
    hz = N.hypot(*a["normal"][:2])
    if hz > 1e-12:
        d = abs(b["rake"] - a["rake"])
        if period == 180:
            d = min(d, abs(180 - b["rake"] - a["rake"]))
        m.close(d, 0, 1e-5 + 1e-11 / hz, label + "_rake")
    m.close(b["ev"], a["ev"], 1e-12 * a["ev"][0], label + "_eigenvalues")
    m.close(b["rot"], a["rot"], 1e-12 * s[0], label + "_despun")
    m.close(b["res"], a["res"], 1e-12 * s[0], label + "_residuals")
    m.ok(N.array_equal(b["mean"], a["mean"]) and N.array_equal(b["arr"], a["arr"]), label + "_data")


def run_case(m, rng, idx):
    c = gen.cloud(rng, hi=3000, dtypes=idx % 4 == 0, extreme=.1, n=gen.big(idx, 307))
    m.note(**gen.describe(c))
    kind = KINDS[idx % len(KINDS)]
    m.note(carrier=kind)
    fit = Orientation(c.arr)
    s = N.asarray(fit.singular_values, float)
    n = c.n
    a = queries(fit)
    saved = carry(rng, fit.principal_axes, kind)
    keep = N.array(saved)
    rec = Orientation(c.arr, axes=saved)
    m.ok(N.array_equal(saved, keep), "saved_axes_untouched")
    b = queries(rec)
    compare(m, a, b, s, None, "recovered")
    # the statistics follow: relative accuracy where the normal variance is resolved
    if s[2] > 1e-9 * s[0] and s[1] > 1e-9 * s[0]:
        m.close(b["err"], a["err"], 1e-9, "recovered_errors")
        m.close(b["h"], a["h"], 1e-9 * N.abs(a["h"]) + 1e-12 * a["ev"], "recovered_error_axes")
    else:
        m.close(b["err"], a["err"], N.degrees(angle_tolerance(s, n, 1e-14 * s[0] + 2e-16 * s[0])), "recovered_errors")
    U = N.asarray(rec.U, L)
    if s[2] > 1e-12 * s[0]:
        m.close(U.T @ U, N.eye(3), 1e-13 * s[0] / s[2] * 100 + 1e-11, "left_vectors_orthonormal")
        m.close(U @ N.diag(rec.singular_values) @ rec.V, rec.arr, 1e-12 * s[0], "left_vectors_reconstruct")
        m.close(rec.U, fit.U, 1e-13 * s[0] / s[2] * 100 + 1e-11, "left_vectors")
    ma, mb = fit.to_mapping(), rec.to_mapping()
    m.ok(set(ma) == set(mb), "export_keys")
    m.close(mb["axes"], ma["axes"], 1e-13, "export_axes")
    m.ok(mb["centered_array"] == ma["centered_array"] and mb["center"] == ma["center"], "export_data")
    # saving again changes nothing beyond the last bit: identifier unchanged up to rounding of the axes
    p1, p2 = N.asarray(fit.principal_axes), N.asarray(rec.principal_axes)
    m.close(p2, p1, 1e-13 * s[0], "principal_axes")
    if N.array_equal(p1, p2):
        m.state("identifier", "bit-identical axes")
        m.ok(fit.hash == rec.hash and ma["uid"] == mb["uid"], "identifier")
    else:
        m.state("identifier", "last-bit difference")
    # the same content always has the same identifier
    again = Orientation(N.array(c.arr))
    if N.array_equal(again.principal_axes, p1):
        m.ok(again.hash == fit.hash, "identifier_is_a_function_of_the_fit")
    m.ok(isinstance(fit.hash, str) and len(fit.hash) == 8 and int(fit.hash, 16) >= 0, "identifier_form")
    # copies and pickles of the whole fit
    for how, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
        g = f(fit)
        q = queries(g)
        for k in a:
            w = N.asarray(a[k], float)
            m.close(N.asarray(q[k], float), w, 1e-12 * float(N.abs(w).max()) if k not in STORED else 0, "fit_%s_%s" % (how, k))
        m.ok(g.hash == fit.hash, "fit_%s_identifier" % how)
        # left vectors: exact zeros of the spread leave them free, but the decomposition still has to reproduce the data
        W = N.asarray(g.U, L)
        m.ok(W.shape == fit.U.shape and N.isfinite(W.astype(float)).all(), "fit_%s_left_vectors_finite" % how)
        m.close(W @ N.diag(g.singular_values) @ g.V, g.arr, 1e-12 * s[0], "fit_%s_left_vectors_reconstruct" % how)
    # a different fit does not share the identifier (it is used to tell planes apart)
    other = N.array(c.arr, float)
    other[0] += (s[0] / n ** .5) * rng.uniform(.2, .5, 3)
    m.ok(Orientation(other).hash != fit.hash, "identifier_distinguishes")
    # recovering must not need a decomposition
    if n >= 3 and s.min() > 0 and idx % 7 == 0:
        calls = []
        real = N.linalg.svd
        def spy(x, *aa, **kk):
            calls.append(N.shape(x))
            return real(x, *aa, **kk)
        N.linalg.svd = spy
        try:
            Orientation(c.arr, axes=saved).strike_dip()
        finally:
            N.linalg.svd = real
        m.ok(not [x for x in calls if max(x) >= max(n, 4)], "no_decomposition_repeated", str(calls))
    # groups
    if idx % 5 == 0 and n < 500:
        o = [Orientation(c.arr), Orientation(N.array(c.arr, float) * [1, 1, .9] + 1)]
        from attitude.orientation.grouped import GroupedOrientation
        g = GroupedOrientation(*o)
        g2 = GroupedOrientation(Orientation(o[0].array), Orientation(o[1].array), axes=carry(rng, g.principal_axes, kind))
        gs = N.asarray(g.singular_values, float)
        if gs[2] > 1e-9 * gs[0]:
            compare(m, queries(g), queries(g2), gs, None, "group")
    # weighted fits recover too, and a chain of recoveries does not drift
    if idx % 12 == 1:
        # exactly planar along an axis: part of the saved axes is lost, but not the fit
        w = rng.uniform(.5, 2, 3)
        x = N.array(rng.integers(-40, 41, (int(rng.integers(6, 30)), 3)), float) * 2. ** int(rng.integers(-4, 5))
        x[:4] = N.array([[50, 0, 0], [0, 30, 0], [-50, 0, 0], [0, -20, 0]]) * float(N.abs(x).max() / 40 + 1)
        j = int(rng.integers(3))
        x = x[:, rng.permutation(3)]
        x[:, j] = float(rng.integers(-5, 6))
        f = Orientation(x, weights=w)
        q = f.singular_values
        if N.sort(q / w)[1] > 1e-3 * q.max() and abs(N.subtract(*N.sort(q / w)[:0:-1])) > 1e-3 * q.max():
            r = Orientation(x, weights=w, axes=carry(rng, f.principal_axes, kind))
            m.close(r.singular_values, q, 1e-12 * q.max(), "weighted_planar_singular_values", str(w))
            m.close(N.abs(N.sum(r.axes * f.axes, axis=1)), 1, 1e-9, "weighted_planar_axes", str(w))
            m.close(r.angular_errors(), f.angular_errors(), 1e-6, "weighted_planar_errors")
    if idx % 3 == 0 and c.dtype == "float64":
        w = rng.uniform(.5, 2, 3)
        f = Orientation(c.arr, weights=w)
        if f.singular_values.min() > 1e-9 * f.singular_values.max():
            compare(m, queries(f), queries(Orientation(c.arr, weights=w, axes=carry(rng, f.principal_axes, kind))),
                    sorted(f.singular_values)[::-1], None, "weighted")
    if s.min() > 0:
        g = rec
        for _ in range(int(rng.integers(2, 6))):
            g = Orientation(c.arr, axes=carry(rng, g.principal_axes, str(rng.choice(KINDS))))
        m.close(g.axes, a["axes"], 1e-12, "chain_axes")
        m.close(g.singular_values, a["sv"], 1e-12 * s[0], "chain_singular_values")
    m.nontrivial(kind, *signature(c))

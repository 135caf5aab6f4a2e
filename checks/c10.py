"""C10: the fit of a group is the joint fit of its members."""
from common import *
from attitude import Orientation, create_groups
from attitude.orientation.grouped import GroupedOrientation
from c02 import check_angles
from c04 import axes_tolerance

RULE = ("groups of 1-8 members of different sizes (3..300 points), number types, memory layouts and origins, on one attitude or on several, built directly and through "
        "create_groups, joined as parallel beds or as one plane; non-trivial = joint fit certified against a long-double decomposition of the stacked (centred) points and "
        "compared with the same group after moving, reordering and splitting the members; distinct by (members, option, route, cloud classes)")
CASES = dict(quick=6000, thorough=80000)
FILES = ["orientation/grouped.py", "orientation/pca.py"]


def members(rng, big):
    k = int(rng.choice([1, 2, 2, 3, 3, 4, 5, 8]))
    s, d = gen.attitude(rng)
    scale = float(10 ** rng.uniform(-1, 3))
    out = []
    same = rng.random() < .6
    for i in range(k):
        kw = dict(strike=s, dip=d) if same else {}
        out.append(gen.cloud(rng, n=big if big and not i else int(rng.integers(3, 40)) if rng.random() < .8 else int(rng.integers(40, 300)),
                             scale=scale * float(10 ** rng.uniform(-.5, .5)), **kw))
    return out, same


def member(rng, c):
    """What a member's own fit was (weighted, recovered, disabled, a member before) is no business of the joint fit's points."""
    f = Orientation(c.arr)
    u = rng.random()
    if u < .1 and c.dtype == "float64":
        f = Orientation(c.arr, weights=10 ** rng.uniform(-.5, .5, 3))
    elif u < .2 and f.singular_values.min() > 0:
        f = Orientation(c.arr, axes=f.principal_axes)
    elif u < .3:
        GroupedOrientation(f, Orientation(N.asarray(c.arr, float) + 1.))
    if rng.random() < .15:
        f.disabled = True
    if rng.random() < .1:
        f.residuals(), f.to_mapping(), f.angular_errors()
    return f


def own(f):
    return {k: N.array(x, float) for k, x in dict(axes=f.axes, singular_values=f.singular_values, eigenvalues=f.eigenvalues, error_axes=f.hyperbolic_axes,
            errors=f.angular_errors(), angles=f.strike_dip_rake(), center=f.center, points=f.centered_array, covariance=f.covariance_matrix, residuals=f.residuals()).items()}


def run_case(m, rng, idx):
    cs, same_att = members(rng, gen.big(idx, 397))
    one = bool(rng.random() < .35)
    m.note(members=[gen.describe(c) for c in cs][:3], same_plane=one)
    fits = [member(rng, c) for c in cs]
    m.note(disabled=[f.disabled for f in fits])
    if len(set(f.hash for f in fits)) < len(fits):
        return
    n = sum(c.n for c in cs)
    before = [own(f) for f in fits]
    route = "direct" if rng.random() < .5 else "create_groups"
    kw = dict(same_plane=True) if one else dict(same_plane=False) if rng.random() < .3 else {}
    if route == "direct":
        g = GroupedOrientation(*fits, **kw)
    else:
        out = create_groups(list(fits), [f.hash for f in fits], **kw)
        g = out[-1]
        fits = out[:-1]
    deltas = [precision(c)[0] for c in cs]
    delta = max(deltas)
    raw = N.vstack([N.asarray(c.arr).astype(L) for c in cs])
    if one:
        stack = raw
        big = float(N.abs(raw).max())
        delta = max(delta, EPS * big * (20 + 5 * n ** .5) * (1 if all(c.dtype != "float32" for c in cs) else 6e8))
    else:
        stack = N.vstack([ref.center(c.arr)[1] for c in cs])
    _, cc, s, V = ref.pca(stack)
    e = float(200 * EPS * s[0] * (1 + n ** .5 / 10) + 2 * n ** .5 * delta)
    m.ok(g.n == n, "group_size", "%s != %s" % (g.n, n))
    A = N.asarray(g.axes, L)
    m.close(A @ A.T, N.eye(3), 1e-12, "axes_orthonormal")
    m.close(g.singular_values, s, e, "singular_values")
    P = cc @ A.T
    m.close(N.sqrt((P ** 2).sum(axis=0)), s, 2 * e, "spread_along_axes")
    m.close(g.centered_array, cc, 4 * delta, "stacked_points")
    want = raw.mean(axis=0)
    big = float(N.abs(raw).max())
    eps = 1.3e-7 if any(c.dtype == "float32" for c in cs) else EPS
    m.close(g.center, want, eps * big * (20 + n), "center_is_mean_of_all_points")
    m.close(g.mean, want, eps * big * (20 + n), "center_is_mean_of_all_points")
    m.ok(all(a is b for a, b in zip(g.members, fits)) and len(g.members) == len(fits), "members")
    m.ok(all(f.member_of is g for f in fits), "member_of")
    m.ok(g.same_plane == one, "option")
    # belonging to a group changes nothing about a member's own fit
    for f, b in zip(fits, before):
        for k, x in own(f).items():
            m.close(x, b[k], 1e-12 * float(N.abs(b[k]).max()), "member_keeps_its_own_" + k)
    good, _ = gaps(s, e)
    check_angles(m, g)
    if good:
        m.close(ref.line_angle(g.normal, V[2]), 0, 20 * e / float(s[1] - s[2]) + 1e-13, "joint_normal")
    # the errors of the group follow the single-fit statistics of the stacked data
    ev = s ** 2 / (n - 1)
    h = ref.noise_axes(N.asarray(g.singular_values, L) ** 2 / (n - 1), n)
    m.close(g.hyperbolic_axes, h, 1e-9 * N.abs(h) + 1e-11 * ev[0], "joint_error_axes")
    h2 = N.asarray(g.hyperbolic_axes, L)
    m.close(g.angular_errors(), N.degrees(N.arctan2(N.sqrt(h2[2]), N.sqrt(h2[:2]))), 1e-9, "joint_angular_errors")
    m.close(g.residuals(), cc - (lambda Q: Q @ A)(N.column_stack([P[:, 0], P[:, 1], 0 * P[:, 2]])), 8 * delta + 1e-12 * float(s[0]), "joint_residuals")
    # exact parallel beds are recovered whatever their offsets
    if same_att and not one and all(c.noise == 0 and c.dtype == "float64" for c in cs) and good:
        tol = (e + n ** .5 * EPS * big * 4) / float(s[1]) * 20 + 1e-12
        m.close(ref.line_angle(g.normal, cs[0].nv), 0, tol, "parallel_beds_recovered")
        m.state("exact_beds", len(cs))
    # move members relative to each other: a bed-parallel joint fit does not notice
    fl = [c for c in cs if c.dtype == "float64"]
    if len(fl) == len(cs) and len(cs) > 1:
        moved = [N.asarray(c.arr, float) + rng.normal(size=3) * c.scale * 20 for c in cs]
        order = rng.permutation(len(cs))
        g2 = GroupedOrientation(*[Orientation(moved[i]) for i in order])
        g1 = g if not one else GroupedOrientation(*[Orientation(c.arr) for c in cs])
        big2 = max(float(N.abs(a).max()) for a in moved + [N.asarray(c.arr, float) for c in cs])
        d2 = EPS * big2 * (20 + 5 * n ** .5)
        e2 = float(200 * EPS * g1.singular_values[0] + 4 * n ** .5 * d2)
        m.close(g2.singular_values, g1.singular_values, 2 * e2, "relative_position_irrelevant")
        sv = N.asarray(g1.singular_values, float)
        if sv[1] - sv[2] > 1e4 * e2 and sv[2] < .7 * sv[1]:
            m.close(ref.line_angle(g2.normal, g1.normal), 0, 40 * e2 / (sv[1] - sv[2]) + 1e-13, "relative_position_irrelevant")
        # points of one plane, cut into pieces at random, fit like the whole
        whole = N.vstack([N.asarray(c.arr, float) for c in cs])
        if len(whole) >= 6:
            cut = int(rng.integers(3, len(whole) - 2))
            gs = GroupedOrientation(Orientation(whole[:cut]), Orientation(whole[cut:]), same_plane=True)
            f = Orientation(whole)
            ew = float(400 * EPS * f.singular_values[0] + 4 * n ** .5 * EPS * N.abs(whole).max() * (20 + 5 * n ** .5))
            m.close(gs.singular_values, f.singular_values, ew, "pieces_of_one_plane")
            m.close(gs.center, f.center, EPS * N.abs(whole).max() * (20 + n), "pieces_of_one_plane_center")
            sw = f.singular_values
            if sw[1] - sw[2] > 1e4 * ew and sw[2] < .7 * sw[1]:
                m.close(ref.line_angle(gs.normal, f.normal), 0, 40 * ew / (sw[1] - sw[2]) + 1e-13, "pieces_of_one_plane_normal")
    if rng.random() < .4:
        weighted(m, rng, cs, one)
    if len(cs) > 2 and rng.random() < .5:
        several(m, rng, cs, one)
    if len(cs) == 1:
        f = Orientation(cs[0].arr)
        m.close(g.singular_values, f.singular_values, 4 * e, "group_of_one")
    m.nontrivial(len(cs), one, route, same_att, bucket(n, [4, 10, 50, 200]), cs[0].kind, cs[0].dtype, cs[0].memory, int(cs[0].strike // 45))
    m.state("members", len(cs), "one plane" if one else "beds", route)


def weighted(m, rng, cs, one):
    """Weights are handed on to the joint fit."""
    if any(c.dtype == "float32" for c in cs):
        return
    w = 10 ** rng.uniform(-1, 1, 3) if rng.random() < .8 else N.full(3, float(10 ** rng.uniform(-1, 1)))
    keep = w.copy()
    fits = [Orientation(c.arr) for c in cs]
    if rng.random() < .5:
        g = GroupedOrientation(*fits, weights=w, same_plane=one)
    else:
        g = create_groups(list(fits), [f.hash for f in fits], same_plane=one, weights=w)[-1]
    raw = [N.asarray(c.arr, float) for c in cs]
    stack = N.vstack(raw) if one else N.vstack([N.asarray(ref.center(c.arr)[1], float) for c in cs])
    n = len(stack)
    f = Orientation(stack, weights=w)
    big = max(float(N.abs(a).max()) for a in raw)
    e = float(400 * EPS * f.singular_values.max() + 4 * n ** .5 * EPS * big * (20 + 5 * n ** .5)) * float(w.max() / w.min())
    m.close(g.singular_values, f.singular_values, 4 * e, "weighted_group_loadings", "weights %s" % w)
    m.ok(N.array_equal(w, keep), "weights_untouched")
    # the decomposition is that of the weighted data, whose loadings are those divided by the weights
    s = N.sort(N.asarray(f.singular_values / w, float))[::-1]
    ew = e / float(w.min())
    if s[1] - s[2] > 1e4 * ew and s[2] < .7 * s[1]:
        m.close(ref.line_angle(g.axes[2], f.axes[2]), 0, 40 * ew / (s[1] - s[2]) + 1e-12, "weighted_group_normal", "weights %s" % w)
        m.state("weighted", len(cs), "one plane" if one else "beds")


def several(m, rng, cs, one):
    """Several groups asked for at once are each what they would be alone, with the same options."""
    fits = [Orientation(c.arr) for c in cs]
    ids = [int(i) for i in rng.permutation(len(fits))]
    cuts = sorted(int(i) for i in rng.choice(N.arange(1, len(fits)), int(rng.integers(1, min(3, len(fits) - 1) + 1)), replace=False))
    parts = [ids[a:b] for a, b in zip([0] + cuts, cuts + [len(ids)])]
    kw = dict(same_plane=one)
    if rng.random() < .5 and all(c.dtype == "float64" for c in cs):
        kw["weights"] = 10 ** rng.uniform(-1, 1, 3)
    out = create_groups(list(fits), *[[fits[i].hash for i in p] for p in parts], **kw)
    m.ok(len(out) == len(fits) + len(parts), "groups_made", "%d of %d" % (len(out) - len(fits), len(parts)))
    for g, p in zip(out[len(fits):], parts):
        alone = GroupedOrientation(*[Orientation(cs[i].arr) for i in p], **kw)
        s = N.asarray(alone.singular_values, float)
        for x, y in ((g.singular_values, s), (g.center, alone.center), (g.hyperbolic_axes, alone.hyperbolic_axes), (g.angular_errors(), alone.angular_errors()), (g.centered_array, alone.centered_array)):
            m.close(x, y, 1e-9 * float(N.abs(y).max()) + 1e-300, "each_group_as_if_alone", "%s of %s" % (p, parts))
        if s[1] - s[2] > 1e-6 * s[0]:
            m.close(ref.line_angle(g.axes[2], alone.axes[2]), 0, 1e-6, "each_group_as_if_alone")
    m.state("groups at once", len(parts), "one plane" if one else "beds", "weights" in kw)

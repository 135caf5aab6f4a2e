"""C11: exports are strict JSON and say exactly what the plane says."""
from common import *
import json
from attitude import Orientation, ReconstructedPlane, create_groups
from attitude.orientation.grouped import GroupedOrientation, disable_orientations
from attitude.error import pca_to_mapping
from attitude.error import axes as E

RULE = ("single fits (all number types, degenerate and exactly planar ones), weighted and recovered fits, groups and members, disabled planes and reconstructed planes, exported with and without caller-supplied values "
        "(additions, overrides, unicode, nested), through json with NaN forbidden; non-trivial = every exported field compared bit for bit with the plane's own answers and with independent formulas; distinct by plane class and options")
CASES = dict(quick=6000, thorough=100000)
FILES = ["orientation/base.py", "orientation/pca.py", "orientation/grouped.py"]

WORDS = ["bed", "Ö\u2028x", "a\"b'c", "</script>", "\\n", "", "tab\t", "\U0001f600", "<<<data>>>", "null"]


def strict(m, mp, what):
    try:
        t = json.dumps(mp, allow_nan=False)
    except (ValueError, TypeError) as e:
        m.fail("strict_json", "%s: %s" % (what, e), mapping=repr(mp)[:800])
    m.counts["strict_json"] = m.counts.get("strict_json", 0) + 1
    b = json.loads(t)
    m.ok(json.loads(json.dumps(b)) == b, "reads_back")
    return b


def same(m, got, want, label):
    """The same doubles after the trip through text (recomputed vector results may differ in the last bit)."""
    g = N.asarray(got, dtype=float)
    w = N.asarray(want, dtype=float)
    m.ok(g.shape == w.shape and (N.abs(g - w) <= 4e-15 * N.abs(w)).all(), label, "%s exported, plane says %s" % (got if g.size < 12 else "...", want if w.size < 12 else "..."))


FIELDS = {"uid", "axes", "hyperbolic_axes", "max_angular_error", "min_angular_error", "strike", "dip", "rake", "disabled"}


def check_common(m, f, b, over=()):
    m.ok(FIELDS <= set(b), "all_fields_present", "missing %s" % (FIELDS - set(b)))
    m.ok("uid" in over or b["uid"] == f.hash, "uid")
    if "axes" not in over:
        same(m, b["axes"], f.axes, "axes")
    if "hyperbolic_axes" not in over:
        same(m, b["hyperbolic_axes"], f.hyperbolic_axes, "hyperbolic_axes")
    s, d, r = f.strike_dip_rake()
    mn, mx = f.angular_errors()
    for k, v in dict(strike=s, dip=d, rake=r, min_angular_error=mn, max_angular_error=mx).items():
        if k not in over:
            same(m, b[k], v, k)
    if "disabled" not in over:
        m.ok(b["disabled"] is bool(f.disabled), "disabled", "%r" % b["disabled"])


def check_pca(m, f, b, over=()):
    check_common(m, f, b, over)
    # independent reading of the same numbers
    A = N.asarray(b["axes"], L)
    if "axes" not in over:
        m.close(A @ A.T, N.eye(3), 1e-12, "exported_axes_orthonormal")
        n = A[2] if A[2][2] >= 0 else -A[2]
        if "strike" not in over and "dip" not in over:
            rs, rd = ref.strike_dip(n)
            m.close(b["dip"], rd, 4e-6, "exported_dip_matches_axes")
            h = float(N.hypot(n[0], n[1]))
            if h > 1e-9:
                m.close(ref.mod_diff(b["strike"], rs, 360 if rd < 90 - 1e-9 else 180), 0, 1e-9 + 1e-13 / h, "exported_strike_matches_axes")
    if not {"hyperbolic_axes", "min_angular_error", "max_angular_error"} & set(over):
        H = N.asarray(b["hyperbolic_axes"], L)
        m.close([b["min_angular_error"], b["max_angular_error"]], N.degrees(N.arctan2(N.sqrt(H[2]), N.sqrt(H[:2]))), 1e-9, "exported_errors_match_axes")
    if "center" not in over:
        same(m, b["center"], f.center, "center")


def extras(rng):
    out = {}
    for _ in range(int(rng.integers(0, 4))):
        k = str(rng.choice(["name", "color", "note", "tags", "nested", "disabled", "strike", "center", "centered_array", "uid", "axes", "rake", "member_of"]))
        out[k] = {"tags": ["a", 1, None], "nested": {"a": [1, {"b": 2.5}]}, "disabled": bool(rng.random() < .5), "strike": 12.5,
                  "center": [1., 2., 3.], "centered_array": None, "rake": None, "member_of": None, "axes": [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}.get(k, str(rng.choice(WORDS)))
    return out


def run_case(m, rng, idx):
    u = rng.random()
    big = gen.big(idx, 211)
    if big:
        u = 1
    if u < .25:
        return reconstructed(m, rng)
    if u < .55:
        return grouped(m, rng)
    c = gen.cloud(rng, hi=300, extreme=.1, n=big)
    m.note(**gen.describe(c))
    f = Orientation(c.arr, weights=rng.uniform(.5, 2, 3)) if rng.random() < .15 and c.dtype == "float64" else Orientation(c.arr)
    if rng.random() < .2 and f.singular_values.min() > 0:
        f = Orientation(c.arr, axes=f.principal_axes)
    if rng.random() < .2:
        f.disabled = True
    if rng.random() < .3:
        f.to_mapping()
    f = lived(rng, m, f)
    group = f.member_of
    b = strict(m, f.to_mapping(), "single")
    check_pca(m, f, b)
    same(m, b["centered_array"], f.centered_array, "centered_array")
    delta = precision(c)[0]
    pts = N.asarray(b["centered_array"], L) + N.asarray(b["center"], L)
    m.close(pts, N.asarray(c.arr).astype(L), 2 * delta, "export_reproduces_the_points")
    m.ok(b.get("member_of") == (None if group is None else group.hash), "membership", "%s" % b.get("member_of"))
    m.ok("members" not in b, "not_a_group")
    ex = extras(rng)
    keep = json.dumps(ex, sort_keys=True)
    b2 = strict(m, f.to_mapping(**ex), "with values")
    for k, v in ex.items():
        if k == "member_of" and group is not None:
            continue    # membership is the group's to say
        m.ok(b2[k] == json.loads(json.dumps(v)), "caller_values_override", "%s=%r" % (k, b2.get(k)))
    m.ok(json.dumps(ex, sort_keys=True) == keep, "caller_values_untouched")
    check_pca(m, f, b2, set(ex))
    m.ok(set(b2) == set(b) | set(ex), "no_other_keys", "%s" % (set(b2) ^ set(b)))
    b3 = strict(m, f.to_mapping(), "again")
    m.ok(b3 == b, "export_has_no_memory")
    mp = f.to_mapping()
    mp["axes"][0][0] = 99.
    mp["center"][0] = 1e9
    if mp["centered_array"]:
        mp["centered_array"][0][0] = 1e9
    m.ok(strict(m, f.to_mapping(), "after edit") == b, "editing_an_export_leaves_the_plane")
    # another plane, another identifier
    k = int(rng.integers(4))
    t = float(rng.uniform(.02, 1.5)) if rng.random() < .4 else float(10 ** rng.uniform(-11, -1))
    if k == 0:
        R = N.array([[N.cos(t), -N.sin(t), 0], [N.sin(t), N.cos(t), 0], [0, 0, 1]])
        g = Orientation(N.asarray(f.centered_array, float) @ R.T)
    elif k == 1:
        g = Orientation(N.asarray(f.centered_array, float) * (1 + t))
    elif k == 2:
        e = N.asarray(f.centered_array, float)
        g = Orientation(e + N.outer(e @ f.axes[0], t * f.axes[2]))
    else:
        e = N.asarray(f.centered_array, float)
        g = Orientation(e + N.outer(e @ f.axes[2], (t if t < .02 else 1 + t) * f.axes[2])) if f.singular_values[2] > 1e-9 * f.singular_values[0] else None
    if g is not None and f.singular_values[0] > 0 and N.abs(g.principal_axes - f.principal_axes).max() > 1e-12 * f.singular_values[0]:
        m.state("identifier_change", k, int(N.log10(t)))
        m.ok(g.hash != f.hash, "different_planes_have_different_identifiers", "change %d by %g" % (k, t))
    # exports follow the plane: disabled, enabled, taken into a group and exported again
    was = f.disabled
    for flag in (not was, bool(rng.random() < .5)):
        f.disabled = flag
        bf = strict(m, f.to_mapping(), "after marking")
        m.ok(bf["disabled"] is flag, "disabled_follows", "%r, marked %r" % (bf["disabled"], flag))
        m.ok({k: v for k, v in bf.items() if k != "disabled"} == {k: v for k, v in b.items() if k != "disabled"}, "marking_changes_nothing_else")
    if rng.random() < .3:
        g1 = GroupedOrientation(f, Orientation(N.asarray(f.array, float)[::-1] * [1, 1, -1] + 1.))
        bg = strict(m, f.to_mapping(), "after grouping")
        m.ok(bg.get("member_of") == g1.hash, "membership_follows", "%s expected %s" % (bg.get("member_of"), g1.hash))
        m.ok({k: v for k, v in bg.items() if k not in ("disabled", "member_of")} == {k: v for k, v in b.items() if k not in ("disabled", "member_of")}, "grouping_changes_nothing_else")
    # compact export
    name = str(rng.choice(WORDS))
    compact = [("default", {}, E.sampling_axes), ("noise", dict(method=E.noise_axes), E.noise_axes),
               ("variance", dict(method=E.variance_axes), E.variance_axes)]
    for nm, kw, fn in compact:
        p = strict(m, pca_to_mapping(f, name=name, **kw), "compact")
        same(m, p["axes"], f.axes, "compact_axes")
        same(m, p["covariance"], fn(f), "compact_error_axes_" + nm)
        m.ok(p["name"] == name and set(p) == {"axes", "covariance", "name"}, "compact_fields", str(sorted(p)))
    m.nontrivial("single", tuple(sorted(ex)), bool(f.disabled), *signature(c))
    m.state("kind", "single"); m.state("dtype", c.dtype)


def grouped(m, rng):
    fits = []
    k = int(rng.integers(2, 7))
    while len(fits) < k:
        c = gen.cloud(rng, n=int(rng.integers(3, 30)), dtypes=False, scale=100.)
        f = Orientation(c.arr)
        if f.hash not in [x.hash for x in fits]:
            fits.append(f)
    ids = [f.hash for f in fits]
    order = [ids[i] for i in rng.permutation(k)]
    cut = int(rng.integers(1, k))
    one = bool(rng.random() < .3)
    req = [order[:cut]] + ([order[cut:]] if rng.random() < .5 else [])
    out = create_groups(list(fits), *req, same_plane=one)
    m.note(members=k, requested=req)
    dis = [str(x) for x in rng.choice(ids, int(rng.integers(0, 3)), replace=False)]
    disable_orientations(out, *dis)
    maps = [strict(m, o.to_mapping(name=str(rng.choice(WORDS))), "grouped") for o in out]
    groups = [(o, b) for o, b in zip(out, maps) if hasattr(o, "members")]
    m.ok(len(groups) == len(req), "groups_exported")
    for (o, b), r in zip(groups, req):
        check_pca(m, o, b)
        m.ok(b["members"] == list(r), "group_exports_member_ids", "%s expected %s" % (b.get("members"), r))
        m.ok(b.get("member_of") is None, "group_is_no_member")
        m.ok(b["centered_array"] is None, "group_points_not_repeated")
        b2 = strict(m, o.to_mapping(centered_array=o.centered_array.tolist()), "group with points")
        same(m, b2["centered_array"], o.centered_array, "group_points_on_request")
    for o, b, uid in zip(out, maps, ids):
        check_pca(m, o, b)
        m.ok(b["uid"] == uid, "member_uid")
        g = [x for x, r in zip(groups, req) if uid in r]
        if g:
            m.ok(b["member_of"] == g[0][0].hash == g[0][1]["uid"], "member_exports_group_id", "%s" % b.get("member_of"))
        else:
            m.ok(b.get("member_of") is None, "free_plane_has_no_group")
        m.ok(b["disabled"] is (uid in dis), "disabled_exported", "%s" % uid)
        same(m, b["centered_array"], o.centered_array, "member_points")
    # all links resolve within the export
    uids = [b["uid"] for b in maps]
    for b in maps:
        for x in (b.get("members") or []) + ([b["member_of"]] if b.get("member_of") else []):
            m.ok(x in uids, "links_resolve", x)
    m.nontrivial("group", k, cut, len(req), one, len(dis))
    m.state("kind", "group")


def reconstructed(m, rng):
    s, d = gen.attitude(rng)
    r = float(rng.uniform(0, 180)) if rng.random() < .8 else float(rng.choice([0, 45, 90, 135, 180]))
    e1 = float(rng.uniform(.01, 30))
    e2 = float(rng.uniform(e1, 120))
    if rng.random() < .3:
        s, d, r = round(s), round(d), round(r)
    m.note(strike=s, dip=d, rake=r, errors=[e1, e2])
    kw = dict(normal_error=float(10 ** rng.uniform(-3, 3))) if rng.random() < .5 else {}
    p = ReconstructedPlane(s, d, r, e1, e2, **kw)
    if rng.random() < .2:
        p.disabled = True
    ex = extras(rng)
    b = strict(m, p.to_mapping(**ex), "reconstructed")
    check_common(m, p, b, set(ex))
    for k, v in ex.items():
        m.ok(b[k] == json.loads(json.dumps(v)), "caller_values_override", k)
    for k, v in dict(strike=s, dip=d, rake=r, min_angular_error=e1, max_angular_error=e2).items():
        if k not in ex:
            same(m, b[k], v, "reconstructed_" + k)
    m.ok(ReconstructedPlane(s, d, r, e1, e2, **kw).hash == p.hash, "same_plane_same_identifier")
    t = float(rng.uniform(1, 20)) if rng.random() < .5 else float(10 ** rng.uniform(-5, 0))
    others = [ReconstructedPlane(s, d - t if d > 45 else d + t, r, e1, e2, **kw), ReconstructedPlane(s, d, r, e1 * (1 + .01 * t), e2, **kw),
              ReconstructedPlane(s, d, r, e1, e2 * (1 + .01 * t), **kw), ReconstructedPlane(s + t, d, r, e1, e2, **kw), ReconstructedPlane(s, d, r + t, e1, e2, **kw)]
    m.ok(len({p.hash} | {o.hash for o in others}) >= 6 - (d < 1e-3), "different_planes_have_different_identifiers", str([p.hash] + [o.hash for o in others]))
    m.nontrivial("reconstructed", int(s // 45), bucket(d, [1e-9, 1, 45, 89, 89.999]), int(r // 45), tuple(sorted(ex)))
    m.state("kind", "reconstructed")

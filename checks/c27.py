"""C27: side views of the front end."""
import math, re
from matplotlib.colors import to_rgb
from common import *
import frontend
from surfaces import moved, vertices
from attitude import Orientation

RULE = ("planes exported by real fits and synthetic ones (every attitude, horizontal, near-vertical, upside down), viewed from every azimuth with random scales, offsets, groups and reference frames, through the front-end sources bundled from the tree and run by a JavaScript engine with recording stand-ins for browser elements; drawn positions, angles and lines are compared with the plane's trace computed from its normal; distinct by mode, attitude octant and view octant")
CASES = dict(quick=60000, thorough=800000)
FILES = []
ASSUMPTIONS = ["the sources are bundled with the d3 and mathjs builds kept in the repository; browser elements and the rotation library are replaced by stand-ins"]

frontend.build("server.js", "side.js")


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def plane(rng):
    u = rng.random()
    if u < .25:
        c = gen.cloud(rng, lo=5, hi=40, noise=.02, dtypes=False)
        f = Orientation(c.arr)
        mp = f.to_mapping()
        ax, h = N.array(mp["axes"], float), N.array(mp["hyperbolic_axes"], float)
        if N.isfinite(h).all() and h.min() > 1e-9 * h.max():
            return "export", ax, h
    q, _ = N.linalg.qr(rng.normal(size=(3, 3)))
    kind = "random"
    if u > .85:
        kind = ["horizontal", "steep", "cardinal"][int(rng.integers(3))]
        a = rng.uniform(0, 2 * math.pi)
        if kind == "horizontal":
            q = N.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])
        elif kind == "steep":
            t = 10 ** rng.uniform(-4, -1)
            n = N.array([math.cos(a) * math.cos(t), math.sin(a) * math.cos(t), math.sin(t)])
            s = N.array([-math.sin(a), math.cos(a), 0])
            q = N.array([s, N.cross(n, s), n])
        else:
            d, k = rng.uniform(.05, 1.5), int(rng.integers(4))
            s = N.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]][k], float)
            n = math.sin(d) * N.array([s[1], -s[0], 0]) + math.cos(d) * N.array([0, 0, 1])
            q = N.array([s, N.cross(n, s), n])
    q = q * rng.choice([-1, 1], 3)[:, None]
    h = N.sort(10 ** rng.uniform(-2, 2, 3))[::-1].copy()
    return kind, q, h


def slope(n, view):
    """dz/dx of the trace in the section whose horizontal axis is (cos view, sin view)."""
    return -(n[0] * math.cos(view) + n[1] * math.sin(view)) / n[2]


def check_transform(m, t, n, off, view, xs, ys):
    M = moved(t)
    m.ok(M is not None and (t or "").strip(), "transform_syntax", repr(t))
    x, y = M[:2, 2]
    px = xs[0] * (off[0] * math.cos(view) + off[1] * math.sin(view)) + xs[1]
    py = ys[0] * off[2] + ys[1]
    tol = 1e-12 * (1 + abs(xs[0]) * (abs(off[0]) + abs(off[1])) + abs(ys[0] * off[2]) + abs(xs[1]) + abs(ys[1]))
    m.close([x, y], [px, py], tol, "centre_at_its_section_coordinates")
    want = N.array([xs[0], ys[0] * slope(n, view)])
    want /= N.linalg.norm(want)
    d = M[:2, 0] / N.linalg.norm(M[:2, 0])
    m.close(M[:2, :2] @ M[:2, :2].T, N.eye(2), 1e-9, "neither_stretched_nor_mirrored", repr(t))
    m.ok(N.linalg.det(M[:2, :2]) > 0, "neither_stretched_nor_mirrored", repr(t))
    cross = d[0] * want[1] - d[1] * want[0]
    m.close(cross, 0, 1e-7 if abs(n[2]) < 1e-3 else 1e-9, "line_along_the_trace", repr(t))


def run_case(m, rng, idx):
    mode = ["dip", "apparent", "transform", "digitized", "line", "hyperbola", "data", "angle", "apparent", "transform"][idx % 10]
    if idx % 50 == 9:
        return component(m, rng)
    kind, ax, h = plane(rng)
    n = ax[2]
    view = float(rng.uniform(-4 * math.pi, 4 * math.pi)) if rng.random() < .8 else float(rng.integers(-4, 5)) * math.pi / 2
    m.note(mode=mode, kind=kind, axes=ax, h=h, view=view)
    m.nontrivial(mode, kind, tuple(N.sign(N.round(n, 12))), int((view % (2 * math.pi)) // (math.pi / 4)), bool(abs(view) > math.pi))
    m.state("mode", mode, kind)
    data = dict(axes=ax.tolist(), hyperbolic_axes=h.tolist(), color="red", in_group=bool(rng.random() < .5), center=rng.normal(size=3).tolist())
    off = (rng.normal(size=3) * 10 ** rng.uniform(-2, 3)).tolist()
    xs = [float(10 ** rng.uniform(-2, 2)), float(rng.normal() * 300)]
    ys = [-float(10 ** rng.uniform(-2, 2)) if rng.random() < .8 else float(10 ** rng.uniform(-2, 2)), float(rng.normal() * 300)]
    if mode in ("dip", "apparent"):
        # scaled axes describe the same plane
        if rng.random() < .3:
            data["axes"] = (ax * (10 ** rng.uniform(-2, 2, 3))[:, None]).tolist()
        az = [float(a) for a in rng.uniform(-10, 10, 6)] + [0., math.pi / 2, math.pi, -math.pi / 2, math.atan2(n[0], n[1])]
        r = frontend.ask(m, "planedata", data, None, az)
        m.ok(r["same"], "data_untouched")
        dip, dd = r["dip"]
        m.ok(r["dip"] == r["dip2"], "repeatable")
        got = [math.sin(dip) * math.sin(dd), math.sin(dip) * math.cos(dd), math.cos(dip)]
        m.close(got, n, 4e-8, "dip_and_direction_of_the_plane")
        m.ok(-math.pi <= dd <= math.pi and 0 <= dip <= math.pi, "dip_range")
        if n[2] > 0:
            m.ok(dip <= math.pi / 2 + 1e-12, "dip_at_most_vertical")
        for a, d in zip(az, r["apparent"]):
            want = math.atan(-slope(n, math.pi / 2 - a))
            m.close(d, want, 1e-6, "apparent_dip", "azimuth %g" % a)
        if n[2] > 0:
            m.close(r["apparent"][-1], dip, 1e-6, "apparent_dip_down_dip_is_the_dip")
            m.ok(max(map(abs, r["apparent"])) <= dip + 1e-6, "apparent_dip_at_most_true_dip")
    elif mode == "transform":
        g, gn = None, n
        if rng.random() < .4:
            _, gax, gh = plane(rng)
            g = dict(axes=gax.tolist(), hyperbolic_axes=gh.tolist())
            gn = gax[2]
        t = frontend.ask(m, "transform", data, off, view, xs, ys, g)["t"]
        check_transform(m, t, gn, off, view, xs, ys)
    elif mode == "digitized":
        k = int(rng.integers(1, 20))
        pts = rng.normal(size=(k, 3)) * 10 ** rng.uniform(-2, 3)
        data["centered_array"] = pts.tolist()
        A = None
        R = N.eye(3)
        if rng.random() < .6:
            q, _ = N.linalg.qr(rng.normal(size=(3, 3)))
            A, R = q.tolist(), q.T
        r = frontend.ask(m, "digitized", data, off, view, A)
        w = (pts + N.array(off)) @ R
        want = N.array([w[:, 0] * math.cos(view) + w[:, 1] * math.sin(view), w[:, 2]]).T
        m.close(r["got"], want, 1e-12 * (1 + N.abs(w).max()), "projected_line")
        m.ok(r["d"] == "path", "line_generator_used")
        # the line of an in-plane trace has the slope of the apparent dip
    elif mode == "line":
        width = None if rng.random() < .5 else float(rng.uniform(10, 1000))
        a = frontend.ask(m, "apparentLine", data, off, view, xs, ys, width)
        w = width or 400
        m.close([float(a["x1"]), float(a["x2"])], [-w / 2, w / 2], 1e-9, "line_extent")
        check_transform(m, a["transform"], n, off, view, xs, ys)
    elif mode == "hyperbola":
        if rng.random() < .4:
            h[0] = h[1]
            data["hyperbolic_axes"] = h.tolist()
        nooff = rng.random() < .2
        opts = {}
        if rng.random() < .5:
            opts["width"] = float(rng.uniform(10, 1000))
        if rng.random() < .5:
            opts["nominal"] = True
        R = N.eye(3)
        if rng.random() < .2:
            R, _ = N.linalg.qr(rng.normal(size=(3, 3)))
        r = frontend.ask(m, "hyperbola", data, None if nooff else off, view, R.tolist(), xs, ys, opts)
        check_transform(m, r["one"]["attrs"]["transform"], n, [0, 0, 0] if nooff else (N.array(off) @ R).tolist(), view, xs, ys)
        m.ok(r["one"]["attrs"]["transform"] == r["two"]["attrs"]["transform"], "redraw_same_place")
        tags = lambda x: sorted((k["tag"], tuple(k["cls"])) for k in x["kids"])
        m.ok(tags(r["one"]) == tags(r["two"]), "redraw_adds_nothing", "%s %s" % (tags(r["one"]), tags(r["two"])))
        m.ok(("line", ("nominal",)) in tags(r["one"]) or not opts.get("nominal"), "nominal_line_drawn")
        m.ok("in_group" in r["one"]["cls"] or not data["in_group"], "group_member_marked")
        P = N.array(r["poly"])
        s = N.sqrt(h)
        m.close(P[:, 1].sum(), 0, 1e-9 * N.abs(P).max(), "hyperbola_symmetric")
        mid = P[N.abs(P[:, 0]) < 1e-12]
        m.close(N.sort(mid[:, 1]), [-s[2], s[2]], 1e-9 * s[2], "hyperbola_apex_is_the_normal_error")
        far = P[N.abs(P[:, 0]) == N.abs(P[:, 0]).max()]
        m.ok(len(far) == 4 and len(set(map(tuple, N.sign(far)))) == 4, "hyperbola_four_arms")
        ang = N.abs(far[:, 1] / far[:, 0])
        m.close(ang, ang[0], 1e-9 * ang[0], "hyperbola_arms_alike")
        lo, hi = s[2] / max(s[:2]), s[2] / min(s[:2])  # (real exports may have them unsorted)
        m.ok(lo * (1 - 1e-9) <= ang[0] <= hi * (1 + 1e-9), "hyperbola_opens_between_min_and_max_error", "%g not in [%g, %g]" % (ang[0], lo, hi))
    elif mode == "data":
        k = int(rng.integers(1, 30))
        arr = rng.normal(size=(k, 3)) * 10 ** rng.uniform(-1, 3) + rng.normal(size=3) * 10 ** rng.uniform(0, 6)
        big = N.abs(arr).max()
        d = dict(axes=ax.tolist(), hyperbolic_axes=h.tolist())
        have = [bool(rng.random() < .5) for i in range(4)]
        mean = None
        want = None
        if have[3]:
            d["extracted"] = arr.tolist()
            want = arr.mean(axis=0)
        if have[1]:
            d["center"] = (arr.mean(axis=0) + rng.normal(size=3)).tolist()
            want = d["center"]
        if have[2]:
            d["mean"] = (arr.mean(axis=0) + rng.normal(size=3)).tolist()
            want = d["mean"]
        if have[0]:
            mean = (arr.mean(axis=0) + rng.normal(size=3)).tolist()
            want = mean
        cen = None
        if rng.random() < .4:
            # as given, also when it is a thinned or a longer set
            cen = rng.normal(size=(k if rng.random() < .5 else int(rng.integers(1, 40)), 3)).tolist()
            d["centered_array"] = cen
        elif have[3]:
            cen = arr - N.array(want)
        r = frontend.ask(m, "planedata", d, mean, [])
        m.ok(r["same"] and r["data"], "data_untouched")
        if want is not None:
            m.close(r["mean"], want, 1e-13 * big * 3, "centre_as_given_or_mean_of_points")
        if cen is not None:
            m.close(r["centered"], cen, 1e-12 * big * 3, "centred_points")
        m.ok(r["axes"] == d["axes"] and r["lengths"] == d["hyperbolic_axes"] and r.get("array") == d.get("extracted"), "fields_as_given")
        m.state("data", *have)
    else:
        for a in list(rng.uniform(-40, 40, 5)) + [0, math.pi / 2, -math.pi / 2]:
            r = frontend.ask(m, "call", "hyperbola.fixAngle", float(a))["r"]
            m.ok(-math.pi - 1e-12 <= r <= math.pi + 1e-12, "angle_range", "%r" % r)
            d = (r - a) / (2 * math.pi)
            m.close(d, round(d), 1e-12, "angle_equivalent")


def rgb(s):
    f = re.match(r"rgba?\(\s*([\d.]+)\s*,\s*([\d.]+)\s*,\s*([\d.]+)", s or "")
    return tuple(round(float(x)) for x in f.groups()) if f else tuple(round(255 * x) for x in to_rgb(s))


def component(m, rng):
    """The side view of a set of measurements and groups."""
    k = int(rng.integers(2, 7))
    spread = float(10 ** rng.uniform(0, 3))
    mid = rng.normal(size=3) * 10 ** rng.uniform(0, 5)
    flat = rng.random() < .15
    data = []
    colour = ["red", "#123456", "dodgerblue", "#abc"]

    def new(uid, **kw):
        kind, ax, h = plane(rng)
        c = mid + rng.normal(size=3) * spread * [1, 1, .01 if flat else .5]
        d = dict(uid=uid, axes=ax.tolist(), hyperbolic_axes=h.tolist(), center=c.tolist(), color=str(rng.choice(colour)), **kw)
        if rng.random() < .7:
            d["centered_array"] = (rng.normal(size=(int(rng.integers(2, 12)), 3)) * spread / 20).tolist()
        return d
    for i in range(k):
        data.append(new("m%d" % i))
    free = [int(i) for i in rng.permutation(k)]
    while len(free) > 1 and rng.random() < .6:
        n = min(len(free), int(rng.integers(2, 4)))
        part, free = free[:n], free[n:]
        g = new("g%d" % len(data), members=[data[i]["uid"] for i in part])
        for i in part:
            data[i]["member_of"] = g["uid"]
        data.append(g)
    if free and rng.random() < .2:
        data[free[0]]["member_of"] = "elsewhere"
    if rng.random() < .4:
        data = [data[i] for i in rng.permutation(len(data))]
    by = {d["uid"]: d for d in data}
    single = [d["uid"] for d in data if "members" not in d]
    views = []
    for _ in range(int(rng.integers(1, 5))):
        az = float(rng.uniform(-7, 7)) if rng.random() < .8 or not views else views[-1][0]
        hov = None if rng.random() < .2 else [str(u) for u in rng.permutation(list(by))[:int(rng.integers(0, 4))]]
        views.append([az, hov, int(rng.integers(9)) if rng.random() < .4 else None])
    m.note(component=data, views=views)
    cen = N.array([by[u]["center"] for u in single])
    middle = (cen.min(axis=0) + cen.max(axis=0)) / 2
    off = dict(zip(single, cen - middle))
    for (az, hov, over), r in zip(views, frontend.ask(m, data, views, entry="side.js")):
        view = az - math.pi / 2
        m.ok(len(r["svgs"]) == 1, "one_view")
        w, h = [float(x) for x in r["svgs"][0]]
        m.ok(sorted(x["uid"] for x in r["single"]) == sorted(single), "every_measurement_once", str([x["uid"] for x in r["single"]]))
        member = [u for u in single if by[u].get("member_of") in by]
        m.ok(sorted(x["uid"] for x in r["grouped"]) == sorted(by[u]["member_of"] for u in member), "every_member_as_its_group", str([x["uid"] for x in r["grouped"]]))
        m.ok(sorted(x["uid"] for x in r["traces"]) == sorted(u for u in single if by[u].get("centered_array") is not None), "every_digitised_line_once", str([x["uid"] for x in r["traces"]]))
        # one scale for both directions, that of the elevation axis
        tick = [(float(a.replace("\u2212", "-")), moved(b)[1, 2]) for a, b in r["elevation"]]
        m.ok(len(tick) > 1 or spread < 8, "elevation_axis", str(tick))
        pos = {}
        for x in r["single"]:
            M = moved(x["transform"])
            m.ok(M is not None and N.isfinite(M).all(), "drawn_somewhere", str(x["transform"]))
            pos[x["uid"]] = M[:2, 2]
        sec = {u: N.array([o[0] * math.cos(view) + o[1] * math.sin(view), o[2]]) for u, o in off.items()}
        u1 = max(single, key=lambda u: N.abs(sec[u]).max())
        u2 = max(single, key=lambda u: N.abs(sec[u] - sec[u1]).max())
        i = int(N.argmax(N.abs(sec[u2] - sec[u1])))
        if N.abs(sec[u2] - sec[u1])[i] < 1e-3 * N.abs(cen - middle).max():
            continue
        scale = (pos[u2] - pos[u1])[i] / (sec[u2] - sec[u1])[i] * (1, -1)[i]
        m.ok(scale > 0, "scale", "%g" % scale)
        xs = [scale, pos[u1][0] - scale * sec[u1][0]]
        ys = [-scale, pos[u1][1] + scale * sec[u1][1]]
        for u in single:
            m.close(pos[u], [xs[0] * sec[u][0] + xs[1], ys[0] * sec[u][1] + ys[1]], 1e-6 * w, "true_scale_both_ways", "%s of %s" % (u, sec))
            m.ok(-1 <= pos[u][0] <= w + 1 and -1 <= pos[u][1] <= h + 1, "inside_the_frame", "%s at %s" % (u, pos[u]))
        away = {u: off[u][1] * math.cos(view) - off[u][0] * math.sin(view) for u in single}
        seq = [away[x["uid"]] for x in r["single"]]
        m.ok(all(a >= b - 1e-9 * (1 + spread) for a, b in zip(seq, seq[1:])), "nearer_over_farther", "depths %s" % seq)
        for a, y in tick:
            m.close(y, ys[0] * (a - middle[2]) + ys[1], .5 + .51 * scale, "elevation_axis_reads_elevation", "label %g" % a)
        tol = lambda d: 1e-6 if abs(d["axes"][2][2]) < 1e-3 else 1e-8

        def at(t, u, d, label):
            M = moved(t)
            m.ok(M is not None, "drawn_somewhere", str(t))
            m.close(M[:2, 2], pos[u], 1e-6 * w, label + "_at_its_centre")
            q = N.array([1, -slope(d["axes"][2], view)])
            q /= N.linalg.norm(q)
            e = M[:2, 0] / N.linalg.norm(M[:2, 0])
            m.close(e[0] * q[1] - e[1] * q[0], 0, tol(d), label + "_along_the_trace", "%s of %s" % (t, d["uid"]))
        for x in r["single"]:
            d = by[x["uid"]]
            at(x["transform"], x["uid"], d, "measurement")
            s = N.sqrt(d["hyperbolic_axes"])
            m.ok(len(x["poly"]) == 1 and x["visibility"] != "hidden", "one_hyperbola_each")
            P = vertices(x["poly"][0]["d"])
            m.close(N.sort(P[N.abs(P[:, 0]) < 1e-9][:, 1]), N.array([-s[2], s[2]]) * scale, 1e-6 * s[2] * scale + 1e-9, "hyperbola_apex_is_the_normal_error")
            m.ok(("in-group" in x["cls"]) == (x["uid"] in member), "members_marked", str(x["cls"]))
        left = list(member)
        for x in r["grouped"]:
            M = moved(x["transform"])
            m.ok(M is not None, "drawn_somewhere", str(x["transform"]))
            mine = [u for u in left if by[u]["member_of"] == x["uid"]]
            u = min(mine, key=lambda u: N.abs(pos[u] - M[:2, 2]).max())
            left.remove(u)
            at(x["transform"], u, by[x["uid"]], "group")
        for x in r["traces"]:
            d = by[x["uid"]]
            p = by[d["member_of"]] if x["uid"] in member else d
            at(x["transform"], x["uid"], p, "line")
            P = vertices(x["d"])
            A = N.array(d["centered_array"]) @ N.array(p["axes"]).T
            m.ok(len(P) == len(A), "line_complete", "%d of %d" % (len(P), len(A)))
            m.close(P[:, 1], -scale * A[:, 2], 1e-6 * (1 + scale * N.abs(A).max()), "line_off_the_plane_as_digitised")
            if hov is not None:
                m.ok((rgb(x["stroke"]) == rgb(d["color"])) == (x["uid"] in hov), "hovered_lines_stand_out", "%s of %s, hovered %s" % (x["stroke"], d["color"], hov))
        if over is not None and r["traces"]:
            m.ok(r["heard"] == [r["over"]], "hover_reported", "%s over %s" % (r["heard"], r["over"]))
    m.nontrivial("component", k, len(data) - k, len(views), int((view % (2 * math.pi)) // (math.pi / 4)), flat)
    m.state("mode", "component", len(data) - k)

"""C28: the viewer's stereonet shows every plane it is given, where it belongs."""
import math, re
from common import *
import frontend
from surfaces import *

RULE = ("scripts of operations on the viewer's stereonet (sizes, margins, clip angles, centres, data sets of 1-6 planes of any attitude, way up and error shape, colours, options, selectors, rotations, mouse drags with and without a button, "
        "labels, opacity by certainty) run by the front-end sources on a recording document; every drawn path is compared with the plane it stands for, through an independent equal-area projection; distinct by operations, view and data")
CASES = dict(quick=1100, thorough=30000)
FILES = []
ASSUMPTIONS = ["the document, chroma-js and uuid are recording stand-ins; d3 and mathjs are the builds kept in the repository"]

frontend.build("net.js")
COLOURS = ["red", "#123456", "dodgerblue", "rgb(10,20,30)", "#abc", "#aaaaaa"]
RGB = {"red": (255, 0, 0), "#123456": (18, 52, 86), "dodgerblue": (30, 144, 255), "rgb(10,20,30)": (10, 20, 30), "#abc": (170, 187, 204), "#aaaaaa": (170, 170, 170)}
DIRECTIONS = dict(N=(0, 1, 0), E=(1, 0, 0), S=(0, -1, 0), W=(-1, 0, 0), Up=(0, 0, 1), Down=(0, 0, -1))


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def same_angle(a, b):
    return abs((a - b + 180) % 360 - 180)


def rand_rotation(rng):
    u = rng.random()
    if u < .2:
        r = [0, float(rng.choice([-90, 90, 0]))]
    elif u < .4:
        r = [float(rng.choice([0, 90, 180, 270, -45])), float(rng.choice([0, 30, -60]))]
    else:
        r = [float(rng.uniform(-360, 360)), float(rng.uniform(-90, 90))]
    if rng.random() < .25:
        r.append(float(rng.uniform(-180, 180)))
    return r


class View:
    """What the view should be after the operations so far."""
    def __init__(self):
        self.size, self.margin, self.rot, self.clip = 300, 20, [0, 0, 0], 90
        self.steps, self.checks, self.box = [], [], {}

    def do(self, *step, check=None):
        self.steps.append(list(step))
        self.checks.append(check)

    def turn(self, r):
        self.rot = (list(r) + [0, 0, 0])[:3]


def run_case(m, rng, idx):
    v = View()
    sig = []
    interactive = rng.random() > .2
    v.do(*(["create", dict(interactive=False)] if not interactive else ["create", dict(interactive=True)] if rng.random() < .3 else ["create"]))
    k = int(rng.integers(1, 6))
    data, axes, hs = [], [], []
    for i in range(k):
        kind, h, ax = case_axes(rng)
        d = dict(axes=ax.tolist(), color=str(rng.choice(COLOURS)), name="p%d" % i, uid="u%d" % i)
        if rng.random() < .3:
            # what else an export holds, or its maker added
            d.update(disabled=bool(rng.random() < .5), strike=12., dip=34., rake=56., center=[1., 2., 3.], n=7, id=3, type="fit", level=2, sheet="lower")
        d["hyperbolic_axes" if rng.random() < .8 else "covariance"] = h.tolist()
        err = float(rng.choice([0, .5, 1, 2.5, 4.99, 5, 6, 40])) if rng.random() < .5 else float(10 ** rng.uniform(-2, 1.9))
        d["max_angular_error" if rng.random() < .8 else "maxError"] = err
        if rng.random() < .15:
            d2, h, ax = angles(rng)
            d = dict(d2, color=d["color"], name=d["name"], uid=d["uid"])
        data.append(d)
        up = ax.copy()
        if up[2][2] < 0:
            up[2] = -up[2]
        axes.append(up)
        hs.append(h)
    m.note(data=data)
    if rng.random() < .05:
        v.do("draw", str(rng.choice(["planes", "ellipses"])), "early", data, check=lambda r: m.ok(isinstance(r, dict) and "error" in r, "drawing_needs_an_element"))
    # set up
    for name in rng.permutation(["size", "margin", "clipAngle", "center", "rotate", "graticule"]):
        if rng.random() < .5:
            continue
        if name == "size":
            v.size = int(rng.integers(150, 900))
            if rng.random() < .3:
                # an element of fractional size, as a layout may give
                v.size += float(rng.choice([.25, .5, .75]))
            v.do("set", "size", v.size, check=chain(m, name))
        elif name == "margin":
            v.margin = int(rng.integers(0, 60))
            v.do("set", "margin", v.margin, check=chain(m, name))
        elif name == "clipAngle":
            if rng.random() < .5:
                continue
            v.clip = float(rng.choice([10, 15, 30, 40, 60, 80, 88])) if rng.random() < .6 else float(rng.uniform(5, 88))
            v.do("set", "clipAngle", v.clip, check=chain(m, name))
            v.turn([0, -90])
        elif name == "center":
            c = rand_rotation(rng)
            if rng.random() < .2:
                c = "vertical"
            v.do("set", "center", c, check=chain(m, name))
            v.turn([0, 90] if c == "vertical" else c)
        elif name == "rotate":
            c = rand_rotation(rng)
            v.do("set", "rotate", c)
            v.turn(c)
        else:
            v.do("set", "graticule", float(rng.choice([10, 15, 30])), float(rng.choice([2.5, 10, 5])), check=chain(m, name))
        sig.append(str(name))
    token = int(rng.integers(100))
    waiting = ["before%d" % i for i in range(int(rng.integers(1, 4)))]
    for w in waiting:
        v.do("call", w, token)
    v.do("calls", check=lambda r: m.ok(r == [], "waits_for_the_element", str(r)))
    v.do("attach", check=silent(m))
    v.do("calls", check=lambda r: m.ok(r == [[w, True, [token]] for w in waiting], "deferred_calls_made_once_in_order", str(r)))
    for g, want in (("size", v.size), ("margin", v.margin), ("clipAngle", v.clip), ("innerSize", v.size - v.margin)):
        v.do("get", g, check=lambda r, g=g, want=want: m.ok(r == want, "reports_" + g, "%r expected %r" % (r, want)))
    probes = vec(N.column_stack([rng.uniform(-180, 180, 12), rng.uniform(-89, 89, 12)]))
    look(m, v, probes)
    # perhaps another net on the same page
    second = None
    if rng.random() < .35:
        second = (list(rand_rotation(rng)) + [0])[:3]
        v.do("other", dict(interactive=bool(rng.random() < .8)), second)
        second = (v.steps[-1][1]["interactive"], second)
        sig.append("other")
    # draw
    drawn = {}
    kinds = [["planes"], ["ellipses"], ["planes", "ellipses"], ["ellipses", "planes"]][int(rng.integers(4))]
    total = 0
    shared = rng.random() < .25
    for i, kind in enumerate(kinds):
        o = {}
        u = rng.random()
        colours = ["#aaaaaa"] * k if kind == "planes" else [d["color"] for d in data]
        if u < .35:
            o["colorBy"] = "color"
            colours = [d["color"] for d in data]
        elif u < .6:
            o["color"] = str(rng.choice(COLOURS))
            colours = [o["color"]] * k
        box = "planes" if kind == "planes" else "poles"
        if rng.random() < .3:
            box = "box%d" % i
            o["selector"] = "g." + box
        level, n = 1., 200
        if kind == "ellipses" and rng.random() < .4:
            level = o["level"] = float(rng.choice([.5, 2, 3]))
        if kind == "ellipses" and rng.random() < .3:
            n = o["n"] = int(rng.choice([50, 100, 60]))
        if shared:
            # the same options object for every call, as a caller may keep one
            o = {a: b for a, b in o.items() if a == "level"}
            colours, box, n = ["#aaaaaa"] * k if kind == "planes" else [d["color"] for d in data], "planes" if kind == "planes" else "poles", 200
            o["shared"] = True
            if kind == "planes" and kinds[0] == "ellipses":
                o.pop("level", None)
        key = "d%d" % i
        v.do("draw", kind, key, data, o or None, check=lambda r: m.ok(r == k, "one_element_per_plane", "%r for %d" % (r, k)))
        drawn[key] = (kind, box, colours, level, n)
        total += k * (2 if kind == "planes" else 1)
        v.do("drawn", key, check=lambda r, a=(key, v.rot, v.clip): see(m, r, drawn, data, axes, hs, v, True, *a))
        sig.append((kind, tuple(sorted(o))))
    v.do("count", check=lambda r, t=total: m.ok(r == t, "nothing_else_drawn", "%s paths, expected %d" % (r, t)))
    # labels
    lab = rng.random() < .35
    if lab:
        lo = None if rng.random() < .5 else dict(offsetAmount=int(rng.integers(0, 6)))
        offset = lo["offsetAmount"] if lo else 3
        v.do("labels", lo, check=lambda r: (silent(m)(r), m.ok(r is True, "options_untouched", "label options changed")))
        v.do("texts", check=lambda r, rot=list(v.rot): labels(m, r, rot, v, offset))
    vert = v.clip < 89 and rng.random() < .6
    if vert:
        rot0 = list(v.rot)
        o = dict(dipLabels=sorted(set(float(round(x, 1)) for x in rng.uniform(.5, v.clip, 3)))) if rng.random() < .5 else dict(nLabels=int(rng.integers(1, 4))) if rng.random() < .5 else None
        v.do("overlay", "vertical", o, check=lambda r: (silent(m)(r), m.ok(r is True, "options_untouched", "label options changed")))
        v.do("texts", check=lambda r, o=o: vertical(m, r, o, rot0, v))
    elif rng.random() < .2:
        v.do("overlay", "horizontal", check=silent(m))
        v.do("texts", check=lambda r: horizontal(m, r, v))
    # move
    names = []
    if rng.random() < .5:
        v.do("listen", "watch")
        names = ["watch"]
    log, moved, stale, first = [], False, False, list(v.rot)
    for step in range(int(rng.integers(0, 5))):
        u = rng.random()
        if u < .45:
            c = rand_rotation(rng)
            if rng.random() < .4:       # a small turn
                c = [v.rot[0] + float(rng.uniform(-4, 4)), max(-90., min(90., v.rot[1] + float(rng.uniform(-4, 4))))]
            v.do("set", "rotate", c)
            v.turn(c)
            log.append(list(v.rot))
            sig.append("rotate")
        elif u < .6:
            c = rand_rotation(rng)
            v.do("set", "center", c, check=chain(m, "center"))
            v.turn(c)
            sig.append("center")
        else:
            sig.append("drag")
            if rng.random() < .3:      # moving without the button
                v.do("fire", "window", "mousemove", 900, -500, check=turned(m, v.rot, "no_button_no_rotation"))
            x0, y0 = [int(x) for x in rng.integers(0, 400, 2)]
            start = list(v.rot)
            v.do("fire", "net", "mousedown", x0, y0, check=turned(m, v.rot, "press_does_not_rotate"))
            x, y = x0, y0
            style = rng.random()        # a click, a slow drag, a fast one
            if start[2]:
                style = max(style, .2)  # a drag levels a rolled view
            for j in range(0 if style < .15 else int(rng.integers(3, 9)) if style < .5 else int(rng.integers(1, 4))):
                if style < .5:
                    x, y = [int(a + b) for a, b in zip((x, y), rng.integers(-4, 5, 2))]
                else:
                    x, y = [int(x) for x in rng.integers(-700, 900, 2)] if rng.random() < .3 else [int(a) for a in rng.integers(0, 400, 2)]
                if interactive:
                    v.turn([start[0] + (x - x0) / 3., min(90., max(-90., start[1] + (y0 - y) / 3.))])
                    log.append(list(v.rot))
                v.do("fire", "window", "mousemove", x, y, check=turned(m, v.rot, "drag_rotates"))
            if interactive:
                log.append(list(v.rot))
            v.do("fire", "window", "mouseup", x, y, check=turned(m, v.rot, "release_stays"))
            if second:
                v.do("otherrotate", check=turned(m, second[1], "other_net_stays"))
            if rng.random() < .6:
                v.do("fire", "window", "mousemove", 5, 700, check=turned(m, v.rot, "released_no_rotation"))
        if interactive or sig[-1] != "drag":
            moved = True
        if second and rng.random() < .4:
            x0, y0, x, y = [int(a) for a in rng.integers(0, 400, 4)]
            v.do("fireother", "net", "mousedown", x0, y0)
            r2 = [second[1][0] + (x - x0) / 3., min(90., max(-90., second[1][1] + (y0 - y) / 3.)), 0] if second[0] else second[1]
            v.do("fireother", "window", "mousemove", x, y, check=turned(m, r2, "drag_rotates_the_net_under_the_mouse"))
            v.do("fireother", "window", "mouseup", x, y, check=turned(m, r2, "drag_rotates_the_net_under_the_mouse"))
            second = (second[0], r2)
        if moved:
            v.do("allpaths", check=lambda r: m.ok(all(p["same"] for p in r), "paths_follow_the_view", "%s not redrawn" % [p["cls"] + p["parent"] for p in r if not p["same"]][:3]))
        if lab:
            if sig[-1] == "center":
                stale = True
            elif interactive or sig[-1] == "rotate":
                stale = False
            if not stale:
                v.do("texts", check=lambda r, rot=list(v.rot): labels(m, r, rot, v, offset))
    look(m, v, probes)
    for key in drawn:
        v.do("drawn", key, check=lambda r, a=(key, list(v.rot), v.clip): see(m, r, drawn, data, axes, hs, v, False, *a))
    v.do("count", check=lambda r, t=total: m.ok(r == t, "nothing_lost_or_added", "%s paths, expected %d" % (r, t)))
    if names:
        def heard(r):
            got = changes([x[1] for x in r[len(waiting):]], first)
            want = changes(log, first)
            m.ok(len(got) == len(want), "told_of_every_rotation", "%d changes heard of %d: %s expected %s" % (len(got), len(want), got, want))
            for x, w in zip(got, want):
                turned(m, w, "told_the_new_rotation")(dict(rotate=x))
        v.do("calls", check=heard)
    # opacity
    if rng.random() < .6:
        key = sorted(drawn)[0]
        how = dict(color="color", accessor="path.error")
        dom = 5.
        if rng.random() < .4:
            dom = float(rng.choice([1, 10, 30]))
            how["domain"] = [0, dom]
        bad = rng.random() < .2
        if bad:
            how["color"] = "name"
        v.do("opacity", key, how, check=silent(m))
        v.do("drawn", key, check=lambda r: opacity(m, r, data, dom, bad))
        sig.append("opacity")
    v.do("options", check=lambda r: [m.ok(x[1], "options_untouched", "the options of %s were modified" % x[0]) for x in r])
    v.do("unchanged", check=lambda r: [m.ok(x[1], "data_untouched", "the data drawn as %s were modified" % x[0]) for x in r])
    m.note(script=[s for s in v.steps if s[0] != "draw"][:40])
    out = frontend.ask(m, "net", v.steps)
    m.ok(len(out) == len(v.steps), "every_step_answered")
    for s, r, c in zip(v.steps, out, v.checks):
        if c is None:
            silent(m, s)(r)
        else:
            c(r)
    m.nontrivial(*sig, k, interactive, bucket(v.clip, [20, 50, 89]), lab, vert)
    for s in sig:
        m.state("operation", s if isinstance(s, str) else s[0])
    m.state("view", "clipped" if v.clip < 89 else "full", "interactive" if interactive else "fixed")


def changes(rs, first):
    """Successive different views."""
    out, last = [], first
    for r in rs:
        r = (list(r) + [0, 0, 0])[:3]
        if abs(rotation(r) - rotation(last)).max() > 1e-7:
            out.append(r)
        last = r
    return out


def silent(m, s=None):
    return lambda r: m.ok(not (isinstance(r, dict) and "error" in r), "step_works", "%s: %s" % (str(s)[:200], str(r)[:700]))


def chain(m, name):
    return lambda r: m.ok(r == "self", "setter_can_be_chained", "%s returned %s" % (name, str(r)[:300]))


def turned(m, want, label):
    want = list(want)

    def f(r):
        silent(m)(r)
        got = r["rotate"]
        R, Q = rotation(got), rotation(want)
        m.close(R, Q, 1e-9, label, "view %s expected %s" % (got, want))
    return f


def look(m, v, probes):
    """The projection is equal-area, centred in the view, turned as asked."""
    rot, size, clip, margin = list(v.rot), v.size, v.clip, v.margin
    box = v.box

    def state(r):
        silent(m)(r)
        m.ok(float(r["width"]) == size and float(r["height"]) == size, "element_has_the_size", "%s x %s" % (r["width"], r["height"]))
        m.close(r["translate"], [size / 2., size / 2.], 1e-9, "centred_in_the_view")
        m.close(rotation(r["rotate"]), rotation(rot), 1e-9, "turned_as_asked", "%s expected %s" % (r["rotate"], rot))
        m.close(r["clip"], clip if clip < 89 else 90, 1e-9, "clipped_as_asked")
        m.ok(r["scale"] > 0 or size < 150, "positive_scale")
        if clip < 89:
            m.close(2 * r["scale"] * math.sin(math.radians(clip) / 2), size / 2. - margin, .02 * size, "net_fills_its_frame")
        box.update(r)

    def points(r):
        silent(m)(r)
        R = rotation(rot)
        for p, q in zip(probes, r):
            w = project(p, R, box["scale"], box["translate"])
            if (R @ p)[0] > -.999:
                m.close(q, w, 1e-8 * size * (1 + 10 / (1.0001 + (R @ p)[0])), "equal_area_projection")
    v.do("state", check=state)
    lo = N.degrees(N.arctan2(probes[:, 1], probes[:, 0]))
    la = N.degrees(N.arcsin(probes[:, 2]))
    v.do("project", N.column_stack([lo, la]).tolist(), check=points)
    v.do("get", "centerPosition", check=lambda r: m.close(vec([r])[0], rotation(rot).T @ N.array([1., 0, 0]), 1e-7, "centre_position"))


def see(m, r, drawn, data, axes, hs, v, first, key, rot, clip):
    kind, box, colours, level, n = drawn[key]
    silent(m)(r)
    m.ok([e["ix"] for e in r] == list(range(len(data))), "planes_in_order", str([e["ix"] for e in r]))
    R = rotation(rot)
    for e, d, ax, h, col in zip(r, data, axes, hs, colours):
        m.ok(e["inArea"] and box in e["parent"], "drawn_in_the_data_area", "in %s, asked for %s" % (e["parent"], box))
        m.ok((kind == "planes" and "plane" in e["cls"]) or (kind == "ellipses" and "normal" in e["cls"]), "element_class", str(e["cls"]))
        by = {c: p for p in e["paths"] for c in p["cls"] if c in ("error", "nominal")}
        m.ok(len(e["paths"]) == (2 if kind == "planes" else 1) and len(by) == len(e["paths"]), "one_path_each", str([p["cls"] for p in e["paths"]]))
        for p in e["paths"]:
            m.ok(p["d"] == p["want"], "path_is_current", "%s of plane %d" % (p["cls"], e["ix"]))
        if not first:
            if "nominal" in by:
                trace(m, by["nominal"]["d"], ax, R, clip, v.box["scale"], v.box["translate"])
            continue
        m.ok(by["error"]["fill"] == col, "requested_colour", "%s expected %s" % (by["error"]["fill"], col))
        if kind == "planes":
            m.ok("unconstrained" in by["error"]["cls"] if h[2] > h[1] else "unconstrained" not in by["error"]["cls"], "unconstrained_flag")
            m.ok(by["nominal"]["stroke"] is not None, "trace_stroked")
            m.ok(all(p["from"] == e["ix"] for p in e["paths"]), "paths_carry_their_data")
            rings = by["error"]["coords"]
            m.ok(len(rings) == 2, "band_has_two_edges")
            sides = []
            for ring in rings:
                u, _ = unit(ring, LAYOUT)
                c = N.sign(N.median(u @ ax[2]))
                sides.append(c)
                girdle(m, ring, h, ax, "lower" if c > 0 else "upper", LAYOUT, n)
            m.ok(sorted(sides) == [-1, 1], "one_edge_each_side")
            girdle(m, by["nominal"]["coords"], h, ax, "nominal", LAYOUT, n)
            trace(m, by["nominal"]["d"], ax, R, clip, v.box["scale"], v.box["translate"])
        else:
            c = by["error"]["coords"]
            m.ok(by["error"]["type"] == "MultiPolygon" and len(c) == 2, "both_poles")
            for ring, sh in zip(c, ("upper", "lower")):
                ellipse(m, ring[0], h, ax, sh, LAYOUT, n, level)


def labels(m, r, rot, v, offset):
    silent(m)(r)
    got = [t for t in r if any("label" in u["cls"] for u in t["up"])]
    m.ok(sorted(t["text"] for t in got) == sorted(DIRECTIONS), "all_direction_labels", str([t["text"] for t in got]))
    R = rotation(rot)
    for t in got:
        w = direction(DIRECTIONS[t["text"]])
        a = math.degrees(math.acos(max(-1, min(1, float(R[0] @ w)))))
        hidden = any(u["display"] == "none" for u in t["up"])
        if a > 90.7:
            m.ok(hidden, "far_side_labels_hidden", "%s at %g degrees" % (t["text"], a))
        elif a < 90.4 and a > (46 if t["text"] in ("Up", "Down") else .7):
            m.ok(not hidden, "near_side_labels_shown", "%s at %g degrees" % (t["text"], a))
            x = place(t["up"][0]["transform"])
            m.ok(x is not None, "label_placed", str(t))
            p = project(w, R, v.box["scale"], v.box["translate"])
            m.ok(math.hypot(x[0] - p[0], x[1] - p[1]) < 11.5 + offset, "label_on_its_direction", "%s at %s, direction at %s" % (t["text"], x, p))


def horizontal(m, r, v):
    silent(m)(r)
    own = [t for t in r if any("horizontal" in u["cls"] or "vertical" in u["cls"] for u in t["up"])]
    m.ok(sorted(t["text"] for t in own) == ["E", "Vertical", "W"], "horizontal_labels", str([t["text"] for t in own]))
    for t in own:
        xy = N.eye(3)
        for u in t["up"]:
            M = moved(u["transform"])
            if M is not None:
                xy = M @ xy
        xy = xy[:2, 2]
        want = {"E": (v.size - v.margin, v.size / 2.), "W": (v.margin, v.size / 2.), "Vertical": (v.size / 2., v.margin)}[t["text"]]
        m.close(xy, want, 1e-6, "horizontal_label_place", t["text"])


def vertical(m, r, o, rot, v):
    silent(m)(r)
    az = [t for t in r if any("azimuthLabels" in u["cls"] for u in t["up"]) and t["text"] in "NESW"]
    m.ok([t["text"] for t in az] == list("NESW"), "azimuth_labels", str([t["text"] for t in r]))
    def at(t):
        x = place(t["up"][0]["transform"])
        m.ok(x is not None, "label_placed", str(t))
        return x
    c = N.array([v.size / 2., v.size / 2.])
    for t, dr in zip(az, [(0, -1), (1, 0), (0, 1), (-1, 0)]):
        q = (at(t) - c)
        m.ok(q @ N.array(dr) > .98 * N.hypot(*q), "azimuth_label_in_its_direction", "%s at %s" % (t["text"], q))
        m.ok(N.hypot(*q) >= v.size / 2. - v.margin, "azimuth_label_outside_the_net", "%s" % q)
    dips = [t for t in r if any("inner" in u["cls"] for u in t["up"][:1])]
    want = None if o is None or "dipLabels" not in o else o["dipLabels"]
    vals = [float(t["text"].rstrip("\xb0")) for t in dips]
    if want is not None:
        m.ok(vals == want, "requested_dip_labels", "%s expected %s" % (vals, want))
    m.ok(len(vals) >= 1, "dip_labels_present")
    R = rotation(rot)
    for t, x in zip(dips, vals):
        w = vec([[220, 90 - x]])[0]
        if R[0] @ w < -.99:     # behind the view
            continue
        u = unproject(at(t)[None, :], R, v.box["scale"], v.box["translate"])[0]
        m.close(math.degrees(math.acos(max(-1, min(1, u[2])))), x, 1e-3, "dip_label_at_its_dip", t["text"])


def opacity(m, r, data, dom, bad):
    silent(m)(r)
    pts = []
    for e, d in zip(r, data):
        p = [q for q in e["paths"] if "error" in q["cls"]][0]
        f = re.match(r"rgba?\((\d+),(\d+),(\d+)(?:,([\d.e-]+))?\)$", p["fill"] or "")
        s = re.match(r"rgba?\((\d+),(\d+),(\d+)(?:,([\d.e-]+))?\)$", p["stroke"] or "")
        m.ok(f is not None and s is not None, "certainty_colours", "%s %s" % (p["fill"], p["stroke"]))
        rgb = RGB[d["color"]] if not bad else (170, 170, 170)
        m.ok(tuple(map(int, f.groups()[:3])) == rgb == tuple(map(int, s.groups()[:3])), "certainty_keeps_the_colour", p["fill"])
        a, b = float(f.group(4) or 1), float(s.group(4) or 1)
        m.ok(0 < a <= 1 and a <= b + 1e-12, "opacity_in_range", "%g %g" % (a, b))
        err = d["max_angular_error"] if "max_angular_error" in d else d["maxError"]
        pts.append((err, a))
        for q in e["paths"]:
            if "nominal" in q["cls"]:
                m.ok(q["fill"] is None, "only_error_regions_recoloured")
    pts.sort()
    for (e1, a1), (e2, a2) in zip(pts, pts[1:]):
        m.ok(a2 <= a1 + 1e-12, "opacity_never_grows_with_error", "%s" % pts)
        if e1 < dom and e2 > e1:
            m.ok(a2 < a1, "opacity_shows_the_error", "%s" % pts)
        if e1 >= dom:
            m.ok(abs(a1 - a2) < 1e-12, "opacity_levels_off", "%s domain %g" % (pts, dom))

"""C30: the notebook interface shows, highlights and selects the right measurements."""
import json, math, re
from common import *
import frontend
from surfaces import *

RULE = ("scripts of what a user does in the notebook interface (hovering shapes and list entries, leaving, clicking, switching planes, poles and groups, zooming, clearing, dragging, viewing from above) "
        "on 1-9 measurements with groups, run by the front-end sources on a recording document; everything shown after each step is compared with a model; distinct by data and operations")
CASES = dict(quick=1100, thorough=30000)
FILES = []
ASSUMPTIONS = ["React, hyperscript, blueprint, chroma-js and the document are stand-ins; d3 and mathjs are the builds kept in the repository"]
frontend.build("ui.js")
COLOURS = dict([("red", (255, 0, 0)), ("#123456", (18, 52, 86)), ("dodgerblue", (30, 144, 255)), ("#abc", (170, 187, 204))])


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def measurements(rng):
    k = int(rng.integers(1, 8))
    out = []
    names = ["m%d%s" % (i, rng.choice(["", "a", "-x"])) for i in range(k)]
    if rng.random() < .4:
        names = [str(x) for x in rng.permutation(["1", "10", "11", "01", "a", "ab", "abc", "A", "a b", "m1", "g1x", "bed 7", "Bed 7"])[:k]]
    for i in range(k):
        kind, h, ax = case_axes(rng)
        h = N.sort(h)[::-1].copy()
        err = sorted(float(10 ** rng.uniform(-1, 1.9)) for _ in range(2))
        if rng.random() < .1:
            err = [0., .004]
        elif rng.random() < .1:
            err[0] = float(rng.choice([0., .002]))
        elif rng.random() < .3:
            err = sorted(float(x) for x in rng.choice([.011, .02, .05, .1, .3, .6, .9], 2))
        out.append(dict(uid=names[i], axes=ax.tolist(), hyperbolic_axes=h.tolist(), color=str(rng.choice(list(COLOURS))),
                        strike=float(rng.uniform(0, 360)), dip=float(rng.uniform(0, 90)), min_angular_error=err[0], max_angular_error=err[1]))
    if k > 1 and rng.random() < .7:
        ids = [int(i) for i in rng.permutation(k)]
        while len(ids) > 1 and rng.random() < .8:
            n = int(rng.integers(2, min(4, len(ids)) + 1)) if len(ids) > 2 else 2
            n = 1 if rng.random() < .1 else n
            part, ids = ids[:n], ids[n:]
            kind, h, ax = case_axes(rng)
            g = dict(out[part[0]], uid="g%d" % len(out), axes=ax.tolist(), hyperbolic_axes=N.sort(h)[::-1].tolist(), members=[out[i]["uid"] for i in part], strike=float(rng.uniform(0, 360)), color=str(rng.choice(list(COLOURS))))
            g.pop("member_of", None)
            for i in part:
                out[i]["member_of"] = g["uid"]
            out.append(g)
    if rng.random() < .15 and "member_of" not in out[0] and "members" not in out[0]:
        out[0]["member_of"] = "elsewhere"
    if rng.random() < .4:
        out = [out[i] for i in rng.permutation(len(out))]
    # what else an export holds, or its maker added
    for d in out:
        if rng.random() < .5:
            d.update(name=str(rng.choice(["bed", "", "m0", d["uid"] + "'"])), disabled=bool(rng.random() < .5), rake=float(rng.uniform(0, 180)), center=[1., 2., 3.], centered_array=None, n=7, id=int(rng.integers(9)))
            if rng.random() < .3:
                d.update(in_group=bool(rng.random() < .5), covariance=[9., 8., 7.], maxError=1., minError=2., type="fit")
    return out


class Model:
    def __init__(self, data):
        self.data, self.by = data, {d["uid"]: d for d in data}
        self.sel, self.hov, self.zoom, self.groups = [], None, False, True
        self.planes, self.poles, self.rot = False, True, [0, 0, 0]

    def hover(self, uid):
        d = self.by[uid]
        if d.get("member_of") in self.by:
            d = self.by[d["member_of"]]
        self.hov = [d["uid"]] + list(d.get("members") or [])

    def shown(self):
        return list(self.sel) if self.zoom else [d["uid"] for d in self.data]


def run_case(m, rng, idx):
    data = measurements(rng)
    m.note(data=data)
    M = Model(data)
    steps, checks, sig = [], [], []

    def do(*s, check=None):
        steps.append(list(s))
        checks.append(check)
    do("open", data)
    do("see", check=lambda r: see(m, r, M))
    actions = []
    for _ in range(int(rng.integers(4, 14))):
        u = rng.random()
        if u < .2:
            actions.append(("hover", int(rng.integers(20))))
        elif u < .27:
            actions.append(("leave",))
        elif u < .4:
            actions.append(("item", "onMouseOver", int(rng.integers(20))))
        elif u < .6:
            actions.append(("item", "onClick", int(rng.integers(20))))
        elif u < .78:
            actions.append(("toggle", str(rng.choice(["Planes", "Poles", "Show groups"]))))
        elif u < .9:
            actions.append(("button", str(rng.choice(["Show only selection", "Show all data", "Clear selection", "Vertical"], p=[.4, .2, .15, .25]))))
        else:
            actions.append(("drag",) + tuple(int(a) for a in rng.integers(0, 400, 4)))
    if rng.random() < .25:
        at = int(rng.integers(len(actions) + 1))
        actions[at:at] = [("button", "Vertical"), ("drag",) + tuple(int(a) for a in rng.integers(0, 400, 4)), ("button", "Vertical")]
    for a in actions:
        sig.append(a[0] + (str(a[1]) if a[0] in ("item", "toggle", "button") else ""))
        if a[0] == "drag":
            do("fire", "net", "mousedown", a[1], a[2])
            do("fire", "window", "mousemove", a[3], a[4])
            do("fire", "window", "mouseup", a[3], a[4], check=lambda r, a=a: drag(M, a))
        else:
            do(*a, check=lambda r, a=a: apply(m, M, a, r))
        do("see", check=lambda r: see(m, r, M))
    do("unchanged", check=lambda r: m.ok(r is True, "measurements_untouched"))
    m.note(script=actions)
    out = frontend.ask(m, "ui", steps)
    m.ok(len(out) == len(steps), "every_step_answered")
    for s, r, c in zip(steps, out, checks):
        m.ok(not (isinstance(r, dict) and "error" in r), "step_works", "%s: %s" % (str(s)[:100], str(r)[:700]))
        if c:
            c(r)
    m.nontrivial(len(data), sum("members" in d for d in data), *sig)
    for s in sig:
        m.state("operation", s)
    m.state("groups", bucket(sum("members" in d for d in data), [1, 2]))


def drag(M, a):
    M.rot = [M.rot[0] + (a[3] - a[1]) / 3., max(-90., min(90., M.rot[1] + (a[2] - a[4]) / 3.)), 0]


def apply(m, M, a, r):
    """What the step should do to the model, given what was under the mouse."""
    if a[0] == "hover":
        m.ok(r is None or r in M.by, "hovers_a_measurement", str(r))
        if r is not None:
            M.hover(r)
    elif a[0] == "leave":
        M.hov = None
    elif a[0] == "item":
        if r is None:
            return
        m.ok(r in M.by, "lists_a_measurement", str(r))
        if a[1] == "onMouseOver":
            M.hover(r)
        elif r in M.sel:
            M.sel.remove(r)
        else:
            M.sel.append(r)
    elif a[0] == "toggle":
        if a[1] == "Planes":
            M.planes = not M.planes
        elif a[1] == "Poles":
            M.poles = not M.poles
        else:
            M.groups = not M.groups
    elif a[0] == "button" and r == "pressed":
        if a[1].startswith("Show"):
            M.zoom = not M.zoom
        elif a[1].startswith("Clear"):
            M.sel = []
        else:
            M.rot = [0, -90, 0]


def see(m, r, M):
    R = rotation(M.rot)
    k, t = net_frame(r["sphere"], 90)
    want = M.shown()
    sh = lambda kind, layer: [s for s in r["shapes"] if s["kind"] == kind and s["layer"] == layer]
    for kind, on in (("plane", M.planes), ("pole", M.poles)):
        got = [s["uid"] for s in sh(kind, "data")]
        m.ok(got == (want if on else []), "measurements_shown", "%ss of %s, expected %s" % (kind, got, want if on else []))
        got = [s["uid"] for s in sh(kind, "hovered")]
        m.ok(sorted(got) == sorted(M.hov if on and M.hov else []), "highlighted", "%ss of %s, expected %s" % (kind, got, M.hov if on else None))
    for s in r["shapes"]:
        d = M.by[s["uid"]]
        m.ok(("is-group" in s["cls"]) == ("members" in d) and ("in-group" in s["cls"]) == ("member_of" in d), "group_marks", str(s["cls"]))
        ax = N.array(d["axes"])
        rgb = COLOURS[d["color"]]
        parts = {p["cls"][0]: p for p in s["paths"]}
        if s["layer"] == "hovered":
            m.ok(list(parts) == ["error"], "highlight_of_the_region", str(list(parts)))
            m.ok(parts["error"]["style"].get("fill") == d["color"], "highlight_colour", str(parts["error"]["style"]))
        else:
            hide = s["kind"] == "plane" and d["max_angular_error"] > 45
            m.ok(sorted(parts) == sorted((["nominal"] if s["kind"] == "plane" else []) + ([] if hide else ["error"])), "parts_drawn", str(list(parts)))
        if "error" in parts:
            p = parts["error"]
            if s["layer"] == "data":
                f = re.match(r"rgba?\((\d+),\s*(\d+),\s*(\d+)", p["fill"] or "")
                m.ok(f is not None and tuple(map(int, f.groups())) == rgb, "colour", "%s for %s" % (p["fill"], d["color"]))
            region(m, p["d"], s["kind"], d["hyperbolic_axes"], ax, R, 90, k, t, "region")
        if "nominal" in parts:
            m.ok(parts["nominal"]["stroke"] == d["color"], "trace_colour", str(parts["nominal"]["stroke"]))
            trace(m, parts["nominal"]["d"], ax, R, 90, k, t)
    items = [d["uid"] for d in M.data if M.groups or "members" not in d]
    m.ok([i["text"] for i in r["items"]] == items, "list_entries", "%s expected %s" % ([i["text"] for i in r["items"]], items))
    for i in r["items"]:
        m.ok(("selected" in i["cls"]) == (i["text"] in M.sel), "selected_entries", "%s %s" % (i, M.sel))
        m.ok(("hovered" in i["cls"]) == (i["text"] in (M.hov or [])), "highlighted_entries", "%s %s" % (i, M.hov))
        if "hovered" in i["cls"]:
            m.ok(M.by[i["text"]]["color"] in (i["style"] or {}).values(), "entry_colour", str(i))
    m.ok(len(r["copy"]) == 1 and json.loads(r["copy"][0]) == M.sel, "copies_the_selection", "%s expected %s" % (r["copy"], M.sel))
    off = dict(r["buttons"])
    for b in ("Copy to clipboard", "Clear selection"):
        m.ok(off.get(b) == (not M.sel), "buttons_enabled", "%s with %d selected" % (b, len(M.sel)))
    m.ok(("Show all data" in off) == M.zoom and ("Show only selection" in off) != M.zoom, "zoom_button", str(sorted(off)))
    if M.sel or not M.zoom:
        m.ok(off["Show all data" if M.zoom else "Show only selection"] == (not M.sel), "zoom_enabled", "%d selected: %s" % (len(M.sel), off))
    m.ok(dict(r["switches"]) == {"Planes": M.planes, "Poles": M.poles, "Show groups": M.groups}, "switches", str(r["switches"]))
    p = " ".join(r["panel"])
    if not M.hov:
        m.ok("Strike" not in p and "ID" not in p, "panel_empty", p)
    else:
        d = M.by[M.hov[0]]
        q = re.search(r"ID:\s*(%s)" % re.escape(d["uid"]), p)
        m.ok(q is not None, "panel_names_the_measurement", "%s: %s" % (d["uid"], p))
        num = lambda l: (lambda x: float(x.group(1)) if x else None)(re.search(l + r":\s*([-\d.]+)", p))
        m.ok(abs(num("Strike") - d["strike"]) < .051 and abs(num("Dip") - d["dip"]) < .051, "panel_attitude", "%s for %s/%s" % (p, d["strike"], d["dip"]))
        if d["max_angular_error"] >= .01:
            m.ok(num("Min") is not None and abs(num("Min") - d["min_angular_error"]) < .051 and abs(num("Max") - d["max_angular_error"]) < .051, "panel_errors", p)
        else:
            m.ok(num("Min") is None and num("Max") is None, "panel_no_errors", p)
        n = re.search(r"Group of (\d+)", p)
        m.ok((n is not None) == ("members" in d) and (n is None or int(n.group(1)) == len(d["members"])), "panel_group", p)

"""C29: the web application keeps the sheet the user typed and plots exactly its orientations."""
import math, re
from common import *
import frontend
from surfaces import *

RULE = ("scripts of what a user does in the web application (typing and pasting cells, adding rows, resetting, reloading, switching plots, planes, poles and the clip angle, picking colours), "
        "run by the front-end sources on a recording document; the sheet and the plot after each step are compared with a model; distinct by the operations and cells")
CASES = dict(quick=1100, thorough=40000)
FILES = []
ASSUMPTIONS = ["React, hyperscript, blueprint, react-datasheet, the stored state, the versor package, chroma-js and the document are stand-ins; d3 and mathjs are the builds kept in the repository",
               "numeric cells hold a whole number literal or no number at all; regions are compared for positive error angles only"]
frontend.build("web.js")
GREY = (170, 170, 170)
COLOURS = {"#65499e": (101, 73, 158), "dodgerblue": (30, 144, 255), "red": (255, 0, 0), "#123456": (18, 52, 86), "#abc": (170, 187, 204), "teal": (0, 128, 128), "rgb(9, 80, 200)": (9, 80, 200), "steelblue": (70, 130, 180)}
BADCOLOURS = ["not a colour", "#12", "rgb(1,2", "?"]
HEADER = ["Strike", "Dip", "Rake", "Max.", "Min.", "Color"]
DEFAULT = [[10, 8, 2, 20, 8, "#65499e"], [120, 46, 5, 45, 2, "dodgerblue"]] + [[None] * 6 for _ in range(8)]


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def number(v):
    if v is None:
        return None
    try:
        return float(v)
    except ValueError:
        return None


def cell(rng, col):
    u = rng.random()
    if col == 5:
        return str(rng.choice(list(COLOURS))) if u < .75 else str(rng.choice(BADCOLOURS)) if u < .9 else ""
    if u < .1:
        return str(rng.choice(["abc", "n/a", "--", "", "", "x12"]))
    lo, hi = [(-30, 400), (0, 95), (-180, 180), (.5, 90), (.5, 90)][col]
    v = rng.uniform(lo, hi)
    if col > 2:
        v = float(10 ** rng.uniform(-1, 2.05)) if rng.random() < .5 else v
    w = rng.random()
    if col < 3 and rng.random() < .12:
        return str(rng.choice(["0", "0.0", "90", "180", "360", "-0", "270"]))
    if col > 2 and rng.random() < .04:
        # senseless as an error, yet a number: the row is plotted somehow
        return str(rng.choice(["0", "-1", "0.0", "-20.5"]))
    if w < .5 and abs(v) >= 1:
        return "%d" % v
    return ("%.3f" if w < .8 else "%.2e" if w < .9 else " %.2f ") % v


class Model:
    def __init__(self):
        self.rows = [list(r) for r in DEFAULT]
        self.mount()
        self.tab, self.clip = 0, 15

    def mount(self):
        self.planes, self.poles, self.rot = False, True, [0, 0]

    def edit(self, changes):
        for r, c, v in changes:
            self.rows[r][c] = v
        for r in self.rows:
            a, b = number(r[3]), number(r[4])
            if a is not None and b is not None and a < b:
                r[3], r[4] = r[4], r[3]

    def orientations(self):
        out = []
        for r in self.rows:
            v = [number(x) for x in r[:5]]
            if None not in v:
                out.append(v + [COLOURS.get(r[5])])
        return out


def run_case(m, rng, idx):
    M, steps, checks, sig, script = Model(), [], [], [], []

    def do(*s, check=None):
        steps.append(list(s))
        checks.append(check)

    def look():
        rows, st = [list(r) for r in M.rows], dict(tab=M.tab, clip=M.clip, planes=M.planes, poles=M.poles, rot=M.rot, os=M.orientations())
        do("sheet", check=lambda r: sheet(m, r, rows))
        do("plot", check=lambda r: plot(m, r, **st))
    do("open")
    look()
    for _ in range(int(rng.integers(2, 9))):
        u = rng.random()
        if u < .6:
            n, ch = len(M.rows), []
            w = rng.random()
            if w < .35:           # one cell
                c = int(rng.integers(6))
                ch = [[int(rng.integers(n)), c, cell(rng, c)]]
            elif w < .8:            # a whole row or a few, some cells left out
                r0, k = int(rng.integers(n)), int(rng.integers(1, 4))
                for r in range(r0, min(n, r0 + k)):
                    for c in range(6):
                        if rng.random() < .93:
                            ch.append([r, c, cell(rng, c)])
            else:                  # a column
                c, r0 = int(rng.integers(6)), int(rng.integers(n))
                ch = [[r, c, cell(rng, c)] for r in range(r0, min(n, r0 + int(rng.integers(1, 5))))]
            if rng.random() < .2:
                ch = [ch[i] for i in rng.permutation(len(ch))]
            if not ch:
                continue
            a = ("edit", ch)
            M.edit(ch)
            do("edit", ch)
        elif u < .68:
            a = ("button", "Add more rows")
            M.rows += [[None] * 6 for _ in range(10)]
            do(*a)
        elif u < .73:
            a = ("button", "Reset data")
            M.rows = [list(r) for r in DEFAULT]
            do(*a)
        elif u < .78:
            a = ("reload",)
            M.mount()
            M.tab = 0
            do(*a)
        elif u < .86:
            a = ("tab", 1 - M.tab)
            M.tab = 1 - M.tab
            M.mount()
            do(*a)
        elif u < .92:
            if M.tab:
                a = ("clip", float(rng.choice([3, 5.5, 10, 25, 40, 60, 80, 85, 90, 90])))
                M.clip = a[1]
            else:
                a = ("button", "Vertical")
                M.rot = [0, -90]
            do(*a)
        elif u < .97:
            if M.tab:
                continue
            a = ("toggle", str(rng.choice(["Planes", "Poles"])))
            setattr(M, a[1].lower(), not getattr(M, a[1].lower()))
            do(*a)
        else:
            hexes = [str(rng.choice(["#ff0000", "#123456", "#1e90ff", "#65499e", "#%06x" % int(rng.integers(1 << 24))])) for _ in range(1)]
            v = str(rng.choice(list(COLOURS) + BADCOLOURS))
            row = int(rng.integers(len(M.rows)))
            a = ("pick", row, v, hexes[0])
            do(*a, check=lambda r, a=a: picked(m, r, a[2], a[3], row))
        script.append(a)
        sig.append(a[0] if a[0] != "edit" else "edit%d" % len(a[1]))
        look()
        if a[0] == "clip" and rng.random() < .5:
            # the choice outlives the page
            for a in (("reload",), ("tab", 1)):
                M.mount()
                M.tab = int(a[0] == "tab")
                do(*a)
                script.append(a)
                sig.append(a[0])
            look()
    m.note(script=script)
    out = frontend.ask(m, "web", steps)
    m.ok(len(out) == len(steps), "every_step_answered")
    for s, r, c in zip(steps, out, checks):
        m.ok(not (isinstance(r, dict) and "error" in r), "step_works", "%s: %s" % (str(s)[:100], str(r)[:700]))
        if c:
            c(r)
    m.nontrivial(str(script))
    for a in script:
        m.state("operation", a[0] + (a[1] if a[0] in ("button", "toggle") else ""))
    m.state("plotted", bucket(len(M.orientations()), [0, 1, 2, 4]))


def picked(m, r, value, hex_, row):
    rgb = COLOURS.get(value, GREY)
    m.ok(r["shown"].lower() == "#%02x%02x%02x" % rgb, "picker_shows_the_colour", "%s for %s" % (r["shown"], value))
    want = tuple(int(hex_[i:i + 2], 16) for i in (1, 3, 5))
    got = r["out"][-1] if r["out"] else None
    c = COLOURS.get(got)
    if c is None and got and re.match("#[0-9a-fA-F]{6}$", got):
        c = tuple(int(got[i:i + 2], 16) for i in (1, 3, 5))
    known = {"white": (255, 255, 255), "black": (0, 0, 0)}
    m.ok((c or known.get(got)) == want, "picked_colour_entered", "%s for %s" % (got, hex_))


def text(v):
    return "" if v is None else str(v)


def sheet(m, r, rows):
    m.ok([c[1:] for c in [r["header"]]][0] == HEADER, "columns", str(r["header"]))
    m.ok(r["numbers"] == [str(i + 1) for i in range(len(rows))], "row_numbers", str(r["numbers"]))
    m.ok(len(r["values"]) == len(rows) == len(r["shown"]), "number_of_rows", "%d, expected %d" % (len(r["values"]), len(rows)))
    for i, (v, s, want) in enumerate(zip(r["values"], r["shown"], rows)):
        m.ok([text(x) for x in v] == [text(x) for x in want], "sheet_holds_what_was_typed", "row %d: %s, expected %s" % (i + 1, v, want))
        m.ok([x[0] for x in s] == [text(x) for x in want], "sheet_shows_what_was_typed", "row %d: %s, expected %s" % (i + 1, s, want))
        for c, (x, w) in enumerate(zip(s, want)):
            ok = "empty" if w in (None, "") else "ok" if (number(w) is not None if c < 5 else w in COLOURS) else "invalid"
            m.ok(x[1] == ok, "cell_status", "row %d, %s: %r is %s, expected %s" % (i + 1, HEADER[c], w, x[1], ok))


def rgba(s):
    f = re.match(r"rgba?\(\s*(\d+)\s*,\s*(\d+)\s*,\s*(\d+)\s*(?:,\s*([-\d.e]+))?", s or "")
    return (tuple(int(x) for x in f.groups()[:3]), 1. if f.group(4) is None else float(f.group(4))) if f else (None, None)


def plot(m, r, tab, clip, planes, poles, rot, os):
    m.ok(len(r) == 1, "one_plot", "%d plots" % len(r))
    r = r[0]
    if tab:
        planes, poles, rot = False, True, [0, -90]
    else:
        clip = 90
    R = rotation(rot)
    k, t = net_frame(r["sphere"], clip)
    m.ok(abs(t - 200).max() < 1.5 and (abs(2 * k * math.sin(math.radians(clip) / 2) - 175) < 4 if tab and clip < 90 else 100 < math.sqrt(2) * k < 200), "net_fills_its_frame", "centre %s, scale %g" % (t, k))
    for kind, on in (("pole", poles), ("plane", planes)):
        got = [s for s in r["shown"] if s["kind"] == kind]
        want = os if on else []
        m.ok(len(got) == len(want), "orientations_plotted", "%d %ss, expected %d" % (len(got), kind, len(want)))
        alphas = []
        for s, o in zip(got, want):
            parts = {p["cls"][0]: p for p in s["paths"]}
            m.ok(sorted(parts) == sorted(["error"] + (["nominal"] if kind == "plane" else [])), "parts_drawn", str(list(parts)))
            if min(o[3:5]) <= 0:
                continue
            h, ax = cone(o)
            p = parts["error"]
            rgb, al = rgba(p["fill"])
            m.ok(rgb == (o[5] or GREY), "colour", "%s for %s" % (p["fill"], o))
            alphas.append((o[3], al))
            if kind == "pole":
                if abs(ax[2][2]) < 1e-9 and (unit(p["coords"][0][0], LAYOUT)[0] @ ax[2]).mean() < 0:
                    ax[2] *= -1        # vertical: either normal may be called the upper one
                for ring, sh in zip(p["coords"], ("upper", "lower")):
                    ellipse(m, ring[0], h, ax, sh, dict(LAYOUT, slack=1e-11), 200, 1)
            if h.min() >= 1 and h.max() < 1e5 * h.min():
                region(m, p["d"], kind, h, ax, R, clip, k, t, "region")
            if kind == "plane":
                trace(m, parts["nominal"]["d"], ax, R, clip, k, t)
                if o[5]:
                    m.ok(parts["nominal"]["stroke"] in COLOURS and COLOURS[parts["nominal"]["stroke"]] == o[5], "trace_colour", str(parts["nominal"]["stroke"]))
        alphas.sort()
        for (e0, a0), (e1, a1) in zip(alphas, alphas[1:]):
            m.ok(a1 <= a0 + 1e-9 or e0 == e1, "opacity_by_certainty", "errors %g and %g drawn with opacity %g and %g" % (e0, e1, a0, a1))

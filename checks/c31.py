"""C31: the rectangular net and the labels of graticule lines."""
import math, re
from common import *
import frontend
from surfaces import *

RULE = ("the rectangular stereonet component given successive data sets of 0-6 planes of any attitude and error shape, and margin labels of dips and azimuths put along random lines across nets of random size, clip angle, rotation, graticule and frame, "
        "all run by the front-end sources on a recording document; drawn regions are compared with the planes they stand for, every label is mapped back to the sphere and must read the dip or azimuth there, and every crossing of a graticule line must be labelled; distinct by settings, line and data")
CASES = dict(quick=1800, thorough=50000)
FILES = []
ASSUMPTIONS = ["React, hyperscript, kld-intersections, kld-path-parser, chroma-js and the document are stand-ins; d3 and mathjs are the builds kept in the repository",
               "the rectangular figure is observed as first drawn for each data set (not while being dragged)"]

frontend.build("plots.js")
COLOURS = {"red": (255, 0, 0), "#123456": (18, 52, 86), "dodgerblue": (30, 144, 255), "rgb(10,20,30)": (10, 20, 30), "#abc": (170, 187, 204)}
NAMES = {0: "N", 90: "E", 180: "S", 270: "W"}


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def read(text, kind):
    """Latitude or longitude a label stands for."""
    t = text.strip()
    if kind == "AzimuthLabels":
        for a, n in NAMES.items():
            if t == n:
                return 180. - a
    v = float(t.rstrip("\xb0"))
    return v if kind == "GraticuleLabels" else 90 - v if kind == "DipLabels" else 180 - v


def planes(rng, k):
    data, axes, hs = [], [], []
    for i in range(k):
        kind, h, ax = case_axes(rng)
        err = float(10 ** rng.uniform(-2, 1.9))
        d = dict(axes=ax.tolist(), hyperbolic_axes=h.tolist(), uid="u%d" % i, max_angular_error=err)
        if rng.random() < .8:
            d["color"] = str(rng.choice(list(COLOURS)))
        if rng.random() < .3:
            d.update(name="x", strike=1., dip=2., disabled=True, level=3, n=12, center=[1, 2, 3])
        up = ax.copy()
        if up[2][2] < 0:
            up[2] = -up[2]
        data.append(d)
        axes.append(up)
        hs.append(h)
    return data, axes, hs


def figure(m, rng):
    steps, sets = [], []
    for i in range(int(rng.integers(1, 4))):
        s = planes(rng, int(rng.choice([0, 1, 1, 2, 3, 6])))
        if sets and rng.random() < .2:
            s = sets[-1]
        sets.append(s)
        steps += [["show", s[0]], ["figure"], ["unchanged"]]
    m.note(case="figure", data=[s[0] for s in sets])
    out = frontend.ask(m, "plots", steps)
    for s, r in zip(steps, out):
        m.ok(not (isinstance(r, dict) and "error" in r), "step_works", "%s: %s" % (s[0], str(r)[:700]))
    R = rotation([-60, -72, 70])
    k = 375 / (2 * math.sin(math.radians(20)))
    t = N.array([260., 202.5])
    for i, (data, axes, hs) in enumerate(sets):
        fig, same = out[3 * i + 1], out[3 * i + 2]
        m.ok(same is True, "data_untouched")
        m.ok(len(fig) == 1, "one_figure", str(len(fig)))
        f = fig[0]
        m.ok((float(f["width"]), float(f["height"])) == (800, 390), "figure_size", "%s x %s" % (f["width"], f["height"]))
        m.ok(len(f["rects"]) == 1 and [float(x) for x in f["rects"][0][:4]] == [25, 25, 740, 355], "one_frame", str(f["rects"]))
        m.ok([s["ix"] for s in f["shown"]] == list(range(len(data))), "exactly_the_planes_given_in_order", "%s for %d planes" % ([s["ix"] for s in f["shown"]], len(data)))
        m.ok(all(s["kind"] == "pole" and len(s["paths"]) == 1 for s in f["shown"]), "poles_drawn")
        m.ok(len(f["graticule"]) == 1 and len(vertices(f["graticule"][0])) > 100, "graticule_drawn")
        al = []
        for s, d, h, ax in zip(f["shown"], data, hs, axes):
            p = s["paths"][0]
            if abs(ax[2][2]) < 1e-9 and (unit(p["coords"][0][0], LAYOUT)[0] @ ax[2]).mean() < 0:
                ax[2] *= -1
            for ring, sh in zip(p["coords"], ("upper", "lower")):
                ellipse(m, ring[0], h, ax, sh, LAYOUT, 200, 1)
            if h.min() == h[2] and h.max() < 1e5 * h[2]:
                # wide rings are drawn with long chords
                region(m, p["d"], "pole", h, ax, R, 90, k, t, "region", .02 + .06 * h[2] / min(h[0], h[1]))
            q = re.match(r"rgba?\((\d+),(\d+),(\d+)(?:,([\d.e-]+))?\)$", p["fill"] or "")
            m.ok(q is not None, "filled", str(p["fill"]))
            m.ok(tuple(int(x) for x in q.groups()[:3]) == COLOURS.get(d.get("color"), (170, 170, 170)), "own_colour", "%s for %s" % (p["fill"], d.get("color")))
            al.append((d["max_angular_error"], float(q.group(4) or 1)))
        al.sort()
        for (e0, a0), (e1, a1) in zip(al, al[1:]):
            m.ok(a1 <= a0 + 1e-9, "opacity_by_certainty", str(al))
        # the labels of the margins
        got = [(x["text"], place(x["up"][1]["transform"]) if len(x["up"]) > 1 else None) for x in f["texts"]]
        titles = [x["text"] for x in f["texts"] if x["text"] in ("Dip", "Dip azimuth")]
        m.ok(sorted(titles) == ["Dip", "Dip azimuth"], "margins_named", str(titles))
        lab = [x for x in f["texts"] if x["text"] not in ("Dip", "Dip azimuth")]
        seen = {"DipLabels": [], "AzimuthLabels": []}
        for x in lab:
            at = place([u["transform"] for u in x["up"] if "label" in u["cls"]][0])
            kind = "DipLabels" if abs(at[1] - 380) < 1e-6 else "AzimuthLabels"
            m.ok(kind == "DipLabels" or abs(at[0] - 745) < 1e-6, "labels_on_the_margins", "%s at %s" % (x["text"], at))
            judge(m, x["text"], kind, at, R, k, t)
            seen[kind].append(at)
        m.ok(len(seen["DipLabels"]) >= 3 and len(seen["AzimuthLabels"]) >= 3, "margins_labelled", "%d dips, %d azimuths" % (len(seen["DipLabels"]), len(seen["AzimuthLabels"])))
        for kind, a, b in (("DipLabels", (50, 380), (740, 380)), ("AzimuthLabels", (745, 5), (745, 380))):
            complete(m, kind, seen[kind], a, b, 10, 10, R, 90, k, t)
    m.nontrivial("figure", tuple(len(s[0]) for s in sets), tuple(bucket(h[2] / h[0], [1e-3, .1, 1]) for s in sets for h in s[2]))
    m.state("planes", tuple(len(s[0]) for s in sets))


def judge(m, text, kind, at, R, k, t, tol=.05):
    u = unproject(at[None, :], R, k, t)[0]
    lat = math.degrees(math.asin(max(-1, min(1, u[2]))))
    lon = math.degrees(math.atan2(u[1], u[0]))
    try:
        v = read(text, kind)
    except ValueError:
        v = float("nan")
    if kind == "AzimuthLabels":
        m.ok(abs((v - lon + 180) % 360 - 180) * math.cos(math.radians(lat)) < tol, "azimuth_label_reads_the_azimuth", "%s at azimuth %g" % (text, 180 - lon))
        az = (180 - v) % 360
        m.ok(az not in NAMES or text == NAMES[az], "cardinal_azimuths_named", "%s for azimuth %g" % (text, az))
        m.ok(az in NAMES or 0 <= float(text.rstrip("\xb0")) < 360, "azimuths_within_one_turn", text)
    else:
        m.ok(abs(v - lat) < tol, "dip_label_reads_the_dip", "%s at latitude %g" % (text, lat))
    return v


def crossings(kind, a, b, step, latstep, R, clip, k, t):
    """Where the segment crosses lines of the graticule: (value, point, certain)."""
    a, b = N.asarray(a, float), N.asarray(b, float)
    n = 4001
    f = N.linspace(0, 1, n)
    xy = a + f[:, None] * (b - a)
    r = N.hypot(*(xy - t).T) / k
    inside = r < 2 * math.sin(math.radians(clip) / 2)
    u = unproject(xy, R, k, t)
    lat = N.degrees(N.arcsin(N.clip(u[:, 2], -1, 1)))
    if kind == "AzimuthLabels":
        lon = N.degrees(N.arctan2(u[:, 1], u[:, 0]))
        val = N.degrees(N.unwrap(N.radians(lon)))
    else:
        val = lat
    out = []
    q = N.floor(val / step)
    for i in N.nonzero((q[1:] != q[:-1]) & inside[1:] & inside[:-1])[0]:
        if abs(q[i + 1] - q[i]) > 1:
            continue
        c = step * max(q[i], q[i + 1])
        slope = abs(val[i + 1] - val[i])
        # transversal, away from the ends, the edge of the view and the poles
        w = min(i, n - 2 - i)
        g = slope * n / max(1e-9, N.linalg.norm(b - a))
        near = 2 * math.sin(math.radians(clip) / 2) - r[i] > .02
        # degrees on the sphere per pixel must be clear of tangency
        px = g * (math.cos(math.radians(lat[i])) if kind == "AzimuthLabels" else 1)
        certain = w > 60 and near and abs(lat[i]) < min(75, 88 - latstep) and px > .25 * math.degrees(1 / k)
        out.append((c, xy[i], certain))
    return out


def complete(m, kind, at, a, b, lonstep, latstep, R, clip, k, t):
    step = lonstep if kind == "AzimuthLabels" else latstep
    m.ok(len(at) < 2 or min(float(N.hypot(*(p - q))) for i, p in enumerate(at) for q in at[:i]) > 1e-7, "no_label_twice", str(at))
    n = 0
    for c, p, certain in crossings(kind, a, b, step, latstep, R, clip, k, t):
        if not certain:
            continue
        d = min([float(N.hypot(*(q - p))) for q in at] + [1e9])
        m.ok(d < 1 + N.hypot(*(N.subtract(b, a))) / 1500, "every_crossing_labelled", "%s: line %g crosses at %s, nearest label %g away" % (kind, c, p, d))
        n += 1
    return n


def lines(m, rng):
    size = int(rng.integers(200, 900))
    margin = int(rng.integers(0, 50))
    clip = float(rng.choice([90, 90, 40, 25, 60.5, 80]))
    rot = [float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))]
    if rng.random() < .4:
        rot.append(float(rng.uniform(-180, 180)))
    lon, lat = float(rng.choice([10, 15, 30])), float(rng.choice([10, 5, 2.5, 15]))
    s = [["size", size], ["margin", margin]]
    if rng.random() < .5:
        s = s[::-1]
    if clip != 90 or rng.random() < .2:
        s.append(["clipAngle", clip])
    s.append(["center", rot] if rng.random() < .6 else ["rotate", rot])
    s.append(["graticule", lon, lat])
    rect = None
    if rng.random() < .4:
        rect = dict()
        for key, hi in (("width", size), ("height", size), ("x", 50), ("y", 50)):
            if rng.random() < .6:
                rect[key] = int(rng.integers(5, hi))
        s.append(["rectangular", rect] if rect or rng.random() < .5 else ["rectangular"])
    steps = [["net", s, True]]
    asks = []
    for i in range(int(rng.integers(1, 4))):
        kind = str(rng.choice(["DipLabels", "AzimuthLabels", "GraticuleLabels"]))
        c = N.array([size / 2, size / 2]) + rng.uniform(-.3, .3, 2) * size
        u = rng.random()
        if u < .3:
            a, b = (0., float(c[1])), (float(size), float(c[1]))
        elif u < .6:
            a, b = (float(c[0]), 0.), (float(c[0]), float(size))
        else:
            th = rng.uniform(0, 2 * math.pi)
            e = N.array([math.cos(th), math.sin(th)]) * size * rng.uniform(.2, 1)
            a, b = tuple(map(float, c - e)), tuple(map(float, c + e))
        o = {}
        if rng.random() < .6:
            o["offset"] = [float(x) for x in rng.integers(-20, 20, 2)]
        if rng.random() < .4:
            o["rotation"] = float(rng.choice([90, -90, 45]))
        if rng.random() < .4:
            o["title"] = True if rng.random() < .3 else [float(x) for x in rng.integers(0, 300, 2)]
        asks.append((kind, a, b, o))
        steps.append(["label", kind, [a, b], o])
    m.note(case="labels", settings=s, labels=asks)
    out = frontend.ask(m, "plots", steps)
    for q, r in zip(steps, out):
        m.ok(not (isinstance(r, dict) and "error" in r), "step_works", "%s: %s" % (q[0], str(r)[:700]))
    n = out[0]
    R, k, t = rotation(rot), float(n["scale"]), N.array(n["translate"], float)
    m.close(rotation(n["rotate"]), R, 1e-9, "view_as_set")
    c = clip if clip < 89 else 90
    if rect is None:
        m.ok(not n["rects"], "no_frame_unless_asked")
        m.close(t, [size / 2., size / 2.], 1e-9, "net_centred")
    else:
        c = 90
        w, h = rect.get("width", size - 2 * margin), rect.get("height", size - 2 * margin)
        want = [rect.get("x", margin), rect.get("y", margin), w, h]
        m.ok(len(n["rects"]) == 1, "one_frame", str(n["rects"]))
        m.close([float(x) for x in n["rects"][0][:4]], want, 1e-9, "frame_as_asked")
        m.close(t, [w / 2. + margin, h / 2. + margin], 1e-9, "net_centred_in_its_frame")
        m.ok(len(n["interior"]) == 1 and len(n["clips"]) == 1 and n["interior"][0] == "url(#%s)" % n["clips"][0], "interior_clipped_to_the_frame", "%s %s" % (n["interior"], n["clips"]))
    cert = 0
    for (kind, a, b, o), r in zip(asks, out[1:]):
        m.ok(r["chained"], "setters_can_be_chained")
        m.ok(r["offset"] == o.get("offset", [0, 0]) and r["rotation"] == o.get("rotation", 0), "reports_its_settings", "%s %s" % (r["offset"], r["rotation"]))
        m.ok(r["inside"] and r["size"] == len(r["labels"]), "labels_in_the_element")
        at = []
        off = N.array(o.get("offset", [0, 0]), float)
        A, B = N.array(a), N.array(b)
        e = (B - A) / N.linalg.norm(B - A)
        for l in r["labels"]:
            p = place(l["at"])
            m.ok(p is not None, "label_placed", str(l))
            f = (p - A) @ e
            m.ok(abs((p - A) @ N.array([-e[1], e[0]])) < 1e-6 * size and -1e-6 * size <= f <= N.linalg.norm(B - A) + 1e-6 * size, "label_on_its_line", "%s" % p)
            rr = N.hypot(*(p - t)) / k
            m.ok(rr < 2 * math.sin(math.radians(c) / 2) + 1e-3, "label_inside_the_view", "%s" % p)
            # on the very edge the outline itself is part of the clipped line
            if rr < 2 * math.sin(math.radians(c) / 2) - 2e-3:
                u = unproject(p[None, :], R, k, t)[0]
                pole = 90 - abs(math.degrees(math.asin(max(-1, min(1, u[2])))))
                # lines are drawn in chords; flat crossings far out magnify their sag
                judge(m, l["text"], kind, p, R, k, t, .05 + math.degrees(1.5 / k))
            m.ok(len(l["shift"]) == 1, "one_text_per_label")
            M = moved(l["shift"][0])
            m.ok(M is not None, "text_transform", str(l["shift"]))
            m.close(M[:2, 2], off, 1e-9, "text_offset")
            m.close(M[:2, 0], [math.cos(math.radians(o.get("rotation", 0))), math.sin(math.radians(o.get("rotation", 0)))], 1e-9, "text_rotation")
            at.append(p)
        cert += complete(m, kind, at, a, b, lon, lat, R, c, k, t)
        tt = {"DipLabels": "Dip", "AzimuthLabels": "Dip azimuth", "GraticuleLabels": "Latitude"}[kind]
        if "title" in o:
            m.ok(len(r["titles"]) == 1 and r["titles"][0]["text"] == tt, "title", str(r["titles"]))
            m.close(place(r["titles"][0]["at"]), [0, 0] if o["title"] is True else o["title"], 1e-9, "title_place")
        else:
            m.ok(not r["titles"], "no_title_unless_asked")
        m.state("labels", kind, bucket(len(at), [0, 1, 3, 10]))
    m.state("certain crossings", bucket(cert, [0, 1, 5, 20]))
    m.nontrivial("labels", tuple(x[0] for x in asks), bucket(clip, [30, 50, 85]), rect is None, lon, lat, len(rot), bucket(rot[1], [-60, -30, 0, 30, 60]), cert)


def run_case(m, rng, idx):
    if idx % 4 == 0:
        figure(m, rng)
    else:
        lines(m, rng)

"""C22: the front end's error surfaces, features and group centres."""
import math
from common import *
import frontend
from surfaces import *
from attitude import Orientation, ReconstructedPlane

RULE = ("axes and error axes of real exported fits and synthetic ones (right- and left-handed, upside down, horizontal, vertical, extreme ratios) given to the front-end sources bundled from the tree and run by a JavaScript engine, for both layouts, both hemispheres, all sheets, sample counts from 4 to 400 and levels; each returned ring is mapped back to the plane's frame and checked against the defining cone; distinct by options, attitude and shape")
CASES = dict(quick=28000, thorough=400000)
FILES = []
ASSUMPTIONS = ["the sources are bundled with the d3 and mathjs builds kept in the repository; browser elements are replaced by recording stand-ins"]

frontend.build()


def finish(m):
    frontend.stop()


def summary(m, tot):
    frontend.clean()


def area_of_band(s):
    ph = N.linspace(0, 2 * math.pi, 4001)[:-1]
    k = s[2] * N.hypot(N.cos(ph) / s[0], N.sin(ph) / s[1])
    cap = N.mean(1 - k / N.sqrt(1 + k * k)) * 2 * math.pi
    return 4 * math.pi - 2 * cap


def run_case(m, rng, idx):
    mode = ["girdle", "normal", "surface", "features", "plane", "axes", "centroid", "c2s", "girdle", "features"][idx % 10]
    kind, h, ax = case_axes(rng)
    o = options(rng)
    n = o.get("n", 100)
    record = None
    if mode in ("features", "plane") and rng.random() < .2:
        kind = "angles"
        record, h, ax = angles(rng)
    m.note(mode=mode, kind=kind, h=h, axes=ax, opts=o, record=record)
    sig = (mode, kind, tuple(sorted((k, str(v)) for k, v in o.items())), bool(ax[2][2] < 0), bool(N.linalg.det(ax) > 0), bool(h[2] > h[1]))
    m.nontrivial(*sig)
    m.state("mode", mode, kind, "upside-down" if ax[2][2] < 0 else "upright")
    H, A = h.tolist(), ax.tolist()
    if mode == "girdle":
        o["degrees"] = bool(rng.random() < .5)
        sheets = ["nominal", "upper", "lower"]
        out = {}
        for s in sheets:
            q = dict(o, sheet=s)
            if s == "nominal" and rng.random() < .5:
                del q["sheet"]
            a = frontend.ask(m, "call", "math.planeErrors", H, A, q)
            m.ok(a["args"][0] == H and a["args"][1] == A, "arguments_untouched")
            out[s] = girdle(m, a["r"], h, ax, s, o, n)
        # opposite sheets of one plane are antipodal bands
        m.ok(N.sign((out["upper"] @ ax[2])[0]) == -N.sign((out["lower"] @ ax[2])[0]), "sheets_on_opposite_sides")
        if rng.random() < .3:
            d = dict(o)
            d.pop("traditionalLayout")
            a = frontend.ask(m, "call", "math.planeErrors", H, A, dict(d, sheet="upper"))
            girdle(m, a["r"], h, ax, "upper", dict(o, traditionalLayout=True), n)
            m.ok(True, "default_layout")
        if rng.random() < .3:
            a = frontend.ask(m, "call", "math.planeErrors", H, None, dict(o, sheet="upper"))
            girdle(m, a["r"], h, N.eye(3), "upper", o, n)
        if rng.random() < .3:
            a = frontend.ask(m, "call", "math.planeErrors", H, A)
            girdle(m, a["r"], h, ax, "nominal", dict(traditionalLayout=True), 100)
    elif mode == "normal":
        o["degrees"] = bool(rng.random() < .5)
        level = float(rng.choice([1, .5, 2, 3, 10 ** rng.uniform(-1, 1)]))
        got = {}
        for s in ["upper", "lower"]:
            q = dict(o, sheet=s)
            if s == "upper" and rng.random() < .5:
                del q["sheet"]
            if level != 1 or rng.random() < .5:
                q["level"] = level
            a = frontend.ask(m, "call", "math.normalErrors", H, A, q)
            m.ok(a["args"][0] == H and a["args"][1] == A, "arguments_untouched")
            got[s] = ellipse(m, a["r"], h, ax, s, o, n, level)
        # duality: at level 1 every normal is at least perpendicular to nothing inside the band; tangent to the girdle
        if level == 1:
            s = N.sqrt(h)
            e = got["upper"]
            # the plane with normal e touches the cone s0,s1,s2: support function equality
            sup = N.hypot(e[:, 0] * s[0], e[:, 1] * s[1])
            m.close(sup, s[2] * N.abs(e[:, 2]), 1e-6 * s[0] * (1 + s[2] / s[1]), "tangent_to_the_girdle")
    elif mode == "surface":
        base = dict(id=int(rng.integers(100)))
        q = dict(o)
        r = frontend.ask(m, "surface", H, A, q, base)
        od = dict(o, degrees=True)
        for s in ("nominal", "upper", "lower"):
            girdle(m, r["raw"][s], h, ax, s, od, n)
        f = r["f"]
        m.ok(f["type"] == "Feature" and f["geometry"]["type"] == "Polygon", "surface_is_a_polygon")
        rings = f["geometry"]["coordinates"]
        m.ok(len(rings) == 2, "surface_has_two_rings")
        want = sorted(sorted(map(tuple, r["raw"][s])) for s in ("upper", "lower"))
        m.ok(sorted(sorted(map(tuple, x)) for x in rings) == want, "surface_rings_are_the_girdles")
        m.ok(f["data"] == base and r["line"]["data"] == base, "data_attached")
        m.ok(r["line"]["geometry"] == dict(type="LineString", coordinates=r["raw"]["nominal"]), "nominal_line")
        s = N.sqrt(h)
        if n >= 60 and .01 < s[2] / s[0] and s[2] / s[1] < 20:
            m.ok(N.mean(r["contains"]) > .9, "surface_contains_the_plane", "%g of the nominal points" % N.mean(r["contains"]))
            # coarse sampling: compare with the area of the polygon of the true girdles, generously
            if n >= 200 and s[0] / s[1] < 5:
                m.close(f["properties"]["area"], area_of_band(s), .25, "surface_area")
    elif mode == "features":
        lv = [1., 2., float(10 ** rng.uniform(-.5, .5))]
        many = rng.random() < .5
        q = dict(o, degrees=True)
        level = [1.]
        if many:
            level = lv
            q["level"] = lv
        elif rng.random() < .5:
            level = [lv[2]]
            q["level"] = lv[2]
        axf = ax.copy()
        if axf[2][2] < 0:
            axf[2] = -axf[2]
        s = N.sqrt(h)
        props = dict(hyperbolic_axes=H, axes=A)
        if rng.random() < .3:
            props = dict(covariance=H, axes=A)
        elif rng.random() < .2:
            props.update(covariance=[3., 2., 1.], strike=1, dip=2, rake=3, maxError=4, minError=5, n=9, level=7)
        if record is not None:
            props = record
        up, low = axf[2], -axf[2]
        # a direction in the plane is outside small ellipses
        side = axf[0]
        probes = [tolonlat(u, o) for u in (up, low, side)]
        r = frontend.ask(m, "ellipse", props, q, probes)
        m.ok(len(r) == len(level), "one_ellipse_per_level")
        for l, e in zip(level, r):
            f = e["f"]
            m.ok(f["geometry"]["type"] == "MultiPolygon" and len(f["geometry"]["coordinates"]) == 2, "two_ellipses")
            m.close(f["properties"]["level"], l, 1e-12, "level_attached")
            for c, sh in zip(f["geometry"]["coordinates"], ("upper", "lower")):
                ellipse(m, c[0], h, axf, sh, dict(o, degrees=True), n, l)
            for part, sh, i in zip(e["parts"], ("upper", "lower"), (0, 1)):
                m.ok(part["area"] <= 2 * math.pi + 1e-9, "ellipse_winding", "area %g" % part["area"])
                k0, k1 = l * s[2] / s[0], l * s[2] / s[1]
                if n >= 50 and k1 < 10 and k0 > 1e-3:
                    m.ok(part["contains"][i], "ellipse_contains_the_pole", sh)
                    m.ok(not part["contains"][1 - i], "ellipse_excludes_the_other_pole", sh)
                    if n >= 200 and k1 < 3 and k1 / k0 < 4:
                        ph = N.linspace(0, 2 * math.pi, 4001)[:-1]
                        t = 1 / N.hypot(N.cos(ph) / k0, N.sin(ph) / k1)
                        a = N.mean(1 - 1 / N.sqrt(1 + t * t)) * 2 * math.pi
                        m.close(part["area"], a, .1 * a + 1e-9, "ellipse_area")
    elif mode == "plane":
        q = dict(o)
        if rng.random() < .4:
            q["nominal"] = bool(rng.random() < .5)
        props = dict(hyperbolic_axes=H, axes=A, name="p") if record is None else dict(record, name="p")
        r = frontend.ask(m, "plane", props, q)
        want = ["error"] + (["nominal"] if q.get("nominal", True) else [])
        m.ok([k["tag"] for k in r] == ["path"] * len(want), "paths", str(r)[:200])
        for k, w in zip(r, want):
            m.ok(w in k["cls"], "path_class", str(k["cls"]))
            m.ok(("unconstrained" in k["cls"]) == (w == "error" and bool(h[2] > h[1])), "unconstrained_flag", str(k["cls"]))
        axf = ax.copy()
        if axf[2][2] < 0:
            axf[2] = -axf[2]
        od = dict(o, degrees=True)
        rings = r[0]["datum"]["geometry"]["coordinates"]
        m.ok(len(rings) == 2, "surface_has_two_rings")
        sides = []
        for ring in rings:
            u, _ = unit(ring, od)
            c = N.sign(N.median(u @ axf[2]))
            sides.append(c)
            sheet = "upper" if (c > 0) != o.get("upperHemisphere", True) else "lower"
            girdle(m, ring, h, axf, sheet, od, n)
        m.ok(sorted(sides) == [-1, 1], "one_ring_each_side")
        if len(want) == 2:
            girdle(m, r[1]["datum"]["geometry"]["coordinates"], h, axf, "nominal", od, n)
        m.ok(r[0]["datum"]["data"]["name"] == "p", "data_attached")
    elif mode == "axes":
        sv = 10 ** rng.uniform(-3, 3, 3) * 10 ** float(rng.choice([-9, 0, 0, 0, 9]))
        B = ax.T.tolist() if rng.random() < .5 else A
        r = frontend.ask(m, "call", "math.convolveAxes", B, sv.tolist())["r"]
        m.close(r, N.array(B) * sv[None, :], 1e-12 * sv.max(), "convolve_scales_columns")
        v, b = frontend.ask(m, "call", "math.deconvolveAxes", r)["r"]
        m.close(N.array(v) / sv, N.ones(3), 1e-12, "deconvolve_lengths")
        m.close(b, B, 1e-12, "deconvolve_axes")
        # already scaled axes are normalised first
        r2 = frontend.ask(m, "call", "math.convolveAxes", r, sv.tolist())["r"]
        m.close(r2, r, 1e-12 * sv.max(), "convolve_normalises")
        x = rng.normal(size=3) * 10 ** rng.uniform(-5, 5)
        m.close(frontend.ask(m, "call", "math.norm", x.tolist())["r"] / N.linalg.norm(x), 1, 1e-14, "norm")
    elif mode == "centroid":
        k = int(rng.integers(1, 7))
        off = 10 ** rng.uniform(-1, 6)
        planes, cs, ls = [], [], []
        for i in range(k):
            l = int(rng.integers(1, 12))
            c = rng.normal(size=3) * off + rng.normal(size=3)
            pl = dict(center=c.tolist(), centered_array=rng.normal(size=(l, 3)).tolist(), axes=A, hyperbolic_axes=H)
            if rng.random() < .3:
                pl.update(n=int(rng.integers(1, 50)), weight=3, mean=[9., 9., 9.], uid="u", disabled=True)
            if rng.random() < .2 and i:
                del pl["centered_array"]
                l = 0
            planes.append(pl)
            cs.append(c)
            ls.append(l)
        cs, ls = N.array(cs), N.array(ls)
        r = frontend.ask(m, "centroid", "computeCentroidAverage", planes)
        m.close(r, (cs * ls[:, None]).sum(axis=0) / ls.sum(), 1e-13 * N.abs(cs).max(), "weighted_centroid")
        r = frontend.ask(m, "centroid", "computeCentroidExtrema", planes)
        m.close(r, (cs.min(axis=0) + cs.max(axis=0)) / 2, 1e-13 * N.abs(cs).max(), "mid_range_centroid")
    else:
        pts = [rand_unit(rng) * 10 ** rng.uniform(-3, 3) for i in range(8)] + [N.eye(3)[i] * sg for i in range(3) for sg in (1, -1)]
        q = {}
        if rng.random() < .5:
            q["traditionalLayout"] = o["traditionalLayout"]
        if "upperHemisphere" in o:
            q["upperHemisphere"] = o["upperHemisphere"]
        if rng.random() < .5:
            q["degrees"] = True
        r = frontend.ask(m, "c2s", q, [p.tolist() for p in pts])
        u, tol = unit(r, dict(q, traditionalLayout=q.get("traditionalLayout", False)))
        m.close(u, N.array([p / N.linalg.norm(p) for p in pts]), tol[:, None] * 4, "spherical_coordinates")
        if rng.random() < .3:
            r = frontend.ask(m, "c2s", None, [p.tolist() for p in pts])
            u, tol = unit(r, dict(traditionalLayout=False))
            m.close(u, N.array([p / N.linalg.norm(p) for p in pts]), tol[:, None] * 4, "spherical_coordinates_default")

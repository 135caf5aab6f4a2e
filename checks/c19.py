"""C19: what is drawn is the plane that was fitted."""
import re
from common import *
import matplotlib.pyplot as P
from matplotlib.path import Path
from matplotlib.patches import Polygon as MPolygon
from matplotlib.colors import to_rgba
import mplstereonet.stereonet_math as SM
from cartopy import crs
from attitude import Orientation, ReconstructedPlane
from attitude.display import stereonet as DS, polar as DP, cartopy as DC
from attitude.display import girdle_error, pole_error, uncertain_plane, plot_aligned, error_comparison
from attitude.error.axes import hyperbolic_axes, sampling_axes, noise_axes
from c14 import lonlat, to_axes_frame
from c15 import Recorder, ring

RULE = ("fits of clouds of any attitude and planes given by angles, drawn on recording stand-ins and on real stereonet, polar and map axes next to bystander axes, with random styling; map features for every error method and level; aligned plots (plain, coloured, thinned) and error comparisons; "
        "every vertex mapped back to a direction in space and tested against the fit and against mplstereonet's own pole; distinct by kind of drawing, attitude and styling")
CASES = dict(quick=5000, thorough=50000)
FILES = ["display/stereonet.py", "display/polar.py", "display/cartopy.py", "display/pca_aligned.py", "display/error_comparison.py", "display/hyperbola.py", "orientation/reconstructed.py"]


def down_world(lon, lat):
    """Stereonet longitude/latitude -> (east, north, up)."""
    c = lonlat(N.column_stack([lon, lat]))
    return N.column_stack([c[:, 1], c[:, 2], -c[:, 0]])


def subject(m, rng):
    """(fit, args or None)"""
    if rng.random() < .45:
        s = float(rng.choice([0, 90, 180, 270, 360, -45, 400])) if rng.random() < .3 else float(rng.uniform(0, 360))
        d = float(rng.choice([0.5, 30, 45, 89, 90])) if rng.random() < .3 else float(rng.uniform(0.1, 89.9))
        r = float(rng.choice([0, 45, 90, 180, -30])) if rng.random() < .3 else float(rng.uniform(0, 180))
        args = (s, d, r, float(10 ** rng.uniform(-1, 1.3)), float(10 ** rng.uniform(-1, 1.7)))
        m.note(plane=args)
        return ReconstructedPlane(*args), args
    c = gen.cloud(rng, lo=5, hi=200, noise=float(10 ** rng.uniform(-3, -1)), dtypes=False)
    fit = Orientation(c.arr)
    if rng.random() < .3:
        fit = Orientation(c.arr, axes=-fit.principal_axes)
    fit = lived(rng, m, fit)
    m.note(strike=c.strike, dip=c.dip, n=c.n, kind=c.kind, scale=c.scale)
    return fit, None


STYLES = [dict(), dict(alpha=.5), dict(facecolor="red"), dict(edgecolor="blue", linewidth=3), dict(zorder=7, facecolor="#123456", alpha=.25), dict(linestyle="--", label="a plane"), dict(alpha=0), dict(zorder=0, linewidth=0), dict(facecolor="none", edgecolor="k"), dict(fill=False)]


def check_style(m, patch, kw):
    m.ok(patch.get_zorder() == kw.get("zorder", 2), "style_zorder", str(patch.get_zorder()))
    if "alpha" in kw:
        m.ok(patch.get_alpha() == kw["alpha"], "style_alpha")
    if "facecolor" in kw:
        m.close(patch.get_facecolor(), to_rgba(kw["facecolor"], kw.get("alpha")), 1e-9, "style_facecolor")
    if "edgecolor" in kw:
        m.close(patch.get_edgecolor(), to_rgba(kw["edgecolor"], kw.get("alpha")), 1e-9, "style_edgecolor")
    if "linewidth" in kw:
        m.ok(patch.get_linewidth() == kw["linewidth"], "style_linewidth")
    if "fill" in kw:
        m.ok(patch.get_fill() == kw["fill"], "style_fill")
    if "label" in kw:
        m.ok(patch.get_label() == kw["label"], "style_label")
    if "linestyle" in kw:
        m.ok(patch.get_linestyle() in ("--", "dashed"), "style_linestyle")


def rings(path):
    """Closed pieces of a compound path."""
    v, c = N.asarray(path.vertices), path.codes
    starts = [i for i, k in enumerate(c) if k == Path.MOVETO]
    return [v[a:b] for a, b in zip(starts, starts[1:] + [len(v)])]


def check_girdle(m, path, fit, axes, d):
    rr = rings(path)
    m.ok(len(rr) == 2 and len(rr[0]) == len(rr[1]) > 50, "girdle_two_rings", str([len(r) for r in rr]))
    codes = list(path.codes)
    m.ok(all(k in (Path.MOVETO, Path.LINETO, Path.CLOSEPOLY) for k in codes), "girdle_codes")
    up = -axes if axes[2, 2] < 0 else axes
    s, dp = [float(x) for x in fit.strike_dip_rake()[:2]]
    pl = down_world(*SM.pole(s, dp))[0]                 # direction of the pole mplstereonet draws
    side = []
    for r in rr:
        w = down_world(r[:, 0], r[:, 1])
        v = w @ N.asarray(up, L).T
        q = N.hypot(v[:, 0] / d[0], v[:, 1] / d[1])
        z = v[:, 2] / q
        m.close(N.abs(z), 2 * d[2], 1e-6 * (2 * d[2] + d[:2].max()), "girdle_is_the_error_surface", "%s" % (d,))
        side.append(float(N.sign(N.median(z))))
        m.ok((N.sign(z) == side[-1]).all() or float(2 * d[2] / d[0]) < 1e-6, "girdle_ring_on_one_side")
        # the surface goes all the way round
        a = N.unwrap(N.arctan2((v[:, 1] / d[1]).astype(float), (v[:, 0] / d[0]).astype(float)))
        m.close(abs(a[-1] - a[0]), 2 * N.pi, 1e-3, "girdle_goes_round")
        # against mplstereonet's own pole: never further from the great circle than the largest error
        m.ok((N.abs(w @ pl) <= N.sin(N.arctan2(2 * float(d[2]), float(min(d[0], d[1])))) + 1e-6).all(), "girdle_near_the_great_circle")
    m.ok(sorted(side) == [-1, 1], "girdle_encloses_the_great_circle", str(side))
    # the second ring is reversed, so that the band between them is filled
    def turn(r):
        w = down_world(r[:, 0], r[:, 1]) @ N.asarray(up, L).T
        return N.sign(N.median(N.diff(N.unwrap(N.arctan2((w[:, 1] / d[1]).astype(float), (w[:, 0] / d[0]).astype(float))))))
    m.ok(turn(rr[0]) == -turn(rr[1]), "girdle_rings_run_opposite")


def check_pole(m, path, fit, axes, d):
    rr = rings(path)
    m.ok(len(rr) == 1 and len(rr[0]) > 50, "pole_one_ring")
    up = -axes if axes[2, 2] < 0 else axes
    w = down_world(rr[0][:, 0], rr[0][:, 1])
    v = -(w @ N.asarray(up, L).T)
    q = N.hypot(d[0] * v[:, 0], d[1] * v[:, 1])
    m.close(q, 2 * d[2] * v[:, 2], 3e-7 * (d.max()), "pole_ring_is_the_dual")
    s, dp = [float(x) for x in fit.strike_dip_rake()[:2]]
    pl = down_world(*SM.pole(s, dp))[0]
    c = (w @ pl)
    m.ok((c > 0).all() or float(2 * d[2]) > 10 * float(min(d[0], d[1])), "pole_ring_on_the_side_of_the_pole")
    big = N.arctan2(2 * float(d[2]), float(min(d[0], d[1])))
    small = N.arctan2(2 * float(d[2]), float(max(d[0], d[1])))
    a = N.arccos(N.clip(c.astype(float), -1, 1))
    m.ok(a.min() > small - 1e-6 and a.max() < big + 1e-6, "pole_ring_within_errors", "%s..%s outside %s..%s" % (a.min(), a.max(), small, big))
    if max(d[0], d[1]) < 8 * min(d[0], d[1]):
        # sampled densely enough to reach the tips
        m.close([a.min(), a.max()], [small, big], 1e-6 + 2e-3 * N.array([small, big]), "pole_ring_distances")
    # encloses: winds once around the pole
    e = N.array([[0, 0, 1.], [1, 0, 0]])
    t = N.cross(pl, e[0] if abs(float(pl[2])) < .9 else e[1])
    t = t / N.sqrt((t ** 2).sum())
    b = N.cross(pl, t)
    an = N.unwrap(N.arctan2((w @ b).astype(float), (w @ t).astype(float)))
    m.close(abs(an[-1] - an[0]), 2 * N.pi, 1e-3, "pole_ring_encloses_the_pole")


def run_case(m, rng, idx):
    k = idx % 7
    if k in (0, 1):
        stereonet(m, rng)
    elif k == 2:
        polar(m, rng)
    elif k in (3, 4):
        maps(m, rng)
    elif k == 5:
        aligned(m, rng) if rng.random() < .6 else real_axes(m, rng)
    else:
        comparison(m, rng) if rng.random() < .6 else polar(m, rng)


def stereonet(m, rng):
    fit, args = subject(m, rng)
    axes, d = N.array(fit.axes), N.diag(fit.covariance_matrix).copy()
    if d.max() / d.min() > 1e7:
        return
    style = dict(STYLES[int(rng.integers(len(STYLES)))])
    rec = Recorder()
    before = axes.copy(), N.array(fit.covariance_matrix)
    (girdle_error if rng.random() < .5 else DS.girdle_error)(rec, fit, **style)
    m.ok(len(rec.patches) == 1, "one_patch_per_plane")
    check_girdle(m, rec.patches[0].get_path(), fit, axes, d)
    check_style(m, rec.patches[0], style)
    (pole_error if rng.random() < .5 else DS.pole_error)(rec, fit, **style)
    m.ok(len(rec.patches) == 2, "one_patch_per_pole")
    check_pole(m, rec.patches[1].get_path(), fit, axes, d)
    check_style(m, rec.patches[1], style)
    m.ok(N.array_equal(before[0], fit.axes) and N.array_equal(before[1], fit.covariance_matrix), "drawing_leaves_the_fit")
    if args:
        r2 = Recorder()
        (uncertain_plane if rng.random() < .5 else DS.uncertain_plane)(r2, *args, **style)
        DS.uncertain_pole(r2, *args, **style)
        m.ok(len(r2.patches) == 2, "one_patch_per_uncertain_plane")
        for a, b, what in zip(rec.patches, r2.patches, ("plane", "pole")):
            va, vb = a.get_path().vertices, b.get_path().vertices
            m.ok(va.shape == vb.shape and list(a.get_path().codes) == list(b.get_path().codes), "angles_drawn_alike_shape")
            m.close(lonlat(vb), lonlat(va), 1e-7, "angles_drawn_like_reconstructed_" + what)
            check_style(m, b, style)
        # the great circle half way is the plane of the given angles
        n = N.asarray(fit.axes[2], L)
        n = n if n[2] >= 0 else -n
        sv, dv, nv = gen.frame(args[0], args[1])
        if args[1] < 89.9:
            m.close(n, nv, 1e-9, "reconstructed_normal")
    m.nontrivial("stereonet", bool(args), bool(axes[2, 2] < 0), len(style), int(fit.strike_dip_rake()[0] // 45), bucket(fit.strike_dip_rake()[1], [1, 20, 45, 80, 89.5]))
    m.state("drawn", "stereonet", "angles" if args else "fit")


class PlotRecorder(Recorder):
    def __init__(self):
        Recorder.__init__(self)
        self.lines = []

    def plot(self, *a, **k):
        self.lines.append((a, k))


def polar(m, rng):
    fit, args = subject(m, rng)
    axes, d = N.array(fit.axes), N.diag(fit.covariance_matrix).copy()
    if d.max() / d.min() > 1e7:
        return
    style = dict(STYLES[int(rng.integers(len(STYLES)))])
    rec = PlotRecorder()
    DP.pole_error(rec, fit, **style)
    m.ok(len(rec.patches) == 1 and not rec.lines, "polar_one_patch")
    check_style(m, rec.patches[0], style)
    v = N.asarray(rec.patches[0].get_path().vertices)
    up = -axes if axes[2, 2] < 0 else axes

    def world(v):
        th, r = v[:, 0].astype(L), N.radians(v[:, 1].astype(L))
        return N.column_stack([N.sin(r) * N.sin(th), N.sin(r) * N.cos(th), N.cos(r)])
    u = world(v) @ N.asarray(up, L).T
    q = N.hypot(d[0] * u[:, 0], d[1] * u[:, 1])
    m.close(q, 2 * d[2] * u[:, 2], 3e-7 * d.max(), "polar_ring_is_the_dual")
    s, dp = [float(x) for x in fit.strike_dip_rake()[:2]]
    if .01 < dp < 89.9:
        cen = world(N.array([[N.radians(s + 90), dp]]))[0]
        m.close(cen, up[2], 1e-6, "polar_centre_is_dip_direction_and_dip")
    if args:
        r2 = PlotRecorder()
        DP.uncertain_pole(r2, *args, **style)
        m.ok(len(r2.patches) == 1, "polar_angles_one_patch")
        v2 = N.asarray(r2.patches[0].get_path().vertices)
        m.close(world(v2), world(v), 1e-7, "polar_angles_drawn_alike")
        check_style(m, r2.patches[0], style)
    r3 = PlotRecorder()
    DP.pole(r3, s, dp, "ko", markersize=3)
    m.ok(len(r3.lines) == 1 and not r3.patches, "polar_pole_one_mark")
    a, k = r3.lines[0]
    m.close(world(N.array([[float(a[0]), float(a[1])]])), world(N.array([[N.radians(s + 90), dp]])), 1e-12, "polar_pole_position")
    m.ok(tuple(a[2:]) == ("ko",) and k == dict(markersize=3), "polar_pole_style", "%s %s" % (a, k))
    m.nontrivial("polar", bool(args), bool(axes[2, 2] < 0), len(style), int(s // 45), bucket(dp, [1, 20, 45, 80, 89.5]))
    m.state("drawn", "polar", "angles" if args else "fit")


def frame_nontraditional(deg, axes):
    return to_axes_frame(N.radians(N.asarray(deg, float)), axes, False)


def maps(m, rng):
    fit, args = subject(m, rng)
    axes = N.array(fit.axes)
    up = -axes if axes[2, 2] < 0 else axes
    jobs = []
    if args:
        d = N.diag(fit.covariance_matrix).copy()
        jobs.append((fit.cartopy_girdle(), fit.cartopy_normal(), d, False))
    else:
        kw = {}
        if rng.random() < .7:
            kw["type"] = str(rng.choice(["noise", "sampling", "eigenvalue"])) if rng.random() < .8 else "noise"
        if rng.random() < .5:
            kw["confidence_level"] = float(rng.uniform(.5, .99))
        try:
            d = N.array(hyperbolic_axes(fit, **kw), float)
        except Exception:
            kw.pop("type", None)
            d = N.array(hyperbolic_axes(fit, **kw), float)
        m.note(options=kw)
        jobs.append((DC.cartopy_girdle(fit, **kw), DC.cartopy_normal(fit, **kw), d, True))
    for gird, norm, d, trad in jobs:
        if not (d > 0).all() or d.max() / d.min() > 1e6:
            return
        for f in (gird, norm):
            m.ok(isinstance(f.crs, crs.PlateCarree), "map_coordinates")
        G = list(gird.geometries())
        m.ok(len(G) == 1 and len(G[0].interiors) == 1, "map_girdle_is_a_band")
        zs = []
        for r in (G[0].exterior, G[0].interiors[0]):
            v = to_axes_frame(N.radians(N.array(r.coords)), axes, trad)
            q = N.hypot(v[:, 0] / d[0], v[:, 1] / d[1])
            z = v[:, 2] / q
            m.close(N.abs(z), 2 * d[2], 1e-6 * (2 * d[2] + d[:2].max()), "map_girdle_is_the_error_surface")
            zs.append(N.sign(N.median(z)))
            a = N.unwrap(N.arctan2((v[:, 1] / d[1]).astype(float), (v[:, 0] / d[0]).astype(float)))
            m.close(abs(a[-1] - a[0]), 2 * N.pi, 1e-3, "map_girdle_goes_round")
        s = -1 if axes[2, 2] > 0 else 1
        m.ok(zs == [s, -s], "map_girdle_outer_and_inner", str(zs))
        R = list(norm.geometries())
        m.ok(len(R) == 1 and not len(R[0].interiors), "map_normal_is_a_ring")
        c = lonlat(N.radians(N.array(R[0].exterior.coords)))
        w = N.column_stack([c[:, 1], -c[:, 2], c[:, 0]]) if trad else N.column_stack([c[:, 1], -c[:, 0], c[:, 2]])
        v = w @ N.asarray(up, L).T
        q = N.hypot(d[0] * v[:, 0], d[1] * v[:, 1])
        m.close(q, 2 * d[2] * v[:, 2], 3e-7 * d.max(), "map_normal_is_the_dual")
        m.nontrivial("map", trad, bool(axes[2, 2] < 0), bucket(d.max() / d.min(), [10, 1e3]), int(N.degrees(N.arctan2(up[2, 0], up[2, 1])) // 45))
    m.state("drawn", "map", "angles" if args else "fit")


def children(ax):
    return len(ax.lines) + len(ax.patches) + len(ax.collections)


def real_axes(m, rng):
    """Real stereonet and polar axes; a bystander must stay empty."""
    P.close("all")
    fig = P.figure()
    a = fig.add_subplot(121, projection="stereonet")
    b = fig.add_subplot(122, projection="polar")
    other = P.figure().add_subplot(111)      # current axes
    try:
        fit, args = subject(m, rng)
        axes, d = N.array(fit.axes), N.diag(fit.covariance_matrix).copy()
        if d.max() / d.min() > 1e7:
            return
        n0 = children(a), children(b), len(P.get_fignums())
        seq = [str(x) for x in rng.permutation(["girdle", "pole", "polar", "mark"])]
        for what in seq:
            if what == "girdle":
                DS.girdle_error(a, fit, alpha=.4)
                check_girdle(m, a.patches[-1].get_path(), fit, axes, d)
            elif what == "pole":
                DS.pole_error(a, fit, facecolor="green")
                check_pole(m, a.patches[-1].get_path(), fit, axes, d)
            elif what == "polar":
                DP.pole_error(b, fit)
            else:
                DP.pole(b, 30, 40, "k.")
        m.ok((children(a) - n0[0], children(b) - n0[1], len(P.get_fignums())) == (2, 2, n0[2]), "artists_on_requested_axes")
        m.ok(children(other) == 0, "bystander_axes_empty")
        fig.canvas.draw()
        m.ok(P.gca() is other, "current_axes_unchanged")
        m.nontrivial("real", tuple(seq), bool(args))
        m.state("drawn", "real axes", "angles" if args else "fit")
    finally:
        P.close("all")


def band(m, xy, x, h0, h2, label):
    """A drawn polygon against the hyperbola of the error axes."""
    xy = N.asarray(xy, L)
    n = len(xy) // 2
    m.ok(n >= 50, label + "_vertices", str(len(xy)))
    m.close(xy[[0, n - 1], 0], x, 1e-9 * N.abs(x).max(), label + "_extent")
    x = xy[:n, 0]
    m.ok((N.diff(x) > 0).all(), label + "_monotonic")
    y = N.sqrt(L(h2) * (1 + N.asarray(x, L) ** 2 / L(h0)))
    tol = 1e-9 * float(N.abs(x).max() + y.max())
    m.close(xy[:n], N.column_stack([x, -y]), tol, label + "_lower")
    m.close(xy[n:2 * n], N.column_stack([x, y])[::-1], tol, label + "_upper")


def aligned(m, rng):
    P.close("all")
    big = rng.random() < .08
    c = gen.cloud(rng, lo=6, hi=300, n=int(rng.integers(10001, 40000)) if big else None, noise=float(10 ** rng.uniform(-3, -1)), dtypes=False, scale=float(10 ** rng.uniform(0, 3)))
    fit = Orientation(c.arr)
    if rng.random() < .3:
        fit = Orientation(c.arr, axes=-fit.principal_axes)
    fit = lived(rng, m, fit)
    m.note(strike=c.strike, dip=c.dip, n=c.n, scale=c.scale)
    A = N.array(fit.rotated())
    if fit.normal[2] < 0:
        A[:, -1] *= -1
    h = N.array(sampling_axes(fit), float)
    if not (h > 0).all() or not (A.max(0) - A.min(0) > 0).all():
        return
    kw = {}
    if rng.random() < .3:
        kw["colormap"] = "viridis"
    sparse = True
    if rng.random() < .3:
        sparse = False
        kw["sparse"] = False
    other = P.figure().add_subplot(111)
    fig = plot_aligned(fit, **kw)
    try:
        m.ok(children(other) == 0, "aligned_bystander_empty")
        m.ok(len(fig.axes) == 3, "aligned_three_panels")
        m.close(N.asarray(fit.rotated())[:, :2], A[:, :2], 1e-9 * N.abs(A).max(), "aligned_leaves_the_fit")
        step = int(N.ceil(len(A) / 10000)) if sparse and len(A) > 10000 else 1
        B = A[::step]
        for ax, (a, b) in zip(fig.axes, [(0, 1), (0, 2), (1, 2)]):
            if "colormap" in kw:
                sc = ax.collections[-1]
                pts = N.asarray(sc.get_offsets())
                m.close(sc.get_array(), B[:, -1], 1e-9 * N.abs(A).max(), "aligned_colours")
            else:
                pts = N.column_stack(ax.lines[-1].get_data())
            m.ok(pts.shape == (len(B), 2), "aligned_point_count", "%s of %d" % (pts.shape, len(B)))
            m.close(pts, B[:, [a, b]], 1e-9 * N.abs(A).max(), "aligned_points")
            polys = [p for p in ax.patches if isinstance(p, MPolygon)]
            if b == 2:
                m.ok(len(polys) == 1, "aligned_one_envelope")
                x = N.array([A[:, 0].min() * 1.2, A[:, 0].max() * 1.2])
                band(m, polys[0].get_xy(), x, h[a], h[2], "aligned_envelope")
                txt = " ".join(t.get_text() for t in ax.texts)
                g = re.search(r": ([-\d.e+]+) m, angular error \(95% CI\): ([\d.]+)", txt)
                m.ok(g is not None, "aligned_title", txt)
                m.close(float(g.group(1)), A[:, a].max() - A[:, a].min(), 1e-6 + 1e-9 * N.abs(A).max(), "aligned_length")
                m.close(float(g.group(2)), 2 * N.degrees(N.arctan2(N.sqrt(h[2]), N.sqrt(h[a]))), .0051, "aligned_angular_error")
            else:
                m.ok(not polys, "aligned_plan_has_no_envelope")
            line = ax.lines[0].get_data()
            m.close(line, [[A[:, a].min(), A[:, a].max()], [0, 0]], 1e-9 * N.abs(A).max(), "aligned_baseline")
        m.nontrivial("aligned", bool(kw), step, bool(fit.normal[2] < 0), bucket(len(A), [10, 100, 10000]))
        m.state("drawn", "aligned", "thinned" if step > 1 else "all")
    finally:
        P.close("all")


def comparison(m, rng):
    P.close("all")
    c = gen.cloud(rng, lo=8, hi=120, noise=float(10 ** rng.uniform(-3, -1)), dtypes=False, scale=float(10 ** rng.uniform(0, 3)))
    fit = lived(rng, m, Orientation(c.arr))
    A = N.array(fit.rotated())
    m.note(strike=c.strike, dip=c.dip, n=c.n, scale=c.scale)
    kw = dict(width=float(10 ** rng.uniform(-1, 1)) * c.scale)
    if rng.random() < .5:
        kw["height"] = float(10 ** rng.uniform(-2, 0)) * c.scale
    if rng.random() < .3:
        kw["aspect_ratio"] = float(rng.choice([1, 5]))
    boot = rng.random() < .012
    hs = dict([("Variance", N.array(fit.singular_values, float)), ("Sampling-based", N.array(sampling_axes(fit), float)), ("Noise-based", N.array(noise_axes(fit), float))])
    if not all((h > 0).all() for h in hs.values()):
        return
    other = P.figure().add_subplot(111)
    if boot:
        N.random.seed(int(rng.integers(2 ** 31)))
    fig = error_comparison(fit, do_bootstrap=True, **dict(kw)) if boot else error_comparison(fit, **dict(kw))
    try:
        m.ok(children(other) == 0, "comparison_bystander_empty")
        m.ok(len(fig.axes) == 1, "comparison_one_panel")
        ax = fig.axes[0]
        w = kw["width"] / 2
        m.close(ax.get_xlim(), (-w, w), 1e-9 * w, "comparison_width")
        hh = kw.get("height", kw["width"] / 25) / 2
        m.close(ax.get_ylim(), (-hh, hh), 1e-9 * hh, "comparison_height")
        if "aspect_ratio" in kw:
            m.ok(ax.get_aspect() == kw["aspect_ratio"], "comparison_aspect")
        x = N.array([-w, w])
        polys = {p.get_label(): p for p in ax.patches if isinstance(p, MPolygon)}
        m.ok(set(polys) == set(hs), "comparison_methods", str(sorted(polys)))
        for k, h in hs.items():
            band(m, polys[k].get_xy(), x, h[1], h[2], "comparison_" + k.split("-")[0].lower())
        m.close(ax.lines[0].get_data(), [[-w, w], [0, 0]], 1e-9 * w, "comparison_nominal")
        m.ok(ax.lines[0].get_label() == "Nominal fit", "comparison_nominal_label")
        pts = N.column_stack(ax.lines[1].get_data())
        m.ok(pts.shape == (len(A), 2), "comparison_point_count")
        m.close(pts, A[:, 1:], 1e-9 * N.abs(A).max(), "comparison_points")
        lab = [t.get_text() for t in ax.get_legend().get_texts()]
        m.ok(set(hs) | {"Nominal fit"} <= set(lab), "comparison_legend", str(lab))
        m.close(N.asarray(fit.rotated()), A, 1e-9 * N.abs(A).max(), "comparison_leaves_the_fit")
        m.nontrivial("comparison", tuple(sorted(kw)), boot, bucket(len(A), [10, 50]))
        m.state("drawn", "comparison", "bootstrapped" if boot else "plain")
    finally:
        P.close("all")

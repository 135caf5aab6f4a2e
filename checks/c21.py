"""C21: extracted coordinates are the terrain under the digitised shape."""
import sys, types
from common import *
import shapely
from shapely.geometry import Point, LineString, MultiLineString, Polygon, MultiPolygon
from shapely import affinity
from affine import Affine
import rasterio
from rasterio.io import MemoryFile

CALLS = []


def _subdivide(geometry, interval=1, **kw):
    """Stands in for the third-party `subdivide`, which cannot edit the
    immutable geometries of the installed shapely.  Vertices are kept."""
    CALLS.append(interval)
    if geometry.geom_type == "Point":
        return geometry
    if hasattr(geometry, "geoms"):
        return MultiLineString([_subdivide(g, interval) for g in geometry.geoms])
    c = N.array(geometry.coords)[:, :2]
    out = [c[0]]
    for a, b in zip(c[:-1], c[1:]):
        n = max(1, int(N.ceil(N.hypot(*(b - a)) / interval)))
        out += [a + (b - a) * k / n for k in range(1, n)] + [b]
    return LineString(out)


_mod = types.ModuleType("subdivide")
_mod.subdivide = _subdivide
sys.modules["subdivide"] = _mod
from attitude.helpers.dem import extract_shape, extract_line, extract_area, offset_mask, clean_coordinates, coords_array
from attitude.helpers import interpolation
from attitude import Orientation

RULE = ("in-memory rasters (1x1 to 60x60, seven dtypes, one to three bands, north-up, flipped, anisotropic, sheared and rotated georeferencing near and far from the origin; planar, random and stepped values; scattered and blocky no-data, NaN) and points, lines, multi-lines, polygons with holes and multi-polygons, 2-D and 3-D, inside and touching the edges; "
        "every returned coordinate is tested against the geometry and against bilinear interpolation of the full array, completeness against the pixels whose neighbourhood is valid; distinct by raster and geometry class")
CASES = dict(quick=24000, thorough=300000)
FILES = ["helpers/dem.py", "helpers/interpolation.py"]
DTYPES = ["float64", "float32", "int16", "uint8", "int32", "uint16", "float64"]


def raster(rng):
    h, w = (int(x) for x in rng.integers(1, 60, 2)) if rng.random() < .2 else (int(x) for x in rng.integers(6, 40, 2))
    if rng.random() < .02:
        # sizes at the limits of small integer types
        h, w = (int(x) for x in (rng.choice([128, 255, 256, 257, 512]), rng.integers(2, 12))[::int(rng.choice([-1, 1]))])
    k = str(rng.choice(["north_up", "flipped", "anisotropic", "rotated", "sheared", "pixel"]))
    p = float(10 ** rng.uniform(*([-2, 2] if rng.random() < .7 else [-6, 4]))) if rng.random() < .6 else 1.
    o = rng.normal(size=2) * float(rng.choice([1, 100, 1e5])) * p
    T = Affine.translation(*o)
    if k == "north_up":
        T = T * Affine.scale(p, -p)
    elif k == "flipped":
        T = T * Affine.scale(-p if rng.random() < .5 else p, p)
    elif k == "anisotropic":
        T = T * Affine.scale(p, -p * float(rng.uniform(.2, 4)))
    elif k == "rotated":
        T = T * Affine.rotation(float(rng.uniform(0, 360))) * Affine.scale(p, -p * float(rng.uniform(.5, 2)))
    elif k == "sheared":
        T = T * Affine.shear(float(rng.uniform(-40, 40)), float(rng.uniform(-10, 10))) * Affine.scale(p, -p)
    else:
        T = Affine.identity()
        p = 1.
    dt = DTYPES[int(rng.integers(len(DTYPES)))]
    vals = str(rng.choice(["planar", "random", "steps"]))
    y, x = N.mgrid[:h, :w] + .5
    g = rng.normal(size=2) * 3
    if vals == "planar":
        a = 50 + g[0] * x + g[1] * y if dt[0] == "f" else N.round(100 + N.clip(N.round(g[0]), -2, 2) * (x - w / 2) + 0 * y)
    elif vals == "random":
        a = rng.normal(size=(h, w)) * 20 + 100
    else:
        a = N.floor(x / 3) * 7 + N.floor(y / 5) * 3 + 10
    u = rng.random()
    if dt[0] != "f":
        # zero and negative elevations are as good as any
        low = 1 if u < .5 else 0
        if dt[0] == "i" and rng.random() < .5:
            a, low = a - 100, -250
        a = N.trunc(N.clip(a, low, 250))
        if u < .5:
            a[a == 0] = 1
    a = a.astype(dt)
    nd, bad, how = None, N.zeros((h, w), bool), "values"
    if u < .5 and h > 3 and w > 3:
        if rng.random() < .5:
            bad = rng.random((h, w)) < .1
        else:
            i, j = int(rng.integers(0, h - 1)), int(rng.integers(0, w - 1))
            bad[i:i + int(rng.integers(1, 6)), j:j + int(rng.integers(1, 6))] = True
        if dt[0] == "f" and rng.random() < .4:
            a[bad] = N.nan
            nd = N.nan if rng.random() < .5 else None
        elif rng.random() < .2:
            # marked by a mask band, whatever the values below
            how = "mask_band"
        else:
            nd = (0 if rng.random() < .5 else 255 if dt[0] == "u" else -9999) if dt[0] != "f" else float(rng.choice([-9999., -3.4028234663852886e+38]))
            a[bad] = nd
    bands = int(rng.choice([1, 1, 2, 3]))
    band = int(rng.integers(1, bands + 1))
    mf = MemoryFile()
    kw = dict(nodata=nd) if nd is not None else {}
    with rasterio.Env(GDAL_TIFF_INTERNAL_MASK=True), mf.open(driver="GTiff", width=w, height=h, count=bands, dtype=dt, transform=T, **kw) as d:
        for b in range(1, bands + 1):
            d.write(a if b == band else (a * 0 + 7).astype(dt), b)
        if how == "mask_band":
            d.write_mask(~bad)
    return mf, mf.open(), a, bad, T, band, dict(marked=how, size=(h, w), georeferencing=k, dtype=dt, values=vals, nodata=nd, bad=int(bad.sum()), bands=bands)


def inv(T):
    return ~T


def to_px(T, xy):
    """Extended-precision inverse of the affine."""
    xy = N.asarray(xy, L)
    a, b, c, d, e, f = (L(v) for v in (T.a, T.b, T.c, T.d, T.e, T.f))
    x, y = xy[:, 0] - c, xy[:, 1] - f
    det = a * e - b * d
    return N.column_stack([(e * x - b * y) / det, (a * y - d * x) / det])


def to_world(T, px):
    px = N.asarray(px, L)
    return N.column_stack([T.a * px[:, 0] + T.b * px[:, 1] + T.c, T.d * px[:, 0] + T.e * px[:, 1] + T.f])


def bilinear_ref(a, bad, px, eps):
    """(value, needed pixels valid, surely invalid, possibly invalid)"""
    h, w = a.shape
    r = N.clip(px[:, 1] - .5, 0, h - 1)
    c = N.clip(px[:, 0] - .5, 0, w - 1)
    val, surely, maybe = [], [], []
    A = N.where(bad, 0, a).astype(L)
    for i, j in zip(r, c):
        i0, j0 = min(int(N.floor(i)), max(h - 2, 0)), min(int(N.floor(j)), max(w - 2, 0))
        i1, j1 = min(i0 + 1, h - 1), min(j0 + 1, w - 1)
        fi, fj = i - i0, j - j0
        v = A[i0, j0] * (1 - fi) * (1 - fj) + A[i1, j0] * fi * (1 - fj) + A[i0, j1] * (1 - fi) * fj + A[i1, j1] * fi * fj
        ws = [((i0, j0), (1 - fi) * (1 - fj)), ((i1, j0), fi * (1 - fj)), ((i0, j1), (1 - fi) * fj), ((i1, j1), fi * fj)]
        surely.append(any(bad[k] for k, q in ws if q > eps))
        lo_i, hi_i = max(int(N.floor(i - eps)), 0), min(int(N.floor(i + eps)) + 1, h - 1)
        lo_j, hi_j = max(int(N.floor(j - eps)), 0), min(int(N.floor(j + eps)) + 1, w - 1)
        maybe.append(bool(bad[lo_i:hi_i + 1, lo_j:hi_j + 1].any()))
        val.append(v)
    return N.array(val, L), N.array(surely, bool), N.array(maybe, bool)


def inside(rng, h, w, n):
    """Pixel positions in the footprint, often on centres or edges."""
    p = rng.uniform(0, 1, (n, 2)) * [w, h]
    u = rng.random()
    if u < .15:
        p = N.floor(p) + .5
    elif u < .25:
        p = N.clip(N.round(p), 0, [w, h])
    elif u < .4:
        p = N.clip(p + rng.choice([-1, 1], (n, 2)) * [w, h] * .4, 0, [w, h])
    return p


def run_case(m, rng, idx):
    mf, dem, a, bad, T, band, info = raster(rng)
    try:
        m.note(**info)
        k = idx % 5
        if k in (0, 1, 2):
            lines(m, rng, dem, a, bad, T, band, info)
        else:
            area(m, rng, dem, a, bad, T, band, info)
        if idx % 7 == 0:
            pieces(m, rng)
    finally:
        dem.close()
        mf.close()


def lines(m, rng, dem, a, bad, T, band, info):
    h, w = a.shape
    kind = str(rng.choice(["LineString", "LineString", "MultiLineString", "Point"]))
    if kind == "Point":
        parts = [inside(rng, h, w, 1)]
    elif kind == "LineString":
        p = inside(rng, h, w, int(rng.integers(2, 9)))
        parts = [p[N.argsort(p[:, 0], kind="stable")]]
    else:
        parts = []
        n = int(rng.integers(1, 4))
        for i in range(n):
            p = inside(rng, h, w, int(rng.integers(2, 6)))
            p[:, 1] = (p[:, 1] + i * h) / n
            parts.append(p[N.argsort(p[:, 0], kind="stable")])
    parts = [p if len(p) == 1 or N.ptp(p, axis=0).any() else p + N.linspace(0, .3, len(p))[:, None] * N.where(p < [w, h], 1, -1)[0] for p in parts]
    parts = [N.clip(p, 0, [w, h]) for p in parts]
    world = [N.asarray(to_world(T, p), float) for p in parts]
    dim3 = rng.random() < .3
    wc = [N.column_stack([q, rng.normal(size=len(q)) * 1e3]) if dim3 else q for q in world]
    if kind == "Point":
        geom = Point(wc[0][0])
    elif kind == "LineString":
        geom = LineString(wc[0])
    else:
        geom = MultiLineString(wc)
    # geometries may slip out of the footprint by rounding only
    before = shapely.to_wkb(geom, output_dimension=3)
    kw = {}
    if info["bands"] > 1 or rng.random() < .2:
        kw["band"] = band
    interval = None
    if rng.random() < .45:
        kw["subdivide"] = None
    elif rng.random() < .5:
        interval = 1
    else:
        interval = float(rng.uniform(.3, 5))
        kw["subdivide"] = interval
    if not bad.any() and rng.random() < .3:
        kw["masked"] = False
    m.note(geometry=geom.wkt[:300], options=kw)
    fn = extract_shape
    m.ok(geom.area == 0, "line_has_no_area")
    got = fn(geom, dem, **dict(kw))
    m.ok(isinstance(got, N.ndarray) and got.ndim == 2 and got.shape[1] == 3, "line_shape", str(N.shape(got)))
    m.ok(N.isfinite(got).all(), "line_finite")
    m.ok(shapely.to_wkb(geom, output_dimension=3) == before, "geometry_untouched")
    ext = float(max(N.abs(q).max() for q in world))
    pix = float(N.sqrt(abs(T.determinant)))
    pxerr = max(1e-9, 1e-13 * ext / pix * 50)
    if pxerr > 1e-4:
        return
    gp = to_px(T, got[:, :2]) if len(got) else N.zeros((0, 2), L)
    # 1. positions: on the line, in order
    pos = 0
    if interval is None:
        want = N.vstack(parts)
        val, surely, maybe = bilinear_ref(a, bad, N.asarray(want, L), max(pxerr * 10, 1e-6))
        out = []
        i = 0
        for p, s, mb in zip(want, surely, maybe):
            hit = i < len(gp) and float(N.abs(gp[i] - p).max()) < pxerr * 10
            if hit and not s:
                i += 1
                continue
            m.ok(s or mb, "every_valid_vertex_extracted", "vertex at pixel %s is missing (next returned %s)" % (p, gp[i] if i < len(gp) else None))
        m.ok(i == len(gp), "nothing_but_the_vertices", "%d returned, %d matched of %d" % (len(gp), i, len(want)))
    else:
        cursor = (0, 0.)
        segs = []
        for p in parts:
            if len(p) == 1:
                segs.append((p[0], p[0]))
            segs += list(zip(p[:-1], p[1:]))
        si = 0
        last = None
        for g in gp:
            ok = False
            for k in range(si, len(segs)):
                A, B = (N.asarray(x, L) for x in segs[k])
                d = B - A
                l2 = float(d @ d)
                t = float((g - A) @ d / l2) if l2 else 0.
                tt = min(max(t, 0), 1)
                if float(N.abs(g - (A + d * tt)).max()) < pxerr * 10 + 1e-9:
                    if k == si and last is not None and tt * l2 ** .5 < last - pxerr * 10 - 1e-9:
                        continue
                    if k != si or last is None:
                        last = None
                    si, last, ok = k, tt * l2 ** .5, True
                    break
            m.ok(ok, "extracted_points_on_the_line_in_order", "pixel %s" % (g,))
        # 2. the vertices and everything in between are there
        want = N.vstack(parts)
        val, surely, maybe = bilinear_ref(a, bad, N.asarray(want, L), max(pxerr * 10, 1e-6))
        for p, mb in zip(want, maybe):
            if not mb:
                m.ok(len(gp) and float(N.abs(gp - p).max(axis=1).min()) < pxerr * 10 + 1e-9, "vertices_kept", "vertex at pixel %s is missing" % (p,))
        if not bad.any():
            for p in parts:
                length = float(N.hypot(*(N.diff(p, axis=0)).T).sum()) if len(p) > 1 else 0
                near = 0
            if len(parts) == 1 and len(gp) > 1:
                gaps_ = N.hypot(*N.diff(N.asarray(gp, float), axis=0).T)
                m.ok(gaps_.max() <= interval * (1 + 1e-6) + pxerr * 10, "spacing", "gap of %s pixels for interval %s" % (gaps_.max(), interval))
    # 3. elevations
    if len(gp):
        eps = max(pxerr * 10, 1e-6)
        val, surely, maybe = bilinear_ref(a, bad, gp, eps)
        m.ok(not surely.any(), "no_invalid_pixels", "points %s interpolate invalid pixels" % N.asarray(gp[surely][:3], float))
        sel = ~surely & ~maybe
        rng_ = float(N.nanmax(N.abs(N.where(bad, N.nan, a.astype(float))))) if (~bad).any() else 1.
        tol = rng_ * (1e-11 + 8 * pxerr)
        m.close(got[sel, 2], val[sel], tol, "elevation_is_bilinear")
        # borderline ones: the invalid neighbour must have had no weight
        sel = ~surely & maybe
        m.close(got[sel, 2], val[sel], tol + rng_ * 8e-6, "elevation_is_bilinear_next_to_invalid")
    else:
        m.state("empty", kind)
    m.nontrivial(kind, info["georeferencing"], info["dtype"], info["values"], bool(bad.any()), interval is None, dim3, len(gp) > 0)
    m.state("line", kind, info["georeferencing"])
    m.state("points", bucket(len(gp), [1, 2, 10, 100]))


def star(rng, cx, cy, rx, ry, n):
    t = N.sort(rng.uniform(0, 2 * N.pi, n))
    r = rng.uniform(.4, 1, n)
    return N.column_stack([cx + rx * r * N.cos(t), cy + ry * r * N.sin(t)])


def area(m, rng, dem, a, bad, T, band, info):
    h, w = a.shape
    kind = str(rng.choice(["box", "star", "hole", "multi", "whole", "tiny"]))
    holes = []
    if kind == "box":
        p = inside(rng, h, w, 2)
        (x0, y0), (x1, y1) = p.min(0), p.max(0)
        rings_ = [(N.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1]]), [])]
    elif kind == "whole":
        rings_ = [(N.array([[0, 0], [w, 0], [w, h], [0, h]], float), [])]
    elif kind == "tiny":
        c = inside(rng, h, w, 1)[0]
        rings_ = [(c + N.array([[0, 0], [.3, 0], [.1, .3]]), [])]
    elif kind == "multi":
        k = int(rng.choice([2, 2, 3, 4, 5]))
        rings_ = [(star(rng, w * (i + .5) / k, h / 2, w * .48 / k, h * .45, 9), []) for i in range(k)]
        if rng.random() < .3:
            rings_ = [(e, [e.mean(0) + (e - e.mean(0)) * .4]) for e, _ in rings_]
    else:
        s = star(rng, w / 2, h / 2, w * .49, h * .49, int(rng.integers(5, 12)))
        rings_ = [(s, [])]
        if kind == "hole":
            c = s.mean(0)
            rings_ = [(s, [c + (s - c) * .4])]
    tw = lambda q: N.asarray(to_world(T, q), float)
    polys = [Polygon(tw(e), [tw(i) for i in hs]) for e, hs in rings_]
    ppx = [Polygon(e, hs) for e, hs in rings_]
    if not all(p.is_valid and p.area > 0 for p in polys + ppx):
        return
    geom = polys[0] if len(polys) == 1 else MultiPolygon(polys)
    gpx = ppx[0] if len(ppx) == 1 else MultiPolygon(ppx)
    before = geom.wkb
    kw = {}
    if info["bands"] > 1 or rng.random() < .2:
        kw["band"] = band
    m.note(geometry=geom.wkt[:300], options=kw)
    ext = float(max(abs(v) for v in geom.bounds))
    pix = float(N.sqrt(abs(T.determinant)))
    if ext / pix > 1e9:
        return
    got = extract_shape(geom, dem, **dict(kw))
    m.ok(isinstance(got, N.ndarray) and got.ndim == 2 and got.shape[1] == 3, "area_shape", str(N.shape(got)))
    m.ok(N.isfinite(got).all(), "area_finite")
    m.ok(geom.wkb == before, "geometry_untouched")
    y, x = N.mgrid[:h, :w]
    cx, cy = x.ravel() + .5, y.ravel() + .5
    pts = shapely.points(cx, cy)
    ins = shapely.contains(gpx, pts)
    close = shapely.distance(gpx.boundary, pts) < 1e-4
    gp = N.asarray(to_px(T, got[:, :2]), float) if len(got) else N.zeros((0, 2))
    j, i = N.floor(gp[:, 0]).astype(int), N.floor(gp[:, 1]).astype(int)
    m.close(gp, N.column_stack([j, i]) + .5, max(1e-9, 1e-13 * ext / pix * 50), "area_points_are_pixel_centres")
    m.ok((i >= 0).all() and (i < h).all() and (j >= 0).all() and (j < w).all(), "area_points_in_raster")
    flat = i * w + j
    m.ok(len(set(flat.tolist())) == len(flat), "area_points_once")
    m.ok((ins | close)[flat].all(), "area_points_inside", "pixels %s" % flat[~(ins | close)[flat]][:5])
    m.ok(not bad.ravel()[flat].any(), "no_invalid_pixels_in_area")
    miss = ins & ~close & ~bad.ravel()
    miss[flat] = False
    m.ok(not miss.any(), "area_points_complete", "%d valid pixels missing, e.g. (col,row) %s" % (miss.sum(), (int(cx[miss][0]), int(cy[miss][0])) if miss.any() else None))
    m.close(got[:, 2], a.ravel()[flat].astype(float), 0, "area_elevation_is_the_pixel_value")
    if info["values"] == "planar" and info["dtype"] == "float64" and len(got) > 8:
        s = N.linalg.svd(got[:, :2] - got[:, :2].mean(0), compute_uv=False)
        if s[1] > .05 * s[0] and ext / pix < 1e6:
            px = to_px(T, got[:, :2])
            # true gradient in the coordinates of the raster
            M = N.column_stack([px, N.ones(len(px))]).astype(float)
            k, *_ = N.linalg.lstsq(M, got[:, 2], rcond=None)
            A = N.linalg.inv(N.array([[T.a, T.b], [T.d, T.e]]))
            grad = k[:2] @ A
            n = N.array([-grad[0], -grad[1], 1])
            n /= N.linalg.norm(n)
            f = Orientation(got).normal
            f = f if f[2] > 0 else -f
            m.close(f, n, 1e-6, "fit_recovers_the_raster")
    m.nontrivial(kind, info["georeferencing"], info["dtype"], info["values"], bool(bad.any()), len(gp) > 0)
    m.state("area", kind, info["georeferencing"])
    m.state("pixels", bucket(len(gp), [1, 2, 10, 100, 1000]))


def pieces(m, rng):
    h, w = (int(v) for v in rng.integers(1, 20, 2))
    if rng.random() < .15:
        long_mask(m, rng)
    mask = N.zeros((h, w), bool)
    i, j = int(rng.integers(0, h)), int(rng.integers(0, w))
    i1, j1 = int(rng.integers(i, h)), int(rng.integers(j, w))
    mask[i:i1 + 1, j:j1 + 1] = rng.random((i1 - i + 1, j1 - j + 1)) < .5
    if mask.any():
        r, c = N.where(mask.any(1))[0], N.where(mask.any(0))[0]
        off, arr = offset_mask(mask)
        m.ok(tuple(int(o) for o in off) == (r[0], c[0]), "mask_offset", str(off))
        m.ok(N.array_equal(arr, mask[r[0]:r[-1] + 1, c[0]:c[-1] + 1]), "mask_trimmed")
    co = rng.normal(size=(int(rng.integers(0, 20)), 3))
    co[rng.random(co.shape) < .1] = N.nan
    keep = co.copy()
    out = clean_coordinates(co, silent=True)
    m.ok(N.array_equal(out, co[~N.isnan(co).any(1)]), "clean_coordinates")
    m.ok(N.array_equal(co, keep, equal_nan=True), "clean_input_untouched")
    # interpolation of plain arrays
    A = rng.normal(size=(h, w))
    if h > 1 and w > 1:
        p = rng.uniform(0, 1, (5, 2)) * [w - 1, h - 1] + .5
        L0 = N.array(interpolation.nearest(A, LineString(p)).coords)
        frac = N.abs((p % 1) - 0)
        amb = (N.abs(p - N.round(p)) < 1e-6).any(axis=1)
        want = A[N.minimum(N.floor(p[:, 1]).astype(int), h - 1), N.minimum(N.floor(p[:, 0]).astype(int), w - 1)]
        m.close(L0[~amb, 2], want[~amb], 1e-12, "nearest_value")
        m.close(L0[:, :2], p, 0, "nearest_keeps_position")
        L1 = N.array(interpolation.bilinear(A, LineString(p)).coords)
        val, _, _ = bilinear_ref(A, N.zeros(A.shape, bool), N.asarray(p, L), 1e-9)
        m.close(L1[:, 2], val, 1e-11, "bilinear_value")
        I = N.round(A * 20).astype(str(rng.choice(["int8", "int16", "int32", "float32"])))
        LI = N.array(interpolation.bilinear(I, LineString(p)).coords)
        vi, _, _ = bilinear_ref(I, N.zeros(A.shape, bool), N.asarray(p, L), 1e-9)
        m.close(LI[:, 2], vi, 1e-4 if I.dtype.kind == "f" else 1e-10, "bilinear_value_of_integers", str(I.dtype))
        P1 = N.array(interpolation.bilinear(A, Point(p[0])).coords)
        m.close(P1[0, 2], val[0], 1e-11, "bilinear_point")


def long_mask(m, rng):
    """Masks whose sizes sit at the limits of small integer types."""
    h, w = int(rng.choice([1, 3, 127, 128, 129, 255, 256, 257, 300])), int(rng.choice([1, 2, 128, 255, 256, 257, 511, 512, 513, 600]))
    mask = N.zeros((h, w), bool)
    i, j = (0, 0) if rng.random() < .4 else (int(rng.integers(h)), int(rng.integers(w)))
    u = rng.random()
    if u < .4:
        mask[i:, j:] = True
    elif u < .7:
        mask[i:, j:] = rng.random((h - i, w - j)) < .3
        mask[i, j] = mask[-1, -1] = True
    else:
        mask[i, j] = mask[-1, -1] = True
    r, c = N.where(mask.any(1))[0], N.where(mask.any(0))[0]
    off, arr = offset_mask(mask)
    m.ok(tuple(int(o) for o in off) == (r[0], c[0]), "mask_offset", "%s for a mask of %s" % (off, mask.shape))
    m.ok(N.array_equal(arr, mask[r[0]:r[-1] + 1, c[0]:c[-1] + 1]), "mask_trimmed", "%s for a mask of %s" % (arr.shape, mask.shape))
    m.state("mask", mask.shape)

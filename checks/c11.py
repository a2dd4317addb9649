"""C11: where sites are placed: input site altitudes, building outlines, detected sites."""
import itertools
import math
import os
import shutil
import tempfile
import zipfile

import numpy as np
from osgeo import gdal, ogr, osr
from shapely import ops
from shapely.geometry import MultiPolygon, Point, Polygon

from gis import bbox, raster, sref
from terragraph_planner.common.configuration.enums import LocationType, SiteType
from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.common.geos import GeoLocation, TransformerLib
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup
from terragraph_planner.los.helper import infer_input_site_location

gdal.PushErrorHandler("CPLQuietErrorHandler")
L, T = 500000.0, 5300000.0
EPSG = 32631
TO_LL = TransformerLib.get_tranformer(EPSG, 4326)


def ll(x, y):
    lon, lat = TO_LL.transform(L + x, T + y)
    return lon, lat


def near(a, b, tol=1e-6):
    return all(abs(float(u) - float(v)) <= tol for u, v in zip(a, b))


# ------------------------------------------------------- input site altitude
def infer(item, c):
    alt, height, loc, typ, surf, terr, (x, y) = item
    lon, lat = ll(x, y)
    sm = np.array([[10.0, 20.0, 30.0], [40.0, 50.0, 60.0], [70.0, 80.0, 90.0]])
    se = raster(sm, L, T, 10.0) if surf else None
    te = None if terr is None else raster(sm - terr, L, T, 10.0)
    got, gloc = infer_input_site_location(lat, lon, alt, height, loc, typ, se, te, 1.5, 5.0, 4.0, 3.0)
    h = float(sm[min(max(round(-y / 10), 0), 2), min(max(round(x / 10), 0), 2)])
    wloc, walt = loc, alt
    if surf:
        if loc == LocationType.UNKNOWN and terr is not None:
            wloc = LocationType.ROOFTOP if terr >= 2 else LocationType.STREET_LEVEL
        if alt is None:
            if height is not None:
                walt = h + height
            elif wloc == LocationType.ROOFTOP:
                walt = h + 1.5
            else:
                walt = h + {SiteType.POP: 5.0, SiteType.DN: 4.0, SiteType.CN: 3.0}[typ]
    c.eq(gloc, wloc, "location-type", str(item))
    c.close(got.altitude, walt, "altitude", str(item))
    c.check(near((got.latitude, got.longitude), (lat, lon), 1e-9), "moved", str(item))
    c.outcome(wloc, walt)
    c.state(item)


# ----------------------------------------------------------------- buildings
def outlines(n):
    """Simple polygons with n vertices on a lattice, irregular and convex or not."""
    pts = [(0.0, 0.0), (10.0, 1.0), (21.0, 0.0), (20.0, 11.0), (22.0, 20.0), (9.0, 12.0), (1.0, 21.0), (-2.0, 9.0)]
    for sub in itertools.permutations(pts, n):
        if sub[0] != min(sub):
            continue  # one start per cycle, both orientations kept
        p = Polygon(sub)
        if p.is_valid and p.area > 5:
            yield sub


def angle_at(p, q, r):
    a, b = (p[0] - q[0], p[1] - q[1]), (r[0] - q[0], r[1] - q[1])
    d = abs(math.atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1]))
    return math.degrees(d)


def o_corners(v, mx):
    n = len(v)
    if mx is None:
        return list(v), []
    sure, maybe = [], []
    for i in range(n):
        g = angle_at(v[i - 1], v[i], v[(i + 1) % n])
        if abs(g - mx) < 0.01 or abs(g - 30) < 0.01:
            maybe.append(v[i])
        elif 30 <= g <= mx:
            sure.append(v[i])
    if not sure and not maybe:
        return [v[0]], []
    return sure, maybe


def o_at(m, x, y, res):
    j = min(max(round((x - LEFT) / res), 0), m.shape[1] - 1)
    i = min(max(round((TOP - y) / res), 0), m.shape[0] - 1)
    return float(m[i, j])


TOP = 24.0
LEFT = -6.0


def surface(kind, res):
    """Raster around the outlines, from (LEFT, TOP) to the right and down."""
    n = int(34 / res)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            x, y = LEFT + j * res, TOP - i * res
            m[i, j] = {
                "flat": 7.0,
                "slope": 5 + 0.11 * x + 0.07 * y,
                "below": -60 + 0.11 * x - 0.2 * (int(y) % 3),
                "steps": 5 + 3.0 * (int(x + y) % 3),
                "peak": 8 + (9.0 if (int(x), int(y)) in ((5, 5), (15, 9)) else 0) + 0.001 * x,
            }[kind]
    return m


def building(item, c):
    v, kind, res, mx = item
    poly = Polygon([(L + x, T + y) for x, y in v])
    b = Building(poly)
    m = None if kind is None else surface(kind, res)
    el = None if m is None else raster(m, L + LEFT, T + TOP, res)
    # corners
    sure, maybe = o_corners(v, mx)
    got = b.detect_corners(el, mx)
    xy = [(round(p.x - L, 6), round(p.y - T, 6)) for p in got]
    c.check(len(set(xy)) == len(xy), "corner-twice", str(item))
    c.check(set(sure) <= set(xy) <= set(sure) | set(maybe) or (not sure and xy == [v[0]]), "corners", f"{item} {xy} {sure} {maybe}")
    pos = [v.index(p) for p in xy if p in v]
    turns = sum(1 for i in range(len(pos)) if pos[i] > pos[(i + 1) % len(pos)])
    c.check(turns <= 1, "corner-order", f"{item} {xy}")
    for p in got:
        x, y = p.x - L, p.y - T
        if el is None:
            c.eq(p.z, 0, "corner-altitude-none")
            continue
        win = [(i, j) for i in range(m.shape[0]) for j in range(m.shape[1]) if abs(LEFT + j * res - x) <= 1 + 1e-9 and abs(TOP - i * res - y) <= 1 + 1e-9]
        ok = set()
        for i, j in win:
            for di, dj in itertools.product((-1, 0, 1), repeat=2):
                if (di or dj) and (i + di, j + dj) in win and m[i, j] - m[i + di, j + dj] > 2:
                    ok.add(float(m[i, j]))
        if not ok:
            ok = {o_at(m, x, y, res)}
        c.check(any(abs(float(p.z) - z) < 1e-3 for z in ok), "corner-altitude", f"{item} {x},{y} {p.z} {ok}")
    # centre
    p = b.detect_center(el)
    cen = poly.centroid
    if poly.intersects(cen):
        c.check(near((p.x, p.y), (cen.x, cen.y)), "center", str(item))
    c.check(poly.buffer(1e-6).intersects(Point(p.x, p.y)), "center-inside", str(item))
    cz = 0 if el is None else o_at(m, p.x - L, p.y - T, res)
    c.close(float(p.z), cz, "center-altitude", str(item), tol=1e-4)
    # highest
    if el is not None:
        q = b.detect_highest(el)
        local = Polygon(v)

        def cells_of(g):
            return [(float(m[i, j]), (LEFT + j * res, TOP - i * res)) for i in range(m.shape[0]) for j in range(m.shape[1]) if g.intersects(Point(LEFT + j * res, TOP - i * res))]

        # cells on the very edge of the outline may count or not
        wide = cells_of(local.buffer(1e-6))
        cells = cells_of(local.buffer(-1e-6)) if wide else []
        if wide and (cells or not near((q.x, q.y), (p.x, p.y))):
            best = max([z for z, _ in cells], default=-1e9)
            c.check(float(q.z) >= best - 1e-4, "highest-value", f"{item} {q} {best}")
            c.check(any(abs(z - float(q.z)) < 1e-4 and near((q.x - L, q.y - T), xy) for z, xy in wide), "highest-place", f"{item} {q}")
        else:
            c.check(near((q.x, q.y, q.z), (p.x, p.y, p.z)), "highest-fallback", str(item))
        c.outcome(len(cells))
    # all together
    flags = (True, False)
    for dc, de, dh in itertools.product(flags, repeat=3):
        if dh and el is None:
            continue
        n = (len(got) if dc else 0) + de + dh
        c.eq(len(b.detect_all_site_candidate_locations(el, mx, dc, de, dh)), n, "all-locations")
    c.outcome(tuple(xy))
    c.state(item)


def courtyard(item, c):
    """Centre and highest point are on the building, not in its courtyard."""
    n, peak, res, mx = item
    p = shape(n, lambda x, y: (L + x, T + y))
    ny = nx = int(160 / res)
    m = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            x, y = -5 + res * j, 155 - res * i
            m[i, j] = 5 + 0.01 * x + 0.003 * y + (40 if abs(x - peak[0]) < 3 and abs(y - peak[1]) < 3 else 0)
    el = raster(m, L - 5, T + 155, res)
    b = Building(p)
    q = b.detect_center(el)
    c.check(p.buffer(1e-6).intersects(Point(q.x, q.y)), "center-inside", str(item))
    h = b.detect_highest(el)
    c.check(p.buffer(1e-6).intersects(Point(h.x, h.y)), "highest-in-courtyard", f"{item} {h}")
    best = max(float(m[i, j]) for i in range(ny) for j in range(nx) if p.buffer(-1e-6).intersects(Point(L - 5 + res * j, T + 155 - res * i)))
    c.check(float(h.z) >= best - 1e-4, "highest-value", f"{item} {h} {best}")
    got = {(round(a.x - L, 6), round(a.y - T, 6)) for a in b.detect_corners(el, mx)}
    c.eq(got, set(SHAPES[n]), "corners-of-outline", str(item))
    c.state(item)


def detect(item, c):
    """Sites of a group of buildings."""
    vs, kind, mx, dc, de, dh = item
    polys = [Polygon([(L + x + 40 * k * 0, T + y) for x, y in v]) for k, v in enumerate(vs)]
    g = BuildingGroup([Building(p) for p in polys], sref(EPSG))
    el = None if kind is None else raster(surface(kind, 2.0), L + LEFT, T + TOP, 2.0)
    got = g.detect_site_candidates(el, 1.25, mx, dc, de, dh)
    for k, p in enumerate(polys):
        b = Building(p)
        mine = [s for s in got if s.building_id == k]
        want = []
        if de or (dh and el is None):
            want.append(b.detect_center(el))
        if dh and el is not None:
            want.append(b.detect_highest(el))
        corners = b.detect_corners(el, mx) if dc else []
        n = len(want) + min(3, len(corners))
        c.eq(len(mine), n, "site-count", f"{item} building {k}")
        keys = [(round(s.utm_x - L, 3), round(s.utm_y - T, 3)) for s in mine]
        left = list(keys)
        for w in want:
            kk = (round(w.x - L, 3), round(w.y - T, 3))
            if c.check(kk in left, "site-place", f"{item} {kk} not in {keys}"):
                left.remove(kk)
        ck = [(round(w.x - L, 3), round(w.y - T, 3)) for w in corners]
        c.check(len(set(left)) == len(left) and set(left) <= set(ck), "site-corners", f"{item} {left} {ck}")
        for s in mine:
            c.eq(s.site_type, SiteType.DN, "site-type")
            c.eq(s.location_type, LocationType.ROOFTOP, "site-location-type")
            if el is None:
                c.eq(s.altitude, None, "site-altitude-none")
            else:
                zs = [w.z for w in want + corners if near((w.x, w.y), (s.utm_x, s.utm_y), 1e-3)]
                c.check(any(abs(float(z) + 1.25 - s.altitude) < 1e-4 for z in zs), "site-altitude", f"{item} {s.altitude} {zs}")
    c.eq(len(got), len([s for s in got if s.building_id in range(len(polys))]), "site-building")
    c.outcome(len(got))
    c.state(item)


# ------------------------------------------------------------ preprocessing
BOUNDS = {
    "square": [(0, 0), (200, 0), (200, 200), (0, 200)],
    "notch": [(0, 0), (200, 0), (200, 200), (140, 200), (140, 60), (120, 60), (120, 200), (0, 200)],
}
SHAPES = {
    "inside": [(20, 20), (40, 20), (40, 50), (20, 50)],
    "outside": [(-60, 20), (-30, 20), (-30, 50), (-60, 50)],
    "crossing": [(-20, 80), (30, 80), (30, 100), (-20, 100)],
    "over-notch": [(100, 150), (170, 150), (170, 170), (100, 170)],
    "bow-tie": [(60, 20), (80, 40), (80, 20), (60, 40)],
    "small": [(60, 60), (67, 60), (67, 67), (60, 67)],
    "just": [(60, 90), (67.2, 90), (67.2, 97.2), (60, 97.2)],
    "sliver": [(199.5, 20), (260, 20), (260, 50), (199.5, 50)],
    "touch": [(200, 100), (230, 100), (230, 130), (200, 130)],
    "L": [(70, 110), (100, 110), (100, 120), (80, 120), (80, 140), (70, 140)],
    "around": [(-50, -50), (250, -50), (250, 250), (-50, 250)],
    "court": [(5, 105), (55, 105), (55, 145), (5, 145)],
    "two-courts": [(60, 5), (110, 5), (110, 45), (60, 45)],
    "in-court": [(20, 120), (30, 120), (30, 130), (20, 130)],
}
HOLES = {
    "court": [[(15, 115), (15, 135), (45, 135), (45, 115)]],
    "two-courts": [[(65, 10), (75, 10), (75, 40), (65, 40)], [(85, 10), (105, 10), (95, 35)]],
}


def shape(n, f=lambda x, y: (x, y)):
    """The outline, with its courtyards."""
    return Polygon([f(x, y) for x, y in SHAPES[n]], [[f(x, y) for x, y in h] for h in HOLES.get(n, [])])


def rect(x1, y1, x2, y2):
    return [(x1, y1), (x2, y1), (x2, y2), (x1, y2)]


SELECTIONS = {
    "none": [],
    "all": [rect(-99, -99, 300, 300)],
    "left": [rect(-99, -99, 55, 300)],
    "adjoining": [rect(-99, -99, 31, 300), rect(31, -99, 135, 300)],
    "overlapping": [rect(-99, -99, 35, 300), rect(25, -99, 135, 300)],
    "apart": [rect(-99, -99, 55, 60), rect(65, 105, 300, 300)],
    "nested": [rect(62, 92, 300, 300), rect(-99, -99, 300, 300)],
}


def preprocess(item, c):
    names, bname, epsg, sel = item
    bpoly = Polygon([ll(x, y) for x, y in BOUNDS[bname]])
    tr = TransformerLib.get_tranformer(EPSG, epsg)
    shapes = [shape(n, lambda x, y: tr.transform(L + x, T + y)) for n in names]
    g = BuildingGroup([Building(p) for p in shapes], sref(epsg))
    selp = None if sel is None else [Polygon([ll(x, y) for x, y in q]) for q in SELECTIONS[sel]]
    g.preprocess(bpoly, EPSG, selp)
    B = Polygon(BOUNDS[bname])
    want = []
    for n in names:
        p = shape(n)
        if not p.is_valid:
            continue
        cut = p.intersection(B)
        parts = list(cut.geoms) if isinstance(cut, MultiPolygon) else [cut] if isinstance(cut, Polygon) else []
        for part in parts:
            if part.is_empty or part.area <= 50:
                continue
            # a building belongs to the selection when all polygons together contain it
            if sel and SELECTIONS[sel] and not part.within(ops.unary_union([Polygon(q) for q in SELECTIONS[sel]]).buffer(1e-6)):
                continue
            want.append(part)
    got = [ops.transform(lambda x, y: (np.array(x) - L, np.array(y) - T), p) for p in g.building_polygons]
    c.eq(len(got), len(want), "kept", f"{item} {[p.wkt for p in got]} {[p.wkt for p in want]}")
    for w in want:
        c.check(any(w.symmetric_difference(p).area < 0.3 for p in got), "shape", f"{item} {w.wkt} {[p.wkt for p in got]}")
    c.eq(g.crs_epsg_code, EPSG, "crs")
    c.eq(g.building_count, len(got), "count")
    c.outcome(len(want))
    c.state(item)


def touching(item, c):
    """Outlines that meet the boundary exactly: along an edge, at a corner, or inside it too."""
    verts, (dx, dy), bname, sel = item
    u = 2.0**-11  # degrees, so that lattice points are exact
    lon0, lat0 = 3.0, 47.875
    grid = lambda v: [(lon0 + x * u, lat0 + y * u) for x, y in v]
    b = TBOUNDS[bname]
    # two outlines, so that the neighbour is seen to stay
    shapes = [[(x + dx, y + dy) for x, y in verts], [(2, 6), (3, 6), (3, 7), (2, 7)]]
    g = BuildingGroup([Building(Polygon(grid(v))) for v in shapes], sref(4326))
    g.preprocess(Polygon(grid(b)), EPSG, [] if sel else None)
    want = []
    for v in shapes:
        q = Polygon(v).intersection(Polygon(b))
        want += [p for p in getattr(q, "geoms", [q]) if isinstance(p, Polygon) and p.area > 0]
    tr = TransformerLib.get_tranformer(EPSG, 4326)
    got = [Polygon([((a - lon0) / u, (o - lat0) / u) for a, o in (tr.transform(*q) for q in p.exterior.coords)]) for p in g.building_polygons]
    c.eq(len(got), len(want), "touch-kept", f"{item} {[p.wkt for p in got]} {[p.wkt for p in want]}")
    for w in want:
        c.check(any(w.symmetric_difference(p).area < 1e-3 for p in got), "touch-shape", f"{item} {w.wkt} {[p.wkt for p in got]}")
    c.outcome(len(want))
    c.state(item)


TBOUNDS = {
    "square": [(0, 0), (8, 0), (8, 8), (0, 8)],
    "L": [(0, 0), (8, 0), (8, 8), (1, 8), (1, 4), (0, 4)],
    "step": [(0, 0), (4, 0), (4, 3), (8, 3), (8, 8), (0, 8)],
}
TSHAPES = [
    [(0, 0), (2, 0), (2, 2), (0, 2)],
    [(0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (3, 2), (3, 3), (0, 3)],
    [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
    [(0, 0), (2, 0), (2, 1), (1, 1), (1, 3), (0, 3)],
    [(0, 2), (2, 0), (4, 2), (2, 4)],
    [(0, 0), (4, 0), (4, 3), (3, 1), (2, 3), (1, 1), (0, 3)],
]


# -------------------------------------------------------------------- files
def dhm(item, c):
    names, hgt, xr, yr = item
    g = BuildingGroup([Building(shape(n, lambda x, y: (L + x, T + y))) for n in names], sref(EPSG))
    ny, nx = int(260 / yr), int(260 / xr)
    dtm = raster(np.zeros((ny, nx)), L - 60, T + 200, xr, yr)
    e = g.to_dhm(dtm, hgt)
    c.eq((e.x_size, e.y_size, e.left_top_x, e.left_top_y, e.x_resolution, e.y_resolution), (nx, ny, L - 60, T + 200, xr, yr), "dhm-grid")
    polys = [shape(n) for n in names]
    for i in range(0, ny, 3):
        for j in range(0, nx, 3):
            x, y = -60 + xr * j, 200 - yr * i
            p = Point(x, y)
            d = min([abs(q.boundary.distance(p)) for q in polys], default=99)
            if d <= max(xr, yr) + 0.1:
                continue
            want = hgt if any(q.contains(p) for q in polys) else 0.0
            c.check(abs(float(e.data_matrix[i, j]) - want) < 2e-3, "dhm-value", f"{item} {x},{y} {e.data_matrix[i, j]}")
    c.state(item)


def shp(d, name, polys, epsg, z=False, multi=False, user=None):
    drv = ogr.GetDriverByName("ESRI Shapefile")
    p = os.path.join(d, name + ".shp")
    ds = drv.CreateDataSource(p)
    s = sref(epsg)
    if user:
        s.SetFromUserInput(user)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    ly = ds.CreateLayer(name, s, ogr.wkbPolygon25D if z else ogr.wkbPolygon)
    for q in polys:
        f = ogr.Feature(ly.GetLayerDefn())
        if z:
            q = Polygon([(x, y, 12.0) for x, y in q.exterior.coords], [[(x, y, 12.0) for x, y in r.coords] for r in q.interiors])
        f.SetGeometry(ogr.CreateGeometryFromWkt(q.wkt))
        ly.CreateFeature(f)
        f = None
    if multi:
        f = ogr.Feature(ly.GetLayerDefn())
        a, b = polys[0], Polygon([(x + 0.01, y) for x, y in polys[0].exterior.coords])
        f.SetGeometry(ogr.CreateGeometryFromWkt(MultiPolygon([a, b]).wkt))
        ly.CreateFeature(f)
    ds = None
    return [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.startswith(name + ".")]


def files(item, c):
    layout, names, epsg, z = item
    tr = TransformerLib.get_tranformer(EPSG, epsg)
    polys = [shape(n, lambda x, y: tr.transform(L + x, T + y)) for n in names]
    d = tempfile.mkdtemp(prefix="c11.")
    try:
        fs = shp(d, "b", polys, epsg, z, layout == "multi")
        extra = shp(d, "second", polys, epsg) if layout == "two" else []
        zp = os.path.join(d, "out.zip")
        with zipfile.ZipFile(zp, "w") as zf:
            if layout in ("mac", "mac-dir"):
                if layout == "mac-dir":
                    zf.writestr("__MACOSX/", "")
                for f in fs:
                    zf.writestr("__MACOSX/._" + os.path.basename(f), "x")
            if layout == "folder-entry":
                zf.writestr("sub/", "")
            if layout == "two-folders":
                zf.writestr("a/", "")
                zf.writestr("b/", "")
            for f in fs + extra:
                if layout == "no-shp" and f.endswith(".shp"):
                    continue
                sub = "sub/" if layout in ("folder", "folder-entry") else ""
                zf.write(f, sub + os.path.basename(f))
        ld = BuildingGroupLoader()
        ok = layout in ("top", "mac", "mac-dir")
        try:
            g = ld.read(zp)
            errs = len(ld.errors)
        except DataException:
            g, errs = None, 1
        c.eq(errs == 0, ok, "file-accepted", f"{item} {[str(e) for e in ld.errors]}")
        if ok and g is not None:
            check_group(c, g, polys, epsg, item)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(layout, epsg)
    c.state(item)


def holes(item, c):
    """Courtyards belong to the outline around them in every format."""
    fmt, epsg, kinds = item
    polys = []
    for n, k in enumerate(kinds):
        o = [(x + 60 * n, y) for x, y in rect(0, 0, 50, 40)]
        hs = [[(x + 60 * n, y) for x, y in h] for h in {"plain": [], "one": [rect(10, 10, 30, 30)], "two": [rect(5, 5, 15, 30), [(20, 8), (40, 8), (30, 25)]]}[k]]
        tr = TransformerLib.get_tranformer(EPSG, 4326 if fmt.startswith("kml") else epsg)
        f = lambda r: [tr.transform(L + x, T + y) for x, y in r]
        polys.append(Polygon(f(o), [f(h) for h in hs]))
    d = tempfile.mkdtemp(prefix="c11.")
    try:
        if fmt.startswith("kml"):
            p = os.path.join(d, "b.kml")
            ring = lambda r, t: f"<{t}><LinearRing><coordinates>" + " ".join(f"{x!r},{y!r},0" for x, y in r.coords) + f"</coordinates></LinearRing></{t}>"
            pg = ["<Polygon>" + ring(q.exterior, "outerBoundaryIs") + "".join(ring(r, "innerBoundaryIs") for r in q.interiors) + "</Polygon>" for q in polys]
            body = "<Placemark><MultiGeometry>" + "".join(pg) + "</MultiGeometry></Placemark>" if fmt == "kml-multi" else "".join(f"<Placemark>{g}</Placemark>" for g in pg)
            with open(p, "w") as fh:
                fh.write(f'<?xml version="1.0"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document>{body}</Document></kml>')
        else:
            fs = shp(d, "b", polys, epsg, fmt == "shp-z")
            p = os.path.join(d, "b.zip")
            with zipfile.ZipFile(p, "w") as zf:
                for f in fs:
                    zf.write(f, os.path.basename(f))
        ld = BuildingGroupLoader()
        g = ld.read(p)
        c.eq(len(ld.errors), 0, "holes-errors", f"{item} {[str(e) for e in ld.errors]}")
        check_group(c, g, polys, 4326 if fmt.startswith("kml") else epsg, item)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(sum(len(p.interiors) for p in polys))
    c.state(item)


CUSTOM = "+proj=tmerc +lat_0=0 +lon_0=3.21 +k=0.99987 +x_0=500000 +y_0=0 +datum=WGS84 +units=m +no_defs"


def heights_crs(item, c):
    """Heights of a compound reference system have to be in metres; the outlines stay."""
    user, ok, z = item
    epsg = int(user.split(":")[1].split("+")[0]) if user.startswith("EPSG") else EPSG
    tr = TransformerLib.get_tranformer(EPSG, epsg)
    polys = [Polygon([tr.transform(L + x, T + y) for x, y in SHAPES[n]]) for n in ("inside", "L")]
    d = tempfile.mkdtemp(prefix="c11.")
    try:
        fs = shp(d, "b", polys, epsg, z, user=user)
        p = os.path.join(d, "b.zip")
        with zipfile.ZipFile(p, "w") as zf:
            for f in fs:
                zf.write(f, os.path.basename(f))
        ld = BuildingGroupLoader()
        try:
            g = ld.read(p)
            errs = [str(e) for e in ld.errors]
        except DataException as e:
            g, errs = None, [str(e)]
        if ok is not None:
            c.eq(not errs, ok, "compound-crs", f"{item} {errs}")
        if ok is None:
            # projections without a code are unknown, at the latest when used
            if not errs:
                c.raises(lambda: g.preprocess(Polygon([ll(x, y) for x, y in BOUNDS["square"]]), EPSG, None), DataException, "unknown-crs", str(item))
            c.state(item)
            return
        if ok and g is not None:
            c.eq(g.building_count, 2, "compound-count", str(item))
            g.preprocess(Polygon([ll(x, y) for x, y in BOUNDS["square"]]), EPSG, None)
            got = [ops.transform(lambda x, y: (np.array(x) - L, np.array(y) - T), q) for q in g.building_polygons]
            for n, q in zip(("inside", "L"), got):
                c.check(Polygon(SHAPES[n]).symmetric_difference(q).area < 0.3, "compound-shape", f"{item} {q.wkt}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(ok)
    c.state(item)


def check_group(c, g, polys, epsg, item):
    tol = 1e-9 if epsg == 4326 else 1e-4
    c.eq(g.building_count, len(polys), "file-count", str(item))
    for p, q in zip(polys, g.building_polygons):
        c.check(p.symmetric_difference(q).area <= tol * max(1e-9, p.length), "file-shape", f"{item} {p.wkt} {q.wkt}")
        c.check(not q.has_z, "file-2d", str(item))
    c.eq(g.crs_epsg_code, epsg, "file-crs", str(item))


def round_trip(item, c):
    names, epsg = item
    tr = TransformerLib.get_tranformer(EPSG, epsg)
    polys = [shape(n, lambda x, y: tr.transform(L + x, T + y)) for n in names]
    d = tempfile.mkdtemp(prefix="c11.")
    try:
        zp = os.path.join(d, "w.zip")
        BuildingGroupLoader().write(zp, BuildingGroup([Building(p) for p in polys], sref(epsg)))
        ld = BuildingGroupLoader()
        g = ld.read(zp)
        c.eq(len(ld.errors), 0, "round-trip-errors", f"{item} {[str(e) for e in ld.errors]}")
        check_group(c, g, polys, epsg, item)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def kml(item, c):
    names = item
    polys = [Polygon([ll(x, y) for x, y in SHAPES[n]]) for n in names]
    pm = "".join(
        f"<Placemark><name>{n}</name><Polygon><outerBoundaryIs><LinearRing><coordinates>"
        + " ".join(f"{x!r},{y!r},0" for x, y in p.exterior.coords)
        + "</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>"
        for n, p in zip(names, polys)
    )
    d = tempfile.mkdtemp(prefix="c11.")
    try:
        f = os.path.join(d, "b.kml")
        with open(f, "w") as fh:
            fh.write(f'<?xml version="1.0"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document>{pm}</Document></kml>')
        ld = BuildingGroupLoader()
        g = ld.read(f)
        c.eq(len(ld.errors), 0, "kml-errors")
        check_group(c, g, polys, 4326, item)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def main(r):
    q = r.quick
    r.map(
        infer,
        list(
            itertools.product(
                (None, 0.0, 12.5), (None, 0.0, 7.0), tuple(LocationType), tuple(SiteType), (False, True),
                (None, 0.0, 1.9, 2.0, 5.0), ((0, 0), (10, -20), (21, -9), (-30, 4), (50, -60)),
            )
        ),
        name="input-site-altitude",
    )
    polys = list(outlines(3)) + list(outlines(4)) + list(outlines(5))
    if not q:
        polys += list(outlines(6)) + list(outlines(7))
    surf = [(None, 1.0), ("flat", 2.0), ("slope", 1.0), ("steps", 1.0), ("steps", 0.6), ("peak", 1.0), ("below", 1.0)]
    items = [(v, k, s, mx) for n, v in enumerate(polys) for m, (k, s) in enumerate(surf) for mx in (None, 60, 90, 120, 180) if not q or (n * 7 + m) % 19 == 0]
    r.map(building, items, name="one-building", limit=300)
    some = polys[:: max(1, len(polys) // 9)]
    pairs = [(a,) for a in some] + list(itertools.combinations(some[-5:], 2))
    r.map(detect, [(v, k, mx) + f for v in pairs for k in (None, "slope", "peak", "below") for mx in (None, 95) for f in itertools.product((True, False), repeat=3)], name="detected-sites")
    r.map(courtyard, [(n, pk, s, mx) for n in HOLES for pk in ((25, 125), (30, 110), (70, 25), (95, 20), (62, 7), (200, 0)) for s in (2.0, 3.7) for mx in (None, 95)], name="courtyards")
    r.map(touching, [(v, (x, y), b, s) for v in TSHAPES for x in range(-4, 9) for y in range(-4, 9) for b in TBOUNDS for s in (False, True)], name="boundary-touch")
    r.map(holes, [(f, e, k) for f in ("shp", "shp-z", "kml", "kml-multi") for e in (4326, EPSG) for n in (1, 2) for k in itertools.product(("plain", "one", "two"), repeat=n) if e == 4326 or f.startswith("shp")], name="outlines-with-holes")
    r.map(heights_crs, [(u, o, z) for u, o in (("EPSG:32631", True), ("EPSG:32631+5773", True), ("EPSG:4326+5773", True), ("EPSG:32631+6360", False), (CUSTOM, None)) for z in (False, True)], name="compound-crs")
    names = list(SHAPES)
    sets = [(n,) for n in names] + list(itertools.combinations(names, 2)) + [tuple(names), ()]
    if not q:
        sets += list(itertools.combinations(names, 3))
    r.map(preprocess, list(itertools.product(sets, BOUNDS, (4326, EPSG, 32632), (None, *SELECTIONS))), name="boundary-cut")
    plain = ["inside", "crossing", "L", "just", "over-notch"]
    courts = [("court",), ("two-courts",), ("court", "in-court"), ("in-court", "court"), ("court", "L", "two-courts")]
    r.map(dhm, [(s, h, xr, yr) for xr, yr in ((2.0, 2.0), (1.0, 2.5), (4.0, 1.0)) for s in [()] + [(n,) for n in plain] + list(itertools.combinations(plain, 2)) + courts for h in (3.0, 7.5)], name="dhm")
    lay = ["top", "mac", "mac-dir", "folder", "folder-entry", "two-folders", "two", "no-shp", "multi"]
    r.map(files, [(a, s, e, z) for a in lay for s in (("inside",), ("L", "crossing"), tuple(plain)) for e in (4326, EPSG) for z in (False, True)], name="shapefiles")
    r.map(round_trip, [(s, e) for s in [("inside",), ("L", "crossing"), tuple(plain)] + courts for e in (4326, EPSG, 32632)], name="shapefile-round-trip")
    r.map(kml, [(a,) for a in plain] + list(itertools.permutations(plain, 2)), name="kml-buildings")

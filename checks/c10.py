"""C10: elevation rasters: lookup, windows, resampling, arithmetic, GeoTIFF files.

Small rasters are enumerated with every pattern of missing cells; every answer
of the real Elevation is compared with a direct scan over all cells.
"""
import datetime
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
from osgeo import gdal, osr

from gis import bbox, raster, sref
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.exceptions import DataException
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import upsample_to_same_resolution

gdal.PushErrorHandler("CPLQuietErrorHandler")
ND = -32768
L, T = 500000.0, 5300000.0


def matrix(h, w, mask=0):
    """Distinct values; bit k of mask removes cell k."""
    m = np.array([[10.0 + 3 * (i * w + j) + (i * j) % 2 for j in range(w)] for i in range(h)], dtype=np.float32)
    for k in range(h * w):
        if mask >> k & 1:
            m[k // w, k % w] = ND
    return m


def centers(m, left, top, xr, yr):
    return [
        (left + xr * j, top - yr * i, float(m[i, j]))
        for i in range(m.shape[0])
        for j in range(m.shape[1])
    ]


def o_values(m, left, top, xr, yr, x, y, slack=0.0):
    """Set of acceptable values at (x, y); several for ties.

    A gap may be filled once per cell: slack is the distance by which the fill
    may be farther than the nearest one."""
    cs = centers(m, left, top, xr, yr)
    h, w = m.shape

    def near(u, n):
        lo = min(max(u, 0), n - 1)
        f = math.floor(lo)
        if abs(lo - f - 0.5) < 1e-6:
            return {f, f + 1}
        return {round(lo)}

    out = set()
    for i in near((top - y) / yr, h):
        for j in near((x - left) / xr, w):
            v = float(m[i, j])
            if v != ND:
                out.add(v)
                continue
            valid = [(math.hypot(cx - x, cy - y), cz) for cx, cy, cz in cs if cz != ND]
            if not valid:
                return None
            d = min(valid)[0]
            if d < 50 - 1e-6:
                out |= {cz for e, cz in valid if e <= d + 1e-6 + slack}
            if d > 50 - 1e-6 - slack:
                out.add(sum(cz for _, cz in valid) / len(valid))
    return out


def one_of(c, got, want, key, msg):
    c.check(any(abs(float(got) - w) < 1e-3 for w in want), key, f"{msg} got={got} want={sorted(want)}")


POS = [-1.3, -0.4, 0.1, 0.62, 1.2, 1.85, 2.4, 3.7]


def lookup(item, c):
    mask, xr, yr = item
    m = matrix(3, 3, mask)
    for fx in POS:
        for fy in POS:
            x, y = L + fx * xr, T - fy * yr
            want = o_values(m, L, T, xr, yr, x, y)
            e = raster(m, L, T, xr, yr)
            if want is None:
                c.raises(lambda: e.get_value(x, y), DataException, "no-valid-cell", str(item))
            else:
                one_of(c, e.get_value(x, y), want, "value", f"{item} at {fx},{fy}")
                one_of(c, e.get_value(x, y), want, "value-again", f"{item} at {fx},{fy}")
            j, i = e.utm_to_idx(x, y)
            c.check(0 <= j < 3 and 0 <= i < 3, "index-range", str(item))
            c.outcome(None if want is None else len(want))
    if mask != 511:
        # all cells in one object, forwards and backwards
        for order in (1, -1):
            e = raster(m, L, T, xr, yr)
            for cx, cy, _ in centers(m, L, T, xr, yr)[::order]:
                one_of(c, e.get_value(cx, cy), o_values(m, L, T, xr, yr, cx, cy), "value-sequence", str(item))
    for i in range(3):
        for j in range(3):
            c.eq(e.utm_to_idx(*e.idx_to_utm(j, i)), (j, i), "index-round-trip")
    c.state(item)


def windows(item, c):
    """All cells of a window, as obstructions, list and matrix."""
    (h, w), xr, yr, (x1, x2), (y1, y2), shrink = item
    m = matrix(h, w)
    cs = centers(m, L, T, xr, yr)
    full = bbox(L, T - yr * (h - 1), L + xr * (w - 1), T)
    box = bbox(full.min_utm_x + shrink, full.min_utm_y + shrink, full.max_utm_x - shrink, full.max_utm_y - shrink)
    a, b = L + x1 * xr, L + x2 * xr
    p, q = T - y2 * yr, T - y1 * yr  # p <= q
    inside = {(x, y, z) for x, y, z in cs if a <= x <= b and p <= y <= q}
    need = {(x, y, z) for x, y, z in inside if box.min_utm_x <= x <= box.max_utm_x and box.min_utm_y <= y <= box.max_utm_y}
    for (xa, ya, xb, yb) in ((a, q, b, p), (b, p, a, q)):
        e = raster(m, L, T, xr, yr, box=box)
        got = [(o.x, o.y, float(o.z)) for o in e.get_all_obstructions(xa, ya, xb, yb, lambda x, y: a <= x <= b and p <= y <= q)]
        c.check(len(got) == len(set(got)), "obstruction-twice", str(item))
        c.check(need <= set(got), "obstruction-missing", f"{item} {need - set(got)}")
        c.check(set(got) <= inside, "obstruction-extra", f"{item} {set(got) - inside}")
    e = raster(m, L, T, xr, yr)
    got = [(o.x, o.y, float(o.z)) for o in e.get_value_list_within_bound(a, p, b, q)]
    real = {g for g in got if L <= g[0] <= L + xr * (w - 1) and T - yr * (h - 1) <= g[1] <= T}
    c.eq(real, inside, "list", str(item))
    c.check(all(a <= g[0] <= b and p <= g[1] <= q for g in got), "list-range", str(item))
    mat = e.get_value_matrix_within_bound(a, p, b, q)
    if inside:
        xs, ys = sorted({x for x, _, _ in inside}), sorted({y for _, y, _ in inside}, reverse=True)
        d = {(x, y): z for x, y, z in inside}
        c.eq(mat.tolist(), [[d[x, y] for x in xs] for y in ys], "matrix", str(item))
    else:
        c.eq(mat.shape, (1, 1), "matrix-empty", str(item))
        one_of(c, mat[0][0], o_values(m, L, T, xr, yr, a, p), "matrix-empty-value", str(item))
    c.outcome(len(inside))
    c.state(item)


def resample(item, c):
    (h, w), (xr, yr), (nx, ny), mask = item
    m = matrix(h, w, mask)
    e = raster(m, L, T, xr, yr)
    e.set_resolution(nx, ny)
    c.eq((e.x_resolution, e.y_resolution, e.left_top_x, e.left_top_y), (nx, ny, L, T), "resample-meta", str(item))
    if (nx, ny) != (xr, yr):
        # the grid covers the whole box with no line to spare
        for n, r, ext in ((e.x_size, nx, xr * w), (e.y_size, ny, yr * h)):
            c.check((n - 1) * r >= ext - r / 2 - 1e-6, "resample-covers", f"{item} {n}")
            c.check((n - 1) * r < ext + r / 2 + 1e-6, "resample-spare", f"{item} {n}")
    for i in range(e.y_size):
        for j in range(e.x_size):
            x, y = e.idx_to_utm(j, i)
            want = o_values(m, L, T, xr, yr, x, y, 2.6 * math.hypot(xr, yr))
            if (nx, ny) == (xr, yr) and m[i, j] == ND:
                want = want | {float(ND)}  # nothing to resample
            one_of(c, e.data_matrix[i, j], want, "resample-value", f"{item} cell {j},{i}")
    c.state(item)


def combine(item, c):
    """DTM + DHM and DSM - DHM with different resolution, alignment, missing cells."""
    ra, rb, (ox, oy), ma, mb, sign = item
    size = 4.0
    box = bbox(L, T - size, L + size, T)

    def mk(r, dx, dy, mask, scale):
        n = math.ceil(size / r) + (1 if dx or dy else 0)
        m = matrix(n, n, mask) * scale
        m[m <= ND] = ND
        if mask:
            m[matrix(n, n, mask) == ND] = ND
        return m.astype(np.float32), L - dx, T + dy

    m1, l1, t1 = mk(ra, 0, 0, ma, 1.0)
    m2, l2, t2 = mk(rb, ox, oy, mb, 0.25)
    if not (m1 != ND).any() or not (m2 != ND).any():
        return
    e1, e2 = raster(m1, l1, t1, ra, box=box), raster(m2, l2, t2, rb, box=box)
    upsample_to_same_resolution(e1, e2)
    s = e1 + e2 if sign > 0 else e1 - e2
    f = min(ra, rb)
    c.eq((s.x_resolution, s.y_resolution), (f, f), "combine-resolution", str(item))
    c.eq(s.utm_bounding_box, box, "combine-box", str(item))
    n = 0
    for i in range(s.y_size):
        for j in range(s.x_size):
            x, y = s.idx_to_utm(j, i)
            if not (L <= x <= L + size and T - size <= y <= T):
                continue
            n += 1
            # resampling in two steps may shift by half a fine cell
            sh = [-f / 2 - 1e-3, 0, f / 2 + 1e-3] if (ox or oy or ra != rb) else [0]
            w1, w2 = (
                {v for dx in sh for dy in sh for v in o_values(m, l, t, rr, rr, x + dx, y + dy, 3 * rr)}
                for m, l, t, rr in ((m1, l1, t1, ra), (m2, l2, t2, rb))
            )
            v = float(s.data_matrix[i, j])
            ok = {a + sign * b for a in w1 for b in w2}
            raw = []
            for m, l, t, r in ((m1, l1, t1, ra), (m2, l2, t2, rb)):
                jj = min(max(round((x - l) / r), 0), m.shape[1] - 1)
                ii = min(max(round((t - y) / r), 0), m.shape[0] - 1)
                raw.append(float(m[ii, jj]))
            if ND in raw:
                ok.add(float(ND))  # filling and keeping the gap are both fine
            one_of(c, v, ok, "combine-value", f"{item} at {x - L},{T - y}")
    c.check(n >= (size / f) ** 2, "combine-covers", f"{item} {n}")
    c.outcome(n)
    c.state(item)


def mismatch(item, c):
    """Without resampling only equal grids combine."""
    which, sign = item
    m = matrix(3, 3)
    a = raster(m, L, T, 1.0)
    kw = dict(left=L, top=T, xres=1.0, yres=1.0, epsg=32631)
    kw.update({"left": {"left": L + 1}, "top": {"top": T + 1}, "xres": {"xres": 2.0}, "yres": {"yres": 2.0}, "epsg": {"epsg": 32632}, "same": {}, "size": {}}[which])
    b = raster(matrix(3, 4) if which == "size" else m, **kw)
    f = (lambda: a + b) if sign > 0 else (lambda: a - b)
    if which == "same":
        c.eq(f().data_matrix.tolist(), (m + sign * m).tolist(), "combine-same")
    else:
        c.raises(f, DataException, "combine-mismatch", which)
    c.state(item)


# ------------------------------------------------------------------ GeoTIFF
def write(d, name, e, time=None):
    p = os.path.join(d, name)
    ElevationLoader().write(p, e)
    if time is not None:
        ds = gdal.Open(p, gdal.GA_Update)
        ds.SetMetadata({"TIFFTAG_DATETIME": time})
        ds = None
    return p


def geotiff(item, c):
    """Write, then read one file or tiles through a window."""
    (off_x, off_y), (xr, yr), (bx, by, bw, bh), mask, tiles = item
    m = matrix(5, 6, mask)
    left, top = L + off_x, T - off_y
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        if tiles is None:
            paths = [write(d, "a.tif", raster(m, left, top, xr, yr))]
        else:
            paths = []
            for n, (j1, j2) in enumerate(tiles):
                paths.append(write(d, f"t{n}.tif", raster(m[:, j1:j2], left + xr * j1, top, xr, yr)))
        box = bbox(L + bx, T - by - bh, L + bx + bw, T - by)
        ld = ElevationLoader()
        e = ld.read(paths, 32631, box)
        c.eq(len(ld.errors), 0, "geotiff-errors", f"{item} {[str(x) for x in ld.errors]}")
        c.eq(e.utm_bounding_box, box, "geotiff-box")
        c.eq(e.crs_epsg_code, 32631, "geotiff-crs")
        c.close(e.x_resolution, xr, "geotiff-xres", str(item))
        c.close(e.y_resolution, yr, "geotiff-yres", str(item))
        c.check(abs(e.left_top_x - box.min_utm_x) < xr + 1e-6 and abs(e.left_top_y - box.max_utm_y) < yr + 1e-6, "geotiff-origin", f"{item} {e.left_top_x - L}")
        c.check(e.left_top_x + xr * (e.x_size + 2) > box.max_utm_x - 1e-6 and e.left_top_y - yr * (e.y_size + 2) < box.min_utm_y + 1e-6, "geotiff-extent", f"{item} {e.x_size} {e.y_size}")
        for i in range(e.y_size):
            for j in range(e.x_size):
                x, y = e.idx_to_utm(j, i)
                sj, si = (x - left) / xr, (top - y) / yr
                c.check(abs(sj - round(sj)) < 1e-4 and abs(si - round(si)) < 1e-4, "geotiff-shift", f"{item} {sj} {si}")
                sj, si = round(sj), round(si)
                want = float(m[si, sj]) if 0 <= si < 5 and 0 <= sj < 6 else float(ND)
                c.eq(float(e.data_matrix[i, j]), want, "geotiff-value", f"{item} {i},{j}")
        c.outcome(e.x_size, e.y_size)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def zeros(item, c):
    """Ground at height 0 is data, also when a whole strip of the file is 0."""
    bits, last = item
    n = 24
    m = np.zeros((n, 300), dtype=np.float32)
    for k in range(4):
        if bits >> k & 1:
            m[k * 6 : k * 6 + 6, :] = 5.0 + k
    m[-1, -1] = last
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        p = write(d, "z.tif", raster(m, L, T, 1.0))
        e = ElevationLoader().read([p], 32631, bbox(L, T - n, L + 300, T))
        c.check(np.array_equal(e.data_matrix, m), "geotiff-zeros", f"{item}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def reproject(item, c):
    """A raster in another reference system lands at the right place."""
    epsg, k = item
    from terragraph_planner.common.geos import TransformerLib

    # a plane in the source system, so neighbouring cells differ by at most one step
    n = 40
    cx, cy = L + 100.0, T - 100.0
    sx, sy = TransformerLib.get_tranformer(32631, epsg).transform(cx, cy)
    res = 2.0 if epsg != 4326 else 2.0 / 111320
    left, top = sx - res * n / 2, sy + res * n / 2
    m = np.array([[100.0 + (j if k == 0 else i) for j in range(n)] for i in range(n)], dtype=np.float32)
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        p = os.path.join(d, "a.tif")
        ds = gdal.GetDriverByName("GTiff").Create(p, n, n, 1, gdal.GDT_Float32)
        ds.SetGeoTransform([left, res, 0, top, 0, -res])
        s = sref(epsg)
        ds.SetSpatialRef(s)
        ds.GetRasterBand(1).WriteArray(m)
        ds = None
        ld = ElevationLoader()
        e = ld.read([p], 32631, bbox(cx - 15, cy - 15, cx + 15, cy + 15))
        c.eq(len(ld.errors), 0, "reproject-errors", str(item))
        c.eq(e.crs_epsg_code, 32631, "reproject-crs")
        back = TransformerLib.get_tranformer(32631, epsg)
        for i in range(e.y_size):
            for j in range(e.x_size):
                x, y = e.idx_to_utm(j, i)
                # centre of the pixel area
                u, v = back.transform(x + e.x_resolution / 2, y - e.y_resolution / 2)
                want = 100 + ((u - left) / res if k == 0 else (top - v) / res) - 0.5
                c.check(abs(float(e.data_matrix[i, j]) - want) <= 1.1, "reproject-value", f"{item} {i},{j} {e.data_matrix[i, j]} {want}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def rules(item, c):
    xr, yr, when = item
    now = datetime.datetime.now()
    fmt = "%Y:%m:%d %H:%M:%S"
    day = datetime.timedelta(days=1)
    stamp, ok = {
        "none": (None, True),
        "yesterday": ((now - day).strftime(fmt), True),
        "19y": ((now - 365 * 20 * day + 2 * day).strftime(fmt), True),
        "21y": ((now - 365 * 20 * day - 2 * day).strftime(fmt), False),
        "future": ((now + 2 * day).strftime(fmt), False),
        "format": ((now - day).strftime("%Y-%m-%d"), False),
    }[when]
    ok = ok and 0.15 <= xr <= 35 and 0.15 <= yr <= 35
    if xr != yr:  # files are warped to square pixels
        ld = ElevationLoader()
        ld.validate(raster(matrix(4, 4), L, T, xr, yr, time=stamp))
        c.eq(len(ld.errors) == 0, ok, "rules-direct", f"{item} {[str(x) for x in ld.errors]}")
        return
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        p = write(d, "a.tif", raster(matrix(4, 4), L, T, xr, yr), stamp)
        ld = ElevationLoader()
        e = ld.read([p], 32631, bbox(L, T - 4 * yr, L + 4 * xr, T))
        c.eq(len(ld.errors) == 0, ok, "rules", f"{item} {[str(x) for x in ld.errors]}")
        c.eq(e.collection_time, stamp, "collection-time", str(item))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(ok)
    c.state(item)


def unreadable(item, c):
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        p = os.path.join(d, "a.tif")
        if item == "garbage":
            with open(p, "w") as f:
                f.write("not a raster")
        paths = {"missing": [p], "garbage": [p], "mixed": [write(d, "b.tif", raster(matrix(3, 3), L, T)), p]}[item]
        c.raises(lambda: ElevationLoader().read(paths, 32631, bbox(L, T - 3, L + 3, T)), DataException, "unreadable", item)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def create(p, m, kind=gdal.GDT_Float32, nodata=None, srs=None, bands=1, left=L, top=T, res=1.0):
    """A file as another program would write it."""
    ds = gdal.GetDriverByName("GTiff").Create(p, m.shape[1], m.shape[0], bands, kind)
    ds.SetGeoTransform([left, res, 0, top, 0, -res])
    if srs is not None:
        ds.SetSpatialRef(srs)
    for b in range(bands):
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
        ds.GetRasterBand(b + 1).WriteArray(m)
    ds = None
    return p


TYPES = {
    "byte": (gdal.GDT_Byte, np.uint8), "uint16": (gdal.GDT_UInt16, np.uint16), "int16": (gdal.GDT_Int16, np.int16),
    "int32": (gdal.GDT_Int32, np.int32), "float32": (gdal.GDT_Float32, np.float32), "float64": (gdal.GDT_Float64, np.float64),
}


def types(item, c):
    """Every number type and no-data value; cells without data stay without."""
    name, nodata, pat, (bx, by, bw, bh), split = item
    kind, dt = TYPES[name]
    h, w = 3, 4
    src = np.array([[10 + i * w + j for j in range(w)] for i in range(h)], dtype=dt)
    src[0, 1] = 0  # the sea is data
    if name in ("int16", "int32", "float32", "float64"):
        src[1, 1] = -3
    gone = set()
    if nodata is not None:
        for k in pat:
            src[k // w, k % w] = nodata
        gone = {(i, j) for i in range(h) for j in range(w) if src[i, j] == nodata or src[i, j] != src[i, j]}
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        if split:
            paths = [
                create(os.path.join(d, "a.tif"), src[:, :2].copy(), kind, nodata, sref(32631)),
                create(os.path.join(d, "b.tif"), src[:, 2:].copy(), kind, nodata, sref(32631), left=L + 2),
            ]
        else:
            paths = [create(os.path.join(d, "a.tif"), src, kind, nodata, sref(32631))]
        ld = ElevationLoader()
        e = ld.read(paths, 32631, bbox(L + bx, T - by - bh, L + bx + bw, T - by))
        c.eq(len(ld.errors), 0, "type-errors", f"{item} {[str(x) for x in ld.errors]}")
        for i in range(e.y_size):
            for j in range(e.x_size):
                x, y = e.idx_to_utm(j, i)
                sj, si = round(x - L), round(T - y)
                ok = 0 <= si < h and 0 <= sj < w and (si, sj) not in gone
                c.eq(float(e.data_matrix[i, j]), float(src[si, sj]) if ok else float(ND), "type-value", f"{item} {si},{sj}")
                have = {(round(T - v), round(u - L)) for u, v in (e.idx_to_utm(q, r) for r in range(e.y_size) for q in range(e.x_size))}
                have = {(a, b) for a, b in have if 0 <= a < h and 0 <= b < w} - gone
                if not have:
                    c.raises(lambda: e.get_value(x, y), DataException, "type-nothing", str(item))
                    continue
                n = min(math.hypot(si - a, sj - b) for a, b in have)
                near = [float(src[a, b]) for a, b in have if math.hypot(si - a, sj - b) <= n + 1e-6]
                one_of(c, e.get_value(x, y), near, "type-lookup", f"{item} {si},{sj}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(name, nodata, len(gone))
    c.state(item)


def tile_times(item, c):
    """Tiles collected at different times are as old as the oldest."""
    whens, order = item
    now = datetime.datetime.now()
    fmt = "%Y:%m:%d %H:%M:%S"
    day = datetime.timedelta(days=1)
    ages = {"new": 1, "older": 400, "old": 365 * 20 + 2}
    stamps = [None if t == "none" else (now - ages[t] * day).strftime(fmt) for t in whens]
    ok = "old" not in whens
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        m = matrix(3, 2 * len(whens))
        paths = [write(d, f"t{n}.tif", raster(m[:, 2 * n : 2 * n + 2], L + 2 * n, T), t) for n, t in enumerate(stamps)]
        ld = ElevationLoader()
        e = ld.read([paths[k] for k in order], 32631, bbox(L, T - 3, L + 2 * len(whens), T))
        c.eq(len(ld.errors) == 0, ok, "tile-times", f"{item} {[str(x) for x in ld.errors]}")
        c.eq(e.data_matrix.tolist(), m.tolist(), "tile-times-values", str(item))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(ok)
    c.state(item)


def bad_files(item, c):
    """Files whose place or meaning is unknown are rejected, also among good ones."""
    which, among = item
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        m = matrix(3, 3)
        kw = {"no-crs": {}, "bands": {"srs": sref(32631), "bands": 2}, "rgb": {"srs": sref(32631), "bands": 3}}[which]
        bad = create(os.path.join(d, "bad.tif"), m, **kw)
        good = create(os.path.join(d, "good.tif"), m, srs=sref(32631), left=L + 3)
        paths = {"alone": [bad], "first": [bad, good], "last": [good, bad], "middle": [good, bad, good]}[among]
        ld = ElevationLoader()
        try:
            ld.read(paths, 32631, bbox(L, T - 3, L + 6, T))
            c.check(len(ld.errors) > 0, "bad-file-accepted", f"{item}")
        except DataException:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def reference(item, c):
    """Reference systems of files: any horizontal one, heights in metres pointing up."""
    wkt, ok = item
    d = tempfile.mkdtemp(prefix="c10.")
    try:
        s = osr.SpatialReference()
        s.SetFromUserInput(wkt)
        e = Elevation(matrix(3, 3), bbox(L, T - 3, L + 3, T), 1.0, 1.0, L, T, s, None)
        ld = ElevationLoader()
        ld.validate(e)
        c.eq(len(ld.errors) == 0, ok, "reference", f"{wkt} {[str(x) for x in ld.errors]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.outcome(ok)
    c.state(wkt)


def main(r):
    q = r.quick
    win = [(0, 0, 4, 3), (-2, -2, 9, 8), (1, 1, 2, 1), (1, -1, 6, 3)]
    its = []
    for name in TYPES:
        for nd in (None, 0, 7, 12, 255, -9999, float("nan")):
            if nd is not None and (nd != nd and not name.startswith("float") or nd < 0 and name in ("byte", "uint16")):
                continue
            for pat in ((), (0,), (5, 6), (0, 3, 8, 11)):
                for wdw in win:
                    its += [(name, nd, pat, wdw, s) for s in (False, True)]
    r.map(types, its, name="geotiff-types")
    tt = [(t, o) for n in (1, 2, 3) for t in itertools.product(("none", "new", "older", "old"), repeat=n) for o in itertools.permutations(range(n))]
    r.map(tile_times, tt, name="tile-times")
    r.map(bad_files, list(itertools.product(("no-crs", "bands", "rgb"), ("alone", "first", "last", "middle"))), name="bad-files")
    refs = [("EPSG:32631", True), ("EPSG:32718", True), ("EPSG:4326", True), ("EPSG:32631+5773", True), ("EPSG:4326+5773", True)]
    refs += [("EPSG:2263", False), ("EPSG:32631+6360", False)]  # feet
    r.map(reference, refs, name="reference-systems")
    masks = range(512) if not q else [m for m in range(512) if m % 3 == 1 or bin(m).count("1") in (0, 1, 8, 9)]
    r.map(lookup, [(m, x, y) for m in masks for x, y in ((1.0, 1.0), (2.5, 1.2), (23.0, 31.0))], name="lookup")
    pos = [-2.5, -1.0, -0.3, 0.0, 0.4, 1.0, 1.6, 2.0, 2.7, 3.0, 4.5]
    spans = [(a, b) for a in pos for b in pos if a <= b]
    if q:
        spans = spans[::2]
    r.map(windows, [(hw, x, y, s, t, k) for hw in ((3, 3), (2, 4)) for x, y in ((1.0, 1.0), (2.0, 3.0)) for s in spans for t in spans for k in (0, 0.5)][:: 2 if q else 1], name="windows")
    r.map(resample, [(hw, a, b, m) for hw in ((3, 3), (2, 4), (4, 1)) for a in ((1.0, 1.0), (2.0, 3.0)) for b in itertools.product((0.5, 1.0, 1.5, 2.0, 3.0), repeat=2) for m in (0, 1, 6, 9)], name="resample")
    res = (1.0, 2.0, 4.0, 1.5)
    r.map(combine, [(a, b, o, m, n, s) for a in res for b in res for o in ((0, 0), (0.5, 0), (0, 1.0), (1.0, 0.5)) for m in (0, 2) for n in (0, 5) for s in (1, -1)], name="combine")
    r.map(mismatch, list(itertools.product(("same", "left", "top", "xres", "yres", "epsg", "size"), (1, -1))), name="mismatch")
    offs = [(0, 0), (0.5, 0.25), (-0.75, 1.0)]
    boxes = [(0, 0, 6, 5), (1, 1, 3, 3), (-3, -2, 12, 11), (2, 0, 2, 9), (0.0, 3.0, 9.0, 2.0)]
    tiles = [None, ((0, 3), (3, 6)), ((3, 6), (0, 3)), ((0, 4), (2, 6)), ((4, 6), (0, 2), (2, 4))]
    rs = [(1.0, 1.0), (2.0, 2.0), (1.5, 1.5)] + ([] if q else [(0.25, 0.25), (0.5, 0.5)])
    r.map(geotiff, [(o, x, b, m, t) for o in offs for x in rs for b in boxes for m in (0, 9) for t in tiles], name="geotiff")
    r.map(zeros, list(itertools.product(range(16), (0.0, 1.0, float(ND)))), name="geotiff-zero")
    r.map(reproject, list(itertools.product((4326, 32632, 3857), (0, 1))), name="reproject")
    px = [0.1, 0.2, 1.0, 34.0, 36.0]
    r.map(rules, [(x, y, w) for x in px for y in px for w in ("none", "yesterday", "19y", "21y", "future", "format")], name="file-rules")
    r.map(unreadable, ["missing", "garbage", "mixed"], name="unreadable")

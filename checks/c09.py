"""C09: the line-of-sight decision between two sites.

Every combination of link geometry, obstruction placement, model and threshold
is decided by the real validators and by a direct scan of all raster cells with
the documented clearance formulas.
"""
import itertools
import math

import numpy as np
from shapely.geometry import Polygon

from gis import raster, bbox
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator

X0, Y0 = 500000.0, 5300000.0
EPS = 1e-7


def S(x, y, z, loc=1, b=None):
    return LOSSite(X0 + x, Y0 + y, z, loc, b)


# ------------------------------------------------------------ reference model
def o_simple(a, b, lo, hi, dev, zones):
    if (a.utm_x, a.utm_y) == (b.utm_x, b.utm_y):
        return False
    if a.location_type == 2 and b.location_type == 2 and a.building_id == b.building_id and a.building_id is not None and a.building_id >= 0:
        return False
    dz = 0 if a.altitude is None or b.altitude is None else abs(a.altitude - b.altitude)
    d2 = math.hypot(a.utm_x - b.utm_x, a.utm_y - b.utm_y)
    d = math.hypot(d2, dz)
    if d < lo or d > hi:
        return False
    if math.degrees(math.atan2(dz, d2)) > dev:
        return False
    return not any(o_hits(z, a, b) for z in zones)


def o_hits(zone, a, b):
    """Segment versus convex polygon by clipping (independent of shapely)."""
    n = len(zone)
    area = sum(zone[i][0] * zone[(i + 1) % n][1] - zone[(i + 1) % n][0] * zone[i][1] for i in range(n))
    t0, t1 = 0.0, 1.0
    px, py = a.utm_x - X0, a.utm_y - Y0
    dx, dy = b.utm_x - X0 - px, b.utm_y - Y0 - py
    for i in range(n):
        (x1, y1), (x2, y2) = zone[i], zone[(i + 1) % n]
        nx, ny = (y1 - y2, x2 - x1)
        if area < 0:
            nx, ny = -nx, -ny
        num = (px - x1) * nx + (py - y1) * ny
        den = dx * nx + dy * ny
        if abs(den) < 1e-12:
            if num < 0:
                return False
            continue
        t = -num / den
        if den > 0:
            t0 = max(t0, t)
        else:
            t1 = min(t1, t)
    return t0 <= t1


def o_cyl(a, b, cells, R, thr):
    """None when the case sits on a tie."""
    A = np.array([a.utm_x, a.utm_y, a.altitude])
    B = np.array([b.utm_x, b.utm_y, b.altitude])
    u = B - A
    L2 = math.hypot(u[0], u[1])
    L3 = float(np.linalg.norm(u))
    best, blocked = R, False
    for x, y, z in cells:
        w = np.array([x, y, z]) - A
        along = (w[0] * u[0] + w[1] * u[1]) / L2
        perp = abs(w[0] * u[1] - w[1] * u[0]) / L2
        if abs(perp - R) < EPS or abs(along) < EPS or abs(along - L2) < EPS:
            return None
        if perp > R or along < 0 or along > L2:
            continue
        line_z = A[2] + u[2] * along / L2
        if abs(z - line_z) < EPS:
            return None
        if z > line_z:
            d = perp
        else:
            t = float(w @ u) / L3
            if abs(t) < EPS or abs(t - L3) < EPS:
                return None
            if t < 0 or t > L3:
                continue
            d = float(np.linalg.norm(np.cross(w, u))) / L3
        if abs(d - thr * R) < EPS:
            return None
        if d < thr * R:
            blocked = True
        best = min(best, d)
    return 0.0 if blocked else best / R


def o_ell(a, b, cells, f, thr):
    A = np.array([a.utm_x, a.utm_y, a.altitude])
    B = np.array([b.utm_x, b.utm_y, b.altitude])
    M = (A + B) / 2
    u = B - A
    L2, L3 = math.hypot(u[0], u[1]), float(np.linalg.norm(u))
    R = 0.5 * math.sqrt(299792458.0 * L3 / (f * 1e6))
    e1 = u / L3  # along the link
    e2 = np.array([-u[1], u[0], 0]) / L2  # sideways
    e3 = np.cross(e1, e2)  # up
    best, blocked = R, False
    for x, y, z in cells:
        w = np.array([x, y, z]) - M
        s2 = (w[0] * u[0] + w[1] * u[1]) / L2
        p2 = w[0] * e2[0] + w[1] * e2[1]

        def top(r):  # value of the footprint ellipse equation
            return (2 * s2 / L2) ** 2 + (p2 / r) ** 2

        if abs(top(R) - 1) < EPS:
            return None
        if top(R) > 1:
            continue
        if thr > 0 and abs(top(thr * R) - 1) < EPS:
            return None

        def low(r):  # lowest height of the ellipsoid of radius r above (x, y)
            # ((w.e1)/(L3/2))^2 + ((w.e2)/r)^2 + ((w.e3)/r)^2 = 1 as a quadratic in z
            k1, k3 = e1[2], e3[2]
            c1 = w[0] * e1[0] + w[1] * e1[1]
            c3 = w[0] * e3[0] + w[1] * e3[1]
            qa = (k1 * 2 / L3) ** 2 + (k3 / r) ** 2
            qb = 2 * (c1 * k1 * 4 / L3**2 + c3 * k3 / r**2)
            qc = (c1 * 2 / L3) ** 2 + (c3 / r) ** 2 + (p2 / r) ** 2 - 1
            D = qb * qb - 4 * qa * qc
            return math.inf if D <= 0 else M[2] + (-qb - math.sqrt(D)) / (2 * qa)

        if thr > 0 and top(thr * R) < 1:
            h = low(thr * R)
            if abs(z - h) < EPS:
                return None
            if z > h:
                blocked = True
        h = low(R)
        if abs(z - h) < EPS:
            return None
        if z < h:
            continue
        plane = M[2] + u[2] * s2 / L2
        if abs(z - plane) < EPS:
            return None
        if z > plane:
            q, rho = 2 * s2 / L2, abs(p2)
        else:
            q, rho = 2 * float(w @ e1) / L3, math.hypot(p2, float(w @ e3))
        r = R if abs(q) >= 1 else rho / math.sqrt(1 - q * q)
        best = min(best, r)
    return 0.0 if blocked else best / R


# ------------------------------------------------------------------- spaces
# link vectors: every octant, both axes, flat and sloped
DIRS = [(60, 0), (0, 60), (-60, 0), (0, -60), (45, 38), (-45, 38), (45, -38), (-45, -38), (58, 7), (-7, 58)]
ALTS = [(20, 20), (20, 35), (35, 20)]
ALONG = [-0.04, 0.03, 0.27, 0.5, 0.83, 0.98, 1.03]
PERP = [0.02, 0.45, -0.45, 0.7, -0.87, 1.06]  # x R
DZ = [-1.4, -0.87, -0.45, -0.02, 0.31, 2.6, 40.0]  # x R above the line
GROUND = 0.0
RES = 4.0


def place(vec, alts, obs, R, cut=0):
    """A raster whose cells hit the given (along, perp, dz) points; cut removes part of it."""
    L = math.hypot(*vec)
    ux, uy = vec[0] / L, vec[1] / L
    pts = []
    for al, pe, dz in obs:
        x = al * vec[0] - uy * pe * R
        y = al * vec[1] + ux * pe * R
        pts.append((x, y, alts[0] + (alts[1] - alts[0]) * al + dz * R))
    fx, fy = pts[0][0], pts[0][1]
    left = fx - RES * math.ceil((fx + 75) / RES)
    top = fy + RES * math.ceil((75 - fy) / RES)
    n = int(150 / RES) + 2
    m = np.full((n, n), GROUND)
    for x, y, z in pts:
        j, i = round((x - left) / RES), round((top - y) / RES)
        m[i, j] = max(m[i, j], z)
    if cut:
        m = m[: n // 2] if cut == 1 else m[:, n // 2 :]
        if cut == 2:
            left += RES * (n // 2)
    return m, left, top


def ring_cells(m, left, top):
    idx = np.argwhere(np.asarray(m) > 0.5)
    return [(X0 + left + RES * j, Y0 + top - RES * i, float(np.float32(m[i, j]))) for i, j in idx]


def obstruct(item, c):
    vec, alts, obs, R, cut = item
    a, b = S(0.0, 0.0, alts[0]), S(vec[0], vec[1], alts[1])
    L3 = math.sqrt(vec[0] ** 2 + vec[1] ** 2 + (alts[1] - alts[0]) ** 2)
    m, left, top = place(vec, alts, obs, R, cut)
    el = raster(m, X0 + left, Y0 + top, RES)
    cells = ring_cells(m, left, top)
    f = 299792458.0 * L3 / (4 * R * R) / 1e6  # frequency whose zone has radius R
    for thr in (0.0, 0.5, 0.8, 1.0):
        v = CylindricalLOSValidator(el, 200, 5, 25, R, [], thr)
        w = o_cyl(a, b, cells, R, thr)
        if w is not None:
            got = v.compute_confidence(a, b)
            c.close(got, w, "cylinder", f"{item} thr={thr}", tol=1e-4)
            c.check(got == 0 or thr - 1e-9 <= got <= 1, "cylinder-range", f"{item} {thr} {got}")
            c.close(v.compute_confidence(b, a), w, "cylinder-reverse", f"{item} thr={thr}", tol=1e-4)
            c.outcome("cyl", thr, round(w, 3))
        v = EllipsoidalLOSValidator(el, 200, 5, 25, f, [], thr)
        w = o_ell(a, b, cells, f, thr)
        if w is not None:
            got = v.compute_confidence(a, b)
            c.close(got, w, "ellipsoid", f"{item} thr={thr}", tol=1e-4)
            c.check(got == 0 or thr - 1e-6 <= got <= 1 + 1e-9, "ellipsoid-range", f"{item} {thr} {got}")
            c.close(v.compute_confidence(b, a), w, "ellipsoid-reverse", f"{item} thr={thr}", tol=1e-4)
            c.outcome("ell", thr, round(w, 3))
    c.state((len(cells), [round(z, 2) for _, _, z in cells]))


def simple(item, c):
    """Distance range, elevation angle, same place, same building, without a surface."""
    (x, y), (z1, z2), lo, hi, dev, (l1, b1), (l2, b2), thr = item
    a, b = S(0.5, -0.5, z1, l1, b1), S(0.5 + x, -0.5 + y, z2, l2, b2)
    want = 1.0 if o_simple(a, b, lo, hi, dev, []) else 0.0
    for v in (
        CylindricalLOSValidator(None, hi, lo, dev, 1.0, [], thr),
        EllipsoidalLOSValidator(None, hi, lo, dev, 60000, [], thr),
    ):
        n = type(v).__name__[:4]
        c.eq(v.compute_confidence(a, b), want, f"simple-{n}", str(item))
        c.eq(v.compute_confidence(b, a), want, f"simple-rev-{n}", str(item))
    if z1 is not None and z2 is not None:
        el = raster(np.zeros((4, 4)), X0 - 80, Y0 + 80, 50.0)
        for v in (
            CylindricalLOSValidator(el, hi, lo, dev, 1.0, [], thr),
            EllipsoidalLOSValidator(el, hi, lo, dev, 60000, [], thr),
        ):
            c.eq(v.compute_confidence(a, b), want, "simple-surface", str(item))
    c.outcome(want)
    c.state(item)


def zones(item, c):
    vec, zs, order = item
    a, b = S(0, 0, 10), S(vec[0], vec[1], 12)
    if order:
        a, b = b, a
    want = 1.0 if o_simple(a, b, 5, 200, 25, zs) else 0.0
    polys = [Polygon([(X0 + x, Y0 + y) for x, y in z]) for z in zs]
    el = raster(np.zeros((4, 4)), X0 - 80, Y0 + 80, 50.0)
    for sfc in (None, el):
        v = CylindricalLOSValidator(sfc, 200, 5, 25, 1.0, polys, 0.8)
        c.eq(v.compute_confidence(a, b), want, "zone-cyl", str(item))
        v = EllipsoidalLOSValidator(sfc, 200, 5, 25, 60000, polys, 0.8)
        c.eq(v.compute_confidence(a, b), want, "zone-ell", str(item))
    c.outcome(want)
    c.state(item)


def bad(item, c):
    hi, lo, dev, thr = item
    ok = 0 < lo < hi and 0 <= dev <= 90 and 0 <= thr <= 1
    for mk in (
        lambda: CylindricalLOSValidator(None, hi, lo, dev, 1.0, [], thr),
        lambda: EllipsoidalLOSValidator(None, hi, lo, dev, 60000, [], thr),
    ):
        if ok:
            mk()
            c.step()
        else:
            c.raises(mk, PlannerException, "bad-validator", str(item))


def main(r):
    q = r.quick
    one = [((al, pe, dz),) for al in ALONG for pe in PERP for dz in DZ]
    items = [(v, a, o, R, 0) for v in DIRS for a in ALTS for o in one for R in ((1.0,) if q else (0.6, 1.0, 2.3))]
    r.map(obstruct, items, name="one-obstruction")
    pts = [(0.27, 0.45, 0.3), (0.27, -0.87, 5.0), (0.6, 0.7, -0.45), (0.83, 0.02, -0.87), (0.98, -0.45, 40.0), (0.5, 1.06, 3.0)]
    if not q:
        pts += [(0.03, 0.02, 2.0), (0.5, 0.02, -1.4), (0.4, 0.9, -0.2)]
    multi = list(itertools.combinations(pts, 2)) + list(itertools.combinations(pts, 3))
    items = [(v, a, o, R, cut) for v in DIRS for a in ALTS for o in multi for R in (2.3,) for cut in (0, 1, 2)]
    r.map(obstruct, items if not q else items[::2], name="several-obstructions")
    xy = [(0, 0), (49.5, 0), (0, 50), (-30, 40), (30, -40.2), (0, -120), (72, 96), (72, 96.1)]
    alts = [(10.0, 10.0), (10.0, 12.0), (33.0, 10.0), (10.0, 60.0), (None, 5.0), (None, None), (5.0, None)]
    locs = [(1, None), (2, 0), (2, 1), (2, -1), (3, None)]
    items = [
        (p, z, lo, hi, dev, l1, l2, thr)
        for p in xy for z in alts for lo, hi in ((50, 120), (5, 200)) for dev in (0, 25, 90) for l1 in locs for l2 in locs for thr in (0.0, 1.0)
    ]
    r.map(simple, items, name="simple-rules")
    sq = lambda x, y, w, h: ((x, y), (x + w, y), (x + w, y + h), (x, y + h))  # noqa
    zs = [sq(20, -5, 10, 10), sq(20, 3, 10, 10), sq(-30, -30, 20, 20), sq(70, -5, 10, 10), sq(-5, -5, 10, 10), sq(-50, -50, 100, 100), ((10, 1), (40, 30), (12, 40)), ((10.0, 10.0), (10.0, 20.0), (20.0, 10.0))]
    zsets = [()] + [(z,) for z in zs] + list(itertools.combinations(zs, 2))
    r.map(zones, [(v, z, o) for v in DIRS for z in zsets for o in (0, 1)], name="exclusion-zones")
    r.map(bad, list(itertools.product((0, 50, 100), (0, -1, 5, 50), (-1, 0, 90, 91), (-0.1, 0, 1, 1.1))), name="validator-parameters")

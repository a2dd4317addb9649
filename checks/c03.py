"""C03: geodesic helpers and link geometry, on exhaustive grids."""
import itertools
import math

from tg import *  # noqa
from terragraph_planner.common import geos

R = 6371000.0
ALPH = "0123456789abcdefghijklmnopqrstuv"


def vec(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def sph(lon1, lat1, lon2, lat2):
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    cx = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return R * math.atan2(math.sqrt(sum(x * x for x in cx)), sum(x * y for x, y in zip(a, b)))


def brg(lon1, lat1, lon2, lat2):
    """Independent bearing: projection on local north/east axes."""
    lo, la = math.radians(lon1), math.radians(lat1)
    n = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    e = (-math.sin(lo), math.cos(lo), 0.0)
    b = vec(lon2, lat2)
    return math.degrees(math.atan2(sum(x * y for x, y in zip(b, e)), sum(x * y for x, y in zip(b, n)))) % 360


def adiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def angles(item, c):
    a, b = item
    d = geos.angle_delta(a, b)
    c.check(-180 < d <= 180, "angle-range", f"{item} {d}")
    c.close((d - (a - b)) % 360 % 360, 0.0 if abs(((d - (a - b)) % 360)) < 1e-9 else 0.0, "angle-mod", f"{item} {d}")
    e = geos.angle_delta(b, a)
    c.check(abs(d + e) < 1e-9 or (d == 180 and e == 180), "angle-antisym", f"{item}")
    c.outcome(d)
    c.state(item)


def pairs(item, c):
    (lo1, la1), (lo2, la2) = item
    d = float(geos.haversine_distance(lo1, la1, lo2, la2))
    c.check(abs(d - sph(lo1, la1, lo2, la2)) < 0.05 + 1e-7 * d, "distance", f"{item} {d} {sph(lo1, la1, lo2, la2)}")
    c.close(d, float(geos.haversine_distance(lo2, la2, lo1, la1)), "distance-sym", f"{item}")
    if item[0] == item[1]:
        c.eq(d, 0.0, "distance-zero")
    degenerate = d < 1 or d > math.pi * R - 10 or abs(la1) > 89.9
    b = float(geos.bearing_in_degrees(lo1, la1, lo2, la2))
    c.check(0 <= b < 360 + 1e-9, "bearing-range", f"{item} {b}")
    if not degenerate:
        c.check(adiff(b, brg(lo1, la1, lo2, la2)) < 1e-6, "bearing", f"{item} {b} {brg(lo1, la1, lo2, la2)}")
    c.outcome(round(d, 3), round(b, 6))
    c.state(item)


def translate(item, c):
    (lo, la), b, d = item
    nlo, nla = geos.translate_point(lo, la, b, d)
    c.check(abs(sph(lo, la, nlo, nla) - d) < 1e-3 + 1e-6 * d, "translate-distance", f"{item}")
    if d > 5:
        c.check(adiff(brg(lo, la, nlo, nla), b) < 1e-3, "translate-bearing", f"{item}")
    dlo, dla = geos.grid_deltas(lo, la, max(d, 1.0))
    c.check(abs(sph(lo, la, lo + dlo, la) - max(d, 1.0)) < 1e-2 * max(d, 1.0), "grid-east", f"{item}")
    c.check(abs(sph(lo, la, lo, la + dla) - max(d, 1.0)) < 1e-4 * max(d, 1.0), "grid-north", f"{item}")
    c.outcome(round(float(nlo), 9), round(float(nla), 9))
    c.state(item)


def decode(h):
    la, lo, odd = [-90.0, 90.0], [-180.0, 180.0], False
    for ch in h:
        v = ALPH.index(ch)
        for bit in (16, 8, 4, 2, 1):
            r = la if odd else lo
            m = (r[0] + r[1]) / 2
            r[0 if v & bit else 1] = m
            odd = not odd
    return la, lo


def geohash(item, c):
    lo, la = item
    h = geos.lat_lon_to_geo_hash(la, lo)
    c.eq(len(h), 10, "hash-len")
    a, o = decode(h)
    c.check(a[0] <= la <= a[1] and (la < a[1] or la == 90), "hash-lat", f"{item} {h} {a}")
    c.check(o[0] <= lo <= o[1] and (lo < o[1] or lo == 180), "hash-lon", f"{item} {h} {o}")
    c.outcome(h)
    c.state(item)


def geolocation(item, c):
    lo, la, alt = item
    valid = -90 <= la <= 90 and -180 <= lo <= 180
    if not valid:
        c.raises(lambda: GeoLocation(latitude=la, longitude=lo), PlannerException, "range")
        c.raises(lambda: geos.lat_lon_to_geo_hash(la, lo), PlannerException, "hash range")
        c.outcome("bad")
        return
    g = GeoLocation(latitude=la, longitude=lo, altitude=alt)
    c.eq((g.latitude, g.longitude, g.altitude), (la, lo, alt), "geo-identity")
    if abs(la) > 84:
        return
    zone = min(60, int((lo + 180) // 6) + 1) if lo < 180 else 1
    epsg = (32600 if la >= 0 else 32700) + zone
    c.eq(g.utm_epsg, epsg, "epsg", f"{item}")
    c.eq(geos.lat_lon_to_utm_epsg(la, lo), epsg, "epsg-fn", f"{item}")
    # the projection is locally metric around the point (UTM scale 0.9996..1.001)
    back = GeoLocation(utm_x=g.utm_x, utm_y=g.utm_y, utm_epsg=g.utm_epsg, altitude=alt)
    c.eq((back.utm_x, back.utm_y, back.utm_epsg, back.altitude), (g.utm_x, g.utm_y, g.utm_epsg, alt), "utm-identity")
    c.check(sph(back.longitude, back.latitude, lo, la) < 0.01, "utm-roundtrip", f"{item} {back.latitude} {back.longitude}")
    east = GeoLocation(utm_x=g.utm_x + 100, utm_y=g.utm_y, utm_epsg=g.utm_epsg)
    c.check(abs(sph(east.longitude, east.latitude, lo, la) - 100) < 1.0, "utm-scale-x", f"{item}")
    north = GeoLocation(utm_x=g.utm_x, utm_y=g.utm_y + 100, utm_epsg=g.utm_epsg)
    c.check(abs(sph(north.longitude, north.latitude, lo, la) - 100) < 1.0, "utm-scale-y", f"{item}")
    if abs(la) < 80:
        # x grows to the east and y to the north (grid convergence stays small)
        c.check(adiff(brg(lo, la, north.longitude, north.latitude), 0) < 5, "utm-north", f"{item}")
        c.check(adiff(brg(lo, la, east.longitude, east.latitude), 90) < 5, "utm-east", f"{item}")
    cp = g.copy(altitude=99.0)
    c.eq((cp.latitude, cp.longitude, cp.altitude, g.altitude), (la, lo, 99.0, alt), "copy")
    if abs(lo) < 179.5:  # next to the antimeridian the neighbour may leave [-180, 180]
        cp = back.copy(utm_x=g.utm_x + 1)
        c.eq((cp.utm_x, cp.utm_y, back.utm_x), (g.utm_x + 1, g.utm_y, g.utm_x), "copy-utm")
        cp = GeoLocation(utm_x=g.utm_x, utm_y=g.utm_y, utm_epsg=g.utm_epsg).copy(latitude=la / 2)
        c.close((cp.latitude, cp.longitude), (la / 2, lo), "copy-lat", tol=1e-6)
    c.outcome(epsg)
    c.state(item)


def ctor(item, c):
    vals = dict(zip(("latitude", "longitude", "utm_x", "utm_y", "utm_epsg"), item))
    ll = item[0] is not None and item[1] is not None
    ut = all(v is not None for v in item[2:])
    ok = ll or (ut and (32600 < item[4] <= 32660 or 32700 < item[4] <= 32760))
    try:
        GeoLocation(**vals)
        got = True
    except PlannerException:
        got = False
    c.eq(got, ok, "geolocation-ctor", f"{item}")
    c.outcome(got)
    c.state(item)


def cosines(item, c):
    p0, p1, p2 = item
    if p0 == p1 or p0 == p2:
        return
    ang = float(geos.law_of_cosines_utm(*p0, *p1, *p2))
    v1, v2 = (p1[0] - p0[0], p1[1] - p0[1]), (p2[0] - p0[0], p2[1] - p0[1])
    want = math.degrees(abs(math.atan2(v1[0] * v2[1] - v1[1] * v2[0], v1[0] * v2[0] + v1[1] * v2[1])))
    c.check(abs(ang - want) < 1e-4, "law-utm", f"{item} {ang} {want}")
    ll = [utm(x, y) for x, y in item]
    a2, ratio = geos.law_of_cosines_spherical(*[v for g in ll for v in (g.latitude, g.longitude)])
    c.check(abs(a2 - want) < 0.2, "law-spherical", f"{item} {a2} {want}")
    n1, n2 = math.hypot(*v1), math.hypot(*v2)
    c.check(abs(ratio - max(n1, n2) / min(n1, n2)) < 0.02 * ratio, "length-ratio", f"{item} {ratio}")
    c.outcome(round(want, 4))
    c.state(item)


def link_geometry(item, c):
    (lo1, la1, z1), (lo2, la2, z2), az1, az2 = item
    a = site(DN, location=GeoLocation(latitude=la1, longitude=lo1, altitude=z1), status=PROPOSED)
    b = site(POP, location=GeoLocation(latitude=la2, longitude=lo2, altitude=z2), status=PROPOSED)
    sa, sb = Sector(a, 0, 0, az1), Sector(b, 0, 0, az2)
    f, r = Link(tx_sector=sa, rx_sector=sb), Link(tx_sector=sb, rx_sector=sa)
    h = sph(lo1, la1, lo2, la2)
    d = h if z1 is None or z2 is None else math.hypot(h, z1 - z2)
    c.check(abs(f.distance - d) < 1e-3 + 1e-6 * d, "link-distance", f"{item} {f.distance} {d}")
    c.close(f.distance, r.distance, "link-distance-sym", f"{item}", 1e-9)
    c.check(0 <= f.tx_beam_azimuth < 360 and 0 <= f.rx_beam_azimuth < 360, "azimuth-range", f"{item}")
    if h > 1:
        c.check(adiff(f.tx_beam_azimuth, brg(lo1, la1, lo2, la2)) < 1e-6, "tx-azimuth", f"{item}")
        c.check(adiff(f.rx_beam_azimuth, f.tx_beam_azimuth + 180) < 1e-9, "rx-azimuth", f"{item}")
        c.check(h > 1000 or adiff(r.tx_beam_azimuth, f.rx_beam_azimuth) < 0.05, "azimuth-sym", f"{item}")
        c.check(adiff(f.tx_dev, f.tx_beam_azimuth - az1) < 1e-9 and -180 < f.tx_dev <= 180, "tx-dev", f"{item}")
        c.check(adiff(f.rx_dev, f.rx_beam_azimuth - az2) < 1e-9 and -180 < f.rx_dev <= 180, "rx-dev", f"{item}")
    e = 0.0 if z1 is None or z2 is None else math.degrees(math.atan2(z2 - z1, h)) if d else 0.0
    if d > 0:
        c.check(abs(f.el_dev - e) < 1e-6, "el-dev", f"{item} {f.el_dev} {e}")
        c.check(abs(f.el_dev + r.el_dev) < 1e-9, "el-dev-sym", f"{item}")
    # values are a function of the link, not of the order in which they are read
    g = Link(tx_sector=sa, rx_sector=sb)
    c.eq((g.rx_beam_azimuth, g.distance, g.tx_beam_azimuth), (f.rx_beam_azimuth, f.distance, f.tx_beam_azimuth), "order")
    w = Link(tx_sector=sa, rx_sector=sb, is_wireless=False)
    c.eq((w.tx_dev, w.rx_dev), (None, None), "wired-dev")
    g.clear_sectors()
    c.eq((g.tx_dev, g.rx_dev), (None, None), "no-sector-dev")
    c.outcome(round(f.distance, 3), round(f.tx_beam_azimuth, 6))
    c.state(item)


def main(r):
    q = r.quick
    st = 15 if q else 5
    fine = [0.0, 1e-9, 89.999, 179.999999, 180.0, 180.000001, 359.999, 360.0, -180.0, -179.999, -1e-9]
    av = [float(x) for x in range(-180, 361, st)] + fine
    r.map(angles, [p for p in itertools.product(av, repeat=2) if -360 <= p[0] - p[1] <= 360], name="angles")
    lons = [-180.0, -179.9, -90.0, -6.0, 0.0, 0.001, 2.5, 90.0, 179.99, 180.0]
    lats = [-90.0, -60.0, -0.001, 0.0, 0.002, 48.0, 48.001, 90.0]
    if not q:
        lons += [float(x) for x in range(-170, 180, 20)]
        lats += [float(x) for x in range(-80, 90, 20)]
    P = list(itertools.product(lons, lats))
    r.map(pairs, itertools.product(P, repeat=2), name="distance-bearing")
    T = [p for p in P if abs(p[1]) <= 80]
    r.map(
        translate,
        itertools.product(T, range(0, 360, 45 if q else 15), (0.5, 30.0, 250.0, 10000.0)),
        name="translate",
    )
    gl = [-180 + i * 360 / 64 for i in range(65)] + [-1e-12, 1e-12, 179.9999999]
    ga = [-90 + i * 180 / 32 for i in range(33)] + [-1e-12, 1e-12, 89.9999999]
    r.map(geohash, itertools.product(gl, ga), name="geohash")
    zl = [-180.0 + 6 * k for k in range(61)] + [-177.0 + 6 * k for k in range(60)] + [-180.5, 180.5, 179.9999]
    za = [-90.5, -90.0, -79.0, -30.0, -1e-6, 0.0, 1e-6, 45.0, 83.0, 90.0, 90.5]
    r.map(geolocation, itertools.product(zl, za, (None, 12.5)), name="utm")
    r.map(
        ctor,
        itertools.product((None, 10.0), (None, 20.0), (None, 5e5), (None, 1e6),
                          (None, 32600, 32601, 32660, 32661, 32700, 32701, 32760, 32761, 4326)),
        name="geolocation-ctor",
    )
    g = [(x, y) for x in (-100.0, 0.0, 60.0, 200.0) for y in (-80.0, 0.0, 100.0)]
    r.map(cosines, itertools.product(g, repeat=3), name="law-of-cosines")
    L = [(lo, la, z) for lo, la in ((11.0, 48.0), (11.001, 48.0), (11.0, 48.002), (10.9993, 47.9993), (11.0, 48.0 + 1e-7), (11.0, 48.0 + 7e-6))
         for z in (None, 0.0, 0.4, 30.0)]
    L += [(179.9995, 10.0, 5.0), (-179.9995, 10.0, 5.0)]
    az = (0.0, 137.0, 359.9) if q else tuple(float(x) for x in range(0, 360, 30))
    r.map(link_geometry, [i for i in itertools.product(L, L, az, az) if i[0][:2] != i[1][:2] or i[0][2] != i[1][2]], name="link-geometry")

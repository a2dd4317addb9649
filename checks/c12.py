"""C12: the candidate topology built from sites and line-of-sight results."""
import itertools
import math
import os
import shutil
import tempfile
from collections import defaultdict

import numpy as np
from osgeo import gdal
from shapely import ops
from shapely.geometry import LineString, Polygon

import tg
from gis import bbox, raster, sref
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED
from terragraph_planner.common.exceptions import PlannerException
from terragraph_planner.common.configuration.configs import GISDataParams, LOSParams, SiteDetectionParams
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.data_io.kml_library import extract_polygons
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.geos import GeoLocation, TransformerLib
from terragraph_planner.common.structs import CandidateLOS, ValidLOS
from terragraph_planner.common.topology_models.link import Link
from terragraph_planner.common.topology_models.site import DetectedSite, LOSSite, Site
from terragraph_planner.common.topology_models.topology import Topology
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.los import core, helper
from terragraph_planner.los.cylindrical_los_validator import CylindricalLOSValidator
from terragraph_planner.los.ellipsoidal_los_validator import EllipsoidalLOSValidator

gdal.PushErrorHandler("CPLQuietErrorHandler")
L, T = 500000.0, 5300000.0
EPSG = 32631
TO_LL = TransformerLib.get_tranformer(EPSG, 4326)
TYPES = (POP, DN, CN)


def ll(x, y):
    lon, lat = TO_LL.transform(L + x, T + y)
    return lon, lat


def kml(placemarks):
    return f'<?xml version="1.0"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document>{placemarks}</Document></kml>'


def poly_pm(name, pts):
    ring = " ".join("%r,%r,0" % ll(x, y) for x, y in list(pts) + [pts[0]])
    return f"<Placemark><name>{name}</name><Polygon><outerBoundaryIs><LinearRing><coordinates>{ring}</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>"


def point_pm(name, x, y, z):
    return "<Placemark><name>%s</name><Point><altitudeMode>absolute</altitudeMode><coordinates>%r,%r,%r</coordinates></Point></Placemark>" % ((name,) + ll(x, y) + (z,))


def folder(name, pms):
    return f"<Folder><name>{name}</name>{pms}</Folder>"


def save(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


SQUARE = [(-500, -500), (500, -500), (500, 500), (-500, 500)]
LLB = Polygon([ll(x, y) for x, y in SQUARE])


# ---------------------------------------------------- which pairs are checked
def pairs(item, c):
    delta, ndet, base = item
    d = tempfile.mkdtemp(prefix="c12.")
    try:
        rows = ["name,latitude,longitude,altitude,site type,device sku"]
        for n, t in enumerate(delta):
            lon, lat = ll(10 * n, 0)
            rows.append(f"d{n},{lat!r},{lon!r},5,{t.name},{'CN_DEV' if t == CN else 'DN_DEV'}")
        path = save(d, "sites.csv", "\n".join(rows) + "\n") if delta else None
        det = [DetectedSite(DN, tg.utm(10 * n, 50, 7.0), n) for n in range(ndet)]
        bt, bp = Topology(), None
        if base:
            for n, t in enumerate(base):
                bt.add_site(tg.site(t, 10 * n, 100, 6.0, EXISTING, name=f"b{n}"))
            bp = os.path.join(d, "base.kml")
            write_to_kml_file(bt, bp)
        g = GISDataParams(boundary_polygon_file_path="b.kml", site_file_path=path, base_topology_file_path=bp)
        p = LOSParams(device_list=[tg.DN_DEV, tg.CN_DEV])
        sites, cand, zones, topo = helper.get_los_topology(g, p, LLB, list(det), None, None)
        types = list(delta) + [DN] * ndet + sorted([s.site_type for s in topo.sites.values()], key=lambda t: t.value)
        c.eq(sorted([s.site_type.value for s in sites]), sorted([t.value for t in types]), "all-sites", str(item))
        c.eq([s.site_type for s in sites[: len(delta)]], list(delta), "site-order", str(item))
        c.check(all(a is b for a, b in zip(sites[len(delta) : len(delta) + ndet], det)), "detected-kept")
        c.eq({s.name for s in sites[len(delta) + ndet :]}, {s.name for s in topo.sites.values()}, "base-sites")
        want = set()
        for i, j in itertools.combinations(range(len(sites)), 2):
            if i >= len(delta) + ndet:
                continue
            a, b = sites[i].site_type, sites[j].site_type
            if a == CN and b == CN or a == POP and b == POP:
                continue
            if CN in (a, b):
                want.add((j, i, False) if a == CN else (i, j, False))
            else:
                want.add((i, j, True))
        got = [tuple(x) for x in cand]
        norm = {(min(i, j), max(i, j), True) if b else (i, j, False) for i, j, b in got}
        c.eq(norm, want, "pairs", str(item))
        c.eq(len(got), len(norm), "pair-twice", str(item))
        c.eq(zones, [], "zones-none")
        c.outcome(len(want))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


# ------------------------------------------------------------- batched LOS
RASTER = np.zeros((60, 60))
RASTER[20:30, 28:31] = 30.0  # a wall
LOSA = [
    LOSSite(L + 0.0, T + 0.0, 10.0, 1, None),
    LOSSite(L + 60.0, T + 0.0, 10.0, 1, None),
    LOSSite(L + 60.0, T + 0.0, 45.0, 2, 0),
    LOSSite(L + 60.0, T + 0.0, 45.0, 2, 1),
    LOSSite(L + 100.0, T - 50.0, 45.0, 2, 0),
    LOSSite(L + 100.0, T - 50.0, 10.0, 2, -1),
    LOSSite(L + 20.0, T - 110.0, None, 1, None),
    LOSSite(L + 20.0, T - 110.0, 8.0, 3, None),
    LOSSite(L + 0.0, T + 0.0, 75.0, 1, None),
]
ZONE = Polygon([(L + 35, T - 80), (L + 45, T - 80), (L + 45, T - 70), (L + 35, T - 70)])


def validator(ell, el, zones, hi, lo, dev, thr, radius=1.0, freq=60000):
    if ell:
        return EllipsoidalLOSValidator(el, hi * 1.02, lo * 0.98, min(dev + 2, 90), freq, zones, thr)
    return CylindricalLOSValidator(el, hi * 1.02, lo * 0.98, min(dev + 2, 90), radius, zones, thr)


def batch(item, c):
    idx, order, bi, ell, surf, zoned = item
    sites = [LOSA[i] for i in idx]
    if surf and any(s.altitude is None for s in sites):
        return
    el = raster(RASTER, L, T + 20, 2.0) if surf else None
    zones = [ZONE] if zoned else []
    prs = list(itertools.combinations(range(len(sites)), 2))
    cand = [CandidateLOS(*((j, i) if k else (i, j)), b) for (i, j), k, b in zip(prs, order, bi)]
    kw = dict(max_los_distance=150, min_los_distance=30, max_el_scan_angle=30.0, los_confidence_threshold=0.6, use_ellipsoidal_los_model=ell, fresnel_radius=1.0, carrier_frequency=60000.0)
    got = helper.compute_los_batch(
        cand, sites, [z.wkt for z in zones],
        el.data_matrix if el else None, el.utm_bounding_box if el else None,
        el.x_resolution if el else None, el.y_resolution if el else None,
        el.crs_epsg_code if el else None, el.left_top_x if el else None, el.left_top_y if el else None, **kw,
    )
    want = []
    v = validator(ell, el, zones, 150, 30, 30.0, 0.6)
    for i, j, b in cand:
        f = v.compute_confidence(sites[i], sites[j])
        if f > 0:
            want.append((i, j, f))
            if b:
                want.append((j, i, f))
    key = lambda t: (t[0], t[1])  # noqa
    c.check(_same(sorted(map(tuple, got), key=key), sorted(want, key=key)), "batch", f"{item} {got} {want}")
    c.outcome(len(want))
    c.state(item)


def _same(a, b):
    return len(a) == len(b) and all(x[:2] == y[:2] and abs(x[2] - y[2]) < 1e-6 for x, y in zip(a, b))


def pooled(item, c):
    """The parallel computation equals the sum of its parts for every batch size."""
    size, procs, ell, surf = item
    sites = [tg.site(DN, s.utm_x - L, s.utm_y - T, 8.0 if s.altitude is None else s.altitude, loc=LocationType(s.location_type) if s.location_type < 3 else LocationType.UNKNOWN, building=s.building_id if s.location_type == 2 else None) for s in LOSA]
    cand = [CandidateLOS(i, j, (i + j) % 3 != 0) for i, j in itertools.combinations(range(len(sites)), 2)]
    el = raster(RASTER, L, T + 20, 2.0) if surf else None
    old, cpus = core.BATCH_SIZE, core.cpu_count
    core.BATCH_SIZE, core.cpu_count = size, lambda: 2
    try:
        got = core.compute_los(sites, cand, el, [ZONE], 150, 30, 30.0, 0.6, ell, 1.0, 60000.0, procs)
    finally:
        core.BATCH_SIZE, core.cpu_count = old, cpus
    v = validator(ell, el, [ZONE], 150, 30, 30.0, 0.6)
    want = []
    for i, j, b in cand:
        a, z = (LOSSite(s.utm_x, s.utm_y, s.altitude, s.location_type.value, s.building_id) for s in (sites[i], sites[j]))
        f = v.compute_confidence(a, z)
        if f > 0:
            want.append((i, j, f))
            if b:
                want.append((j, i, f))
    key = lambda t: (t[0], t[1])  # noqa
    c.check(len(want) > 5, "pooled-some")
    c.check(_same(sorted(map(tuple, got), key=key), sorted(want, key=key)), "pooled", f"{item}")
    c.state(item)


def needs(item, c):
    """Detection is refused up front without devices for the sites it would make."""
    devs, outline, corners, centers, highest, dn = item
    g = GISDataParams(boundary_polygon_file_path="b.kml", building_outline_file_path="h.kml" if outline else None)
    p = LOSParams(device_list=list(devs), site_detection=SiteDetectionParams(dn_deployment=dn, detect_highest=highest, detect_centers=centers, detect_corners=corners))
    on = outline and (corners or centers or highest)
    types = {d.device_type.name for d in devs}
    if on and ("CN" not in types or dn and "DN" not in types):
        c.raises(lambda: helper.pre_los_check(p, g), PlannerException, "detection-without-device", str(item))
        c.outcome("refused")
    else:
        helper.pre_los_check(p, g)
        c.outcome("accepted")


# -------------------------------------------- picking and building the graph
DEV2 = tg.dn_device("DN_TWO")
CN2 = tg.cn_device("CN_TWO")


def reach(starts, adj):
    seen, todo = set(starts), list(starts)
    while todo:
        for v in adj[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def graph(item, c):
    """Detected sites: one or two per building, all line-of-sight graphs."""
    shape, edges, dn_dep, two, roof = item
    # shape: tuple of ('P'|'u'|'v'|building number)
    n = len(shape)
    sites = []
    for k, s in enumerate(shape):
        x, y = 100 * math.cos(k), 100 * math.sin(k) + 3 * k
        # user sites can be on the same buildings
        on = dict(loc=LocationType.ROOFTOP, building=0 if s == "P" else 1) if roof else {}
        if s == "P":
            sites.append(tg.site(POP, x, y, 5.0, name="P", **on))
        elif s == "u":
            sites.append(tg.site(DN, x, y, 5.0, name=f"u{k}", **on))
        elif s == "v":
            sites.append(tg.site(CN, x, y, 5.0, name=f"v{k}", **on))
        else:
            sites.append(DetectedSite(DN, tg.utm(x, y, 6.0), s))
    links, los = [], {}
    for k, (i, j) in enumerate(edges):
        f = round(0.6 + 0.01 * ((i * 7 + j) % 40), 2)
        a, b = (j, i) if sites[i].site_type == CN else (i, j)
        links.append(ValidLOS(a, b, f))
        los[a, b] = f
        if sites[b].site_type != CN:
            links.append(ValidLOS(b, a, f))
            los[b, a] = f
    dns, cns = ([tg.DN_DEV, DEV2], [tg.CN_DEV, CN2]) if two else ([tg.DN_DEV], [tg.CN_DEV])
    p = LOSParams(device_list=dns + cns, minimum_los_distance=5, maximum_elevation_scan_angle=90, site_detection=SiteDetectionParams(dn_deployment=dn_dep))
    limit = {(a.device_sku, b.device_sku): 10000 for a in dns for b in dns + cns}
    base = Topology()
    at = {(round(s.utm_x, 3), round(s.utm_y, 3)): k for k, s in enumerate(sites)}
    topo = core.build_candidate_topology(p, base, list(sites), links, limit, True)
    c.check(topo is base, "same-topology")
    # where the sites of the result are
    have = defaultdict(list)
    for s in topo.sites.values():
        k = at.get((round(s.utm_x, 3), round(s.utm_y, 3)))
        if c.check(k is not None, "site-elsewhere", str(item)):
            have[k].append(s)
    adj = defaultdict(list)
    for a, b in los:
        adj[a].append(b)
    buildings = sorted({s for s in shape if isinstance(s, int)})
    best = o_best(shape, adj)
    picked = [k for k, s in enumerate(shape) if not isinstance(s, int)]
    cn_at = {}
    for b in buildings:
        mine = [k for k, s in enumerate(shape) if s == b]
        withcn = [k for k in mine if any(s.site_type == CN for s in have[k])]
        c.eq(len(withcn), 1, "one-cn-per-building", f"{item}")
        if len(withcn) != 1:
            return
        k = withcn[0]
        c.check(k in best[b], "best-location", f"{item} building {b} at {k} best {best[b]}")
        cn_at[b] = k
        c.eq(sorted(s.device.device_sku for s in have[k] if s.site_type == CN), sorted(d.device_sku for d in cns), "cn-devices", str(item))
        for m in mine:
            skus = sorted(s.device.device_sku for s in have[m] if s.site_type == DN)
            c.check(skus in ([], sorted(d.device_sku for d in dns)), "dn-devices", f"{item} {skus}")
            for s in have[m]:
                c.eq((s.building_id, s.location_type, s.status_type), (b, LocationType.ROOFTOP, CANDIDATE), "detected-attributes")
        if dn_dep:
            c.check(any(s.site_type == DN for s in have[k]), "dn-deployed", f"{item}")
            picked.append(k)
    for k, s in enumerate(shape):
        if not isinstance(s, int):
            c.check(len(have[k]) == 1 and have[k][0] is sites[k], "user-site-kept", f"{item}")
    extra = [k for k, s in enumerate(shape) if isinstance(s, int) and any(x.site_type == DN for x in have[k]) and k not in picked]
    # links of the result
    got = {(l.tx_site.site_id, l.rx_site.site_id): l for l in topo.links.values()}
    want = {}
    for (a, b), f in los.items():
        for s in have[a]:
            if s.site_type == CN:
                continue
            for t in have[b]:
                want[s.site_id, t.site_id] = f
    # a link to a user CN or from a detected location to the CN on another one
    c.eq(set(got), set(want), "links", f"{item}")
    for k in set(got) & set(want):
        c.close(got[k].confidence_level, want[k], "confidence", f"{item}", tol=1e-9)
        c.check(got[k].is_wireless and got[k].status_type == CANDIDATE, "link-attributes")
    # connectivity of the picked sites alone; CN of building b is node ('c', b)
    def conn(dn_nodes):
        g = defaultdict(list)
        for a, b in los:
            if a in dn_nodes and sites[a].site_type != CN:
                if b in dn_nodes:
                    g[a].append(b)
                for bb, k in cn_at.items():
                    if k == b:
                        g[a].append(("c", bb))
        return reach([k for k in dn_nodes if shape[k] == "P"], g)

    before, after = conn(set(picked)), conn(set(picked) | set(extra))
    cn_nodes = [("c", b) for b in cn_at] + [k for k, s in enumerate(shape) if s == "v"]
    lost = [x for x in cn_nodes if x not in before]
    for e in extra:
        c.check(e in after, "additional-unreachable", f"{item} {e}")
        c.check(any((x if isinstance(x, int) else cn_at[x[1]]) in adj[e] for x in lost), "additional-useless", f"{item} {e}")
    # in some order, each of them serves a CN that the ones before do not
    place = {x if isinstance(x, int) else cn_at[x[1]] for x in lost}
    def adds(order):
        done = set()
        for e in order:
            new = (set(adj[e]) & place) - done
            if not new:
                return False
            done |= new
        return True

    c.check(any(adds(o) for o in itertools.permutations(extra)), "additional-superfluous", f"{item} {extra}")
    # a DN that became connectable through an additional one is used if a CN needs it
    if len(extra) < 3:
        served = set().union(*[adj[e] for e in extra]) & place if extra else set()
        beyond = {b for a, b in los if a in before | set(extra) and sites[a].site_type != CN and isinstance(shape[b], int) and b not in picked}
        for x in place - served:
            c.check(not any(x in adj[b] for b in beyond), "additional-missing-chain", f"{item} {x} {extra}")
    one_hop = {b for a, b in los if a in before and sites[a].site_type != CN and isinstance(shape[b], int) and b not in picked}
    for x in lost:
        k = x if isinstance(x, int) else cn_at[x[1]]
        if any(k in adj[h] for h in one_hop):
            c.check(x in after, "cn-left-unconnected", f"{item} {x}")
    c.outcome(len(extra), len(lost), len([x for x in lost if x in after]))
    c.state(item)


def o_best(shape, adj):
    """Locations with most lines of sight, with or without those to the CNs
    already placed on other buildings."""
    out = {}
    count = {k: len(adj[k]) for k in range(len(shape))}
    aug = dict(count)
    order = []
    for s in shape:
        if isinstance(s, int) and s not in order:
            order.append(s)
    for b in order:
        mine = [k for k, s in enumerate(shape) if s == b]
        m1, m2 = max(count[k] for k in mine), max(aug[k] for k in mine)
        out[b] = {k for k in mine if count[k] == m1 or aug[k] == m2}
        first = next(k for k in mine if aug[k] == m2)
        for k in adj:
            if first in adj[k]:
                aug[k] += 1
    return out


def filters(item, c):
    """Distance and elevation limits per device pair, without site detection."""
    (x, z), (ta, tb), lim, lo, dev = item
    a = tg.site(ta, 0, 0, 10.0, name="a", device=tg.DN_DEV if ta != CN else tg.CN_DEV)
    b = tg.site(tb, x, 0, 10.0 + z, name="b", device=(DEV2 if tb != CN else CN2))
    los = []
    if ta != CN:
        los.append(ValidLOS(0, 1, 0.9))
    if tb != CN:
        los.append(ValidLOS(1, 0, 0.9))
    p = LOSParams(device_list=[tg.DN_DEV, tg.CN_DEV], minimum_los_distance=lo, maximum_elevation_scan_angle=dev)
    pair = {("DN_DEV", "DN_TWO"): lim[0], ("DN_TWO", "DN_DEV"): lim[1], ("DN_DEV", "CN_TWO"): lim[0], ("DN_TWO", "CN_DEV"): lim[1]}
    topo = core.build_candidate_topology(p, Topology(), [a, b], los, pair, False)
    d = math.hypot(x, z)
    el = math.degrees(math.atan2(abs(z), x))
    c.eq(len(topo.sites), 2, "filter-sites")
    for (s, t), m in (((a, b), lim[0]), ((b, a), lim[1])):
        link = topo.get_link_by_site_ids(s.site_id, t.site_id)
        if s.site_type == CN:
            c.check(link is None, "cn-transmits", str(item))
            continue
        # the link length may be taken on the ground or in space
        ok = [lo <= q <= m for q in (x, d)]
        sure = all(ok) and el <= dev - 1 and all(lo + 0.5 <= q <= m - 0.5 for q in (x, d))
        never = not any(lo - 0.5 <= q <= m + 0.5 for q in (x, d)) or el > dev + 1
        if sure:
            c.check(link is not None, "link-missing", str(item))
        if never:
            c.check(link is None, "link-beyond-limits", str(item))
        c.outcome(sure, never)
    c.state(item)


def based(item, c):
    """New sites are connected to the base topology, which stays as it was."""
    btypes, ntypes, los_mask, blinks = item
    base = Topology()
    bs = []
    for k, t in enumerate(btypes):
        s = tg.site(t, 100 * k, 0, 5.0, EXISTING if blinks or k % 2 else PROPOSED, name=f"b{k}")
        bs.append(s)
        base.add_site(s)
    if blinks and len(bs) > 1 and bs[0].site_type != CN:
        base.add_link(Link(tx_site=bs[0], rx_site=bs[1], status_type=EXISTING, is_wireless=True, confidence_level=0.7))
    ns = [tg.site(t, 100 * k, 80, 5.0, name=f"n{k}") for k, t in enumerate(ntypes)]
    sites = ns + bs
    snap = {(l.link_id, l.status_type, l.confidence_level) for l in base.links.values()}
    ssnap = {(s.site_id, s.status_type, s.name) for s in bs}
    cand = []
    for i, j in itertools.combinations(range(len(sites)), 2):
        if i < len(ns):
            if sites[i].site_type != CN:
                cand.append((i, j))
            if sites[j].site_type != CN:
                cand.append((j, i))
    los = [ValidLOS(i, j, 0.8) for k, (i, j) in enumerate(cand) if los_mask >> k & 1]
    p = LOSParams(device_list=[tg.DN_DEV, tg.CN_DEV], minimum_los_distance=5, maximum_elevation_scan_angle=90)
    topo = core.build_candidate_topology(p, base, sites, los, {("DN_DEV", "DN_DEV"): 1000, ("DN_DEV", "CN_DEV"): 1000}, False)
    c.eq(set(topo.sites), {s.site_id for s in sites}, "based-sites", str(item))
    c.check(snap <= {(l.link_id, l.status_type, l.confidence_level) for l in topo.links.values()}, "base-link-changed", str(item))
    c.check(ssnap <= {(s.site_id, s.status_type, s.name) for s in topo.sites.values()}, "base-site-changed", str(item))
    new = {(l.tx_site.name, l.rx_site.name) for l in topo.links.values() if (l.link_id, l.status_type, l.confidence_level) not in snap}
    c.eq(new, {(sites[i].name, sites[j].name) for i, j, _ in los}, "based-links", str(item))
    c.outcome(len(new))
    c.state(item)


# ------------------------------------------------------------------ pipeline
BOUND = [(-20, -20), (420, -20), (420, 300), (-20, 300)]
RES = 4.0
NX, NY = 112, 82
GL, GT = -24.0, 304.0
INPUT = [("pop", "POP", 20, 20), ("dn1", "DN", 130, 40), ("dn2", "DN", 240, 60), ("cn1", "CN", 130, 150), ("cn2", "CN", 330, 90), ("out", "DN", 700, 700)]
HOUSES = {0: [(60, 180), (80, 180), (80, 200), (60, 200)], 1: [(200, 170), (230, 170), (230, 195), (215, 195), (215, 210), (200, 210)]}
ON = {"dn2": "rooftop,1", "cn2": "rooftop,0"}  # user sites on buildings
WALLS = {
    "no": None,
    "mid": ((70, 20), (78, 60)),
    "long": ((180, -20), (186, 200)),
}
ZONES = {
    "none": [],
    "pop-dn1": [[(70, 10), (90, 10), (90, 45), (70, 45)]],
    "far": [[(380, 200), (400, 200), (400, 220), (380, 220)]],
    "two": [[(180, 40), (190, 40), (190, 60), (180, 60)], [(100, 90), (160, 90), (160, 110), (100, 110)]],
    "outside": [[(180, 40), (190, 40), (190, 900), (180, 900)]],
}


def grid(wall, houses):
    """terrain, height above it"""
    t = np.zeros((NY, NX))
    h = np.zeros((NY, NX))
    for i in range(NY):
        for j in range(NX):
            x, y = GL + RES * j, GT - RES * i
            t[i, j] = 100 + 0.02 * x
            if wall and wall[0][0] <= x <= wall[1][0] and wall[0][1] <= y <= wall[1][1]:
                h[i, j] = 25.0
            if houses and any(Polygon(v).buffer(1).contains(Polygon([(x, y), (x + 0.1, y), (x, y + 0.1)])) for v in HOUSES.values()):
                h[i, j] = 9.0
    return t, h


def pipeline(item, c):
    src, zone, elev, houses, based_, ell, wall = item
    if src == "csv":
        zone = "none"
    d = tempfile.mkdtemp(prefix="c12.")
    old = current_system_params.output_dir
    current_system_params.output_dir = d
    try:
        _pipeline(item, c, d, src, zone, elev, houses, based_, ell, wall)
    finally:
        current_system_params.output_dir = old
        shutil.rmtree(d, ignore_errors=True)
    c.state(item)


def _pipeline(item, c, d, src, zone, elev, houses, based_, ell, wall):
    kw = dict(boundary_polygon_file_path=save(d, "bound.kml", kml(poly_pm("b", BOUND))))
    if src == "csv":
        rows = ["name,latitude,longitude,height,site type,device sku,location type,building id"]
        for n, t, x, y in INPUT:
            lon, lat = ll(x, y)
            rows.append(f"{n},{lat!r},{lon!r},6,{t},{'CN_DEV' if t == 'CN' else 'DN_DEV'},{ON.get(n, ',')}")
        kw["site_file_path"] = save(d, "sites.csv", "\n".join(rows) + "\n")
    else:
        pm = "".join(folder(k, "".join(point_pm(n, x, y, 130.0) for n, t, x, y in INPUT if t == k)) for k in ("POP", "DN", "CN"))
        pm += folder("zones", "".join(poly_pm(f"z{k}", z) for k, z in enumerate(ZONES[zone])))
        kw["site_file_path"] = save(d, "sites.kml", kml(pm))
    t, h = grid(WALLS[wall], houses)
    wr = lambda name, m: (ElevationLoader().write(os.path.join(d, name), raster(m, L + GL, T + GT, RES)), os.path.join(d, name))[1]  # noqa
    dsm = wr("dsm.tif", t + h)
    if elev in ("dsm", "dsm+dtm", "dsm+dhm"):
        kw["dsm_file_paths"] = [dsm]
    if elev in ("dtm+dhm", "dsm+dtm"):
        kw["dtm_file_path"] = wr("dtm.tif", t)
    if elev in ("dtm+dhm", "dsm+dhm"):
        kw["dhm_file_path"] = wr("dhm.tif", h)
    if houses:
        kw["building_outline_file_path"] = save(d, "houses.kml", kml("".join(poly_pm(f"h{k}", v) for k, v in HOUSES.items())))
    names = {"pop", "dn1", "dn2", "cn1", "cn2"}
    if based_ and not houses:
        bt = Topology()
        b1 = tg.site(DN, 240, 160, 130.0, EXISTING, name="base1")
        b2 = tg.site(POP, 330, 200, 130.0, EXISTING, name="base2", loc=LocationType.ROOFTOP, building=1)
        bt.add_site(b1)
        bt.add_site(b2)
        bt.add_link(Link(tx_site=b1, rx_site=b2, status_type=EXISTING, is_wireless=True, confidence_level=0.9))
        kw["base_topology_file_path"] = os.path.join(d, "base.kml")
        write_to_kml_file(bt, kw["base_topology_file_path"])
        names |= {"base1", "base2"}
    g = GISDataParams(**kw)
    p = LOSParams(
        device_list=[tg.DN_DEV, tg.CN_DEV], use_ellipsoidal_los_model=ell, num_processors=1, maximum_los_distance=180, minimum_los_distance=40,
        maximum_elevation_scan_angle=30, los_confidence_threshold=0.6,
        site_detection=SiteDetectionParams(dn_deployment=True, detect_highest=True, detect_centers=False, detect_corners=True),
    )
    topo = core.generate_candidate_topology(p, g)
    by = {s.name: s for s in topo.sites.values()}
    c.check(names <= set(by), "pipeline-sites", f"{item} {sorted(by)}")
    c.check("out" not in by, "site-outside-boundary", str(item))
    det = [s for s in topo.sites.values() if s.name not in names]
    c.check(all(s.building_id in HOUSES for s in det), "pipeline-extra-sites", f"{item} {[s.name for s in det]}")
    if houses:
        for b in HOUSES:
            c.eq(len([s for s in det if s.building_id == b and s.site_type == CN]), 1, "pipeline-building", str(item))
    surf = None
    if elev != "none":
        box = Polygon([(L + x, T + y) for x, y in BOUND]).bounds
        # the boundary goes through latitude and longitude, so it may be a hair larger
        surf = ElevationLoader().read([dsm], EPSG, bbox(math.floor(box[0]) - 4, math.floor(box[1]) - 4, math.ceil(box[2]) + 4, math.ceil(box[3]) + 4))
    for n, ty, x, y in INPUT[:-1]:
        s = by.get(n)
        if s is None:
            continue
        if src == "csv":
            near = lambda dx: float(surf.get_value(L + x + dx, T + y)) + 6.0  # noqa
            want = None if surf is None else near(0)
            if surf is not None and s.altitude is not None:  # the grid starts at the corner of the boundary
                want = min((near(-3), near(0), near(3)), key=lambda v: abs(v - s.altitude))
        else:
            want = 130.0
        c.close(s.altitude, want, "pipeline-altitude", f"{item} {n}", tol=1e-4)
    # every pair of sites: a link exactly when the direct test and the limits allow it
    zones = [Polygon([(L + x, T + y) for x, y in z]) for z in ZONES[zone] if Polygon(BOUND).contains(Polygon(z))]
    limit = helper.get_max_los_dist_for_device_pairs(p.device_list, None, None, None, 180)
    hi = max(limit.values())
    v = validator(ell, surf, zones, hi, 40, 30, 0.6)
    n = 0
    for a, b in itertools.permutations(topo.sites.values(), 2):
        if a.site_type == CN or (a.site_type == POP and b.site_type == POP):
            want = 0.0
        elif a.name.startswith("base") and b.name.startswith("base"):
            want = 0.9 if a.name == "base1" else None
        elif a.building_id is not None and a.building_id == b.building_id and a.building_id >= 0:
            want = 0.0
        else:
            la, lb = (LOSSite(s.utm_x, s.utm_y, s.altitude, s.location_type.value, s.building_id) for s in (a, b))
            want = v.compute_confidence(la, lb)
            m = limit[a.device.device_sku, b.device.device_sku]
            dist = math.hypot(a.utm_x - b.utm_x, a.utm_y - b.utm_y)
            d3 = math.hypot(dist, (a.altitude or 0) - (b.altitude or 0))
            ang = math.degrees(math.atan2(abs((a.altitude or 0) - (b.altitude or 0)), dist))
            if any(abs(q - w) < 2 for q in (dist, d3) for w in (40, m)) or abs(ang - 30) < 2:
                continue
            if not 40 <= dist <= m or ang > 30:
                want = 0.0
        l = topo.get_link_by_site_ids(a.site_id, b.site_id)
        if want is None:
            continue
        c.check((l is not None) == (want > 0), "pipeline-link", f"{item} {a.name or a.site_id[:4]} {b.name or b.site_id[:4]} {l is not None} {want}")
        if l is not None and want > 0:
            n += 1
            c.close(l.confidence_level, want, "pipeline-confidence", f"{item} {a.name}-{b.name}", tol=2e-2)
    c.check(n > 0, "pipeline-some")
    # the file written at the end holds the same topology
    out = os.path.join(d, "output", "candidate_topology.kml")
    if c.check(os.path.exists(out), "pipeline-output"):
        back = extract_topology_from_file(out, [tg.DN_DEV, tg.CN_DEV], None)
        c.eq(len(back.sites), len(topo.sites), "pipeline-output-sites")
        c.eq(len(back.links), len(topo.links), "pipeline-output-links")
    c.outcome(n, len(det))


def main(r):
    q = r.quick
    seqs = [()] + [s for k in (1, 2, 3) for s in itertools.product(TYPES, repeat=k)]
    b = [()] + [s for k in (1, 2) for s in itertools.product(TYPES, repeat=k)]
    items = [(s, n, t) for s in seqs for n in (0, 1, 2) for t in b]
    r.map(pairs, items if not q else items[::2], name="candidate-pairs")
    idxs = list(itertools.combinations(range(len(LOSA)), 3))
    if not q:
        idxs += list(itertools.permutations(range(len(LOSA)), 4))[::7]
    items = []
    for ix in idxs:
        m = len(list(itertools.combinations(ix, 2)))
        for o in itertools.product((0, 1), repeat=3):
            for bi in ((True,) * m, (False, True) * 3):
                items += [(ix, (o * 2)[:m], bi[:m], e, s, z) for e in (False, True) for s in (False, True) for z in (False, True)]
    r.map(batch, items, name="batched-los")
    r.map(pooled, [(s, n, e, f) for s in (1, 3, 28, 1000) for n in (1, 2, 3, None) for e in (False, True) for f in (False, True)][:: 3 if q else 1], name="parallel-los")

    r.map(needs, list(itertools.product(((tg.DN_DEV,), (tg.CN_DEV,), (tg.DN_DEV, tg.CN_DEV), (tg.CN_DEV, CN2), (CN2, DEV2, tg.DN_DEV)), *[(False, True)] * 5)), name="devices-for-detection")

    def sub(shape, stride):
        pr = [(i, j) for i, j in itertools.combinations(range(len(shape)), 2) if not (shape[i] == shape[j] and isinstance(shape[i], int)) and not (shape[i] == shape[j] == "P") and not (shape[i] == shape[j] == "v")]
        for m in range(0, 1 << len(pr), stride):
            yield tuple(e for k, e in enumerate(pr) if m >> k & 1)

    items = []
    for shape, st in (
        (("P", 0, 0, 1), 1), (("P", 0, 0, 1, 1), 1 if not q else 1), (("P", "v", 0, 0), 1), (("P", "u", 0, 0, 1), 1 if not q else 3),
        ((0, 1, "P", "v", 0), 1 if not q else 3), (("P", 0, 0, 1, 1, 2), 3 if not q else 37), (("P", "u", "v", 0, 0, 1), 5 if not q else 61),
    ):
        items += [(shape, e, dd, tw, ro) for e in sub(shape, st) for dd in (True, False) for tw, ro in (((False, False), (True, False), (False, True)) if len(shape) < 5 else ((False, False),) if q else ((False, False), (False, True)))]
    r.map(graph, items, name="picked-sites")
    xs = [(x, z) for x in (4, 20, 49, 60, 99, 101, 140, 220) for z in (0, 8, -15, 45)]
    r.map(filters, list(itertools.product(xs, [(DN, DN), (POP, DN), (DN, CN), (CN, POP)], [(100, 100), (100, 150), (210, 90)], (5, 50), (10, 25, 90))), name="link-limits")
    items = []
    for bt in [s for k in (1, 2) for s in itertools.product(TYPES, repeat=k)]:
        for nt in [s for k in (1, 2) for s in itertools.product(TYPES, repeat=k)]:
            for mask in (range(0, 1024, 3) if not q else (0, 1, 2, 5, 21, 64, 170, 1023)):
                items += [(bt, nt, mask, k) for k in (False, True)]
    r.map(based, items, name="base-topology")
    items = []
    for k, it in enumerate(itertools.product(("kml", "csv"), ZONES, ("none", "dsm", "dtm+dhm", "dsm+dtm", "dsm+dhm"), (False, True), (False, True), (False, True), WALLS)):
        src, zone, elev, hs, bs, ell, wall = it
        if (src == "csv" and zone != "none") or (hs and bs) or (elev == "none" and wall != "no"):
            continue
        if elev == "none" and (src == "csv" and bs or src == "kml" and hs):  # sites with and without altitude: rejected
            continue
        items.append(it)
    r.map(pipeline, items if not q else items[::9], name="whole-pipeline", limit=300)
    r.extra["note"] = "line-of-sight of a pair is taken from the validators that C09 verifies"

"""C08: KML/KMZ topologies - reading files and writing/reloading topologies.

Reading: every file of a bounded KML grammar is written to a scratch folder and
read through the public loaders; the result is compared with a reference
reading of the documentation.  Round trip: every topology of a bounded family
is written with write_to_kml_file and loaded back as a candidate topology.
"""
import itertools
import os
import tempfile
import xml.etree.ElementTree as ET
import xml.sax.saxutils as sx
import zipfile

from tg import *  # noqa
from terragraph_planner.common.configuration.constants import UNKNOWN_BUILDING_ID
from terragraph_planner.common.data_io.kml_library import (
    extract_boundary_polygon,
    extract_polygons,
    extract_raw_data_from_kml_file,
)
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file

STREET, ROOF, UNK = LocationType.STREET_LEVEL, LocationType.ROOFTOP, LocationType.UNKNOWN


class Tmp:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="c08_")
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


HEAD = '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>doc</name>'


def put(d, body, ext="kml", name="t"):
    text = HEAD + body + "</Document></kml>"
    p = os.path.join(d, f"{name}.{ext}")
    if ext.lower() == "kmz":
        with zipfile.ZipFile(p, "w") as z:
            # the document may have any name and sit in a folder, beside other files
            k = len(body) % 4
            if k:
                z.writestr("images/kml.png", "x")
            z.writestr(("doc.kml", "DOC.KML", "files/My plan.Kml", "doc.kml")[k], text)
    else:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
    return p


def data(kv):
    return "<ExtendedData>" + "".join(f'<Data name="{sx.escape(k)}"><value>{sx.escape(v)}</value></Data>' for k, v in kv) + "</ExtendedData>"


def pm_site(name, kv, lon, lat, alt, mode):
    n = f"<name>{sx.escape(name)}</name>" if name is not None else ""
    m = f"<altitudeMode>{mode}</altitudeMode>" if mode else ""
    co = f"{lon},{lat}" + ("" if alt is None else f",{alt}")
    return f"<Placemark>{n}{data(kv)}<Point>{m}<coordinates>{co}</coordinates></Point></Placemark>"


def pm_link(kv, a, b):
    return f"<Placemark><name>l</name>{data(kv)}<LineString><altitudeMode>absolute</altitudeMode><coordinates>{a[0]},{a[1]},0 {b[0]},{b[1]},0</coordinates></LineString></Placemark>"


def folder(name, body):
    return f"<Folder><name>{name}</name>{body}</Folder>"


def sview(s):
    return (s.site_type, s.status_type, s.device_sku, s.name, s.latitude, s.longitude, s.altitude, s.height, s.location_type, s.building_id, s.number_of_subscribers)


# ------------------------------------------------------------ site placemarks
SKU_A = ["sku", "device_sku", "device sku", "Device SKU", "DEVICE_SKU"]
SUB_A = ["number_of_subscribers", "Number of Subscribers", "demand points", "num_demand_sites"]
LOC_A = ["location type", "Location Type", "LOCATION_TYPE"]
BLD_A = ["building id", "Building Id", "building_id"]


def placemark(item, c):
    """One folder with a sequence of placemarks; each keeps its own fields."""
    ext, pms = item
    body, want = "", []
    for i, (name, sku, sub, loc, bld, mode) in enumerate(pms):
        kv = []
        if sku:
            kv.append(sku)
        if sub:
            kv.append(sub)
        if loc:
            kv.append(loc)
        if bld:
            kv.append(bld)
        alt = 12.5 if mode != "none" else None
        body += pm_site(name, kv, 3 + i / 8, 48.5, alt, None if mode == "none" else mode)
        lt = loc[1].upper() if loc else None
        lt = LocationType[lt] if lt in LocationType.__members__ else STREET
        want.append((
            DN, CANDIDATE, sku[1] if sku and sku[1] else None, name or None, 48.5, 3 + i / 8,
            12.5 if mode == "absolute" else None, 12.5 if mode == "relativeToGround" else None, lt,
            int(bld[1]) if bld and bld[1].isdigit() and lt is ROOF else None,
            int(sub[1]) if sub and sub[1].isdigit() else None,
        ))
    with Tmp() as d:
        got = extract_raw_data_from_kml_file(put(d, folder("DN", body), ext))
    c.eq([sview(s) for s in got[0]], want, "kml-site-fields", str(pms))
    c.eq((got[1], got[2]), ([], []), "kml-site-only", str(pms))
    c.outcome(tuple(want))


def typed(item, c):
    """Fields of a typed schema, as GIS tools export them."""
    ty, fields = item
    vals = {"number_of_subscribers": "3", "building_id": "7", "device_sku": "S"}
    if ty != "string" and "device_sku" in fields:
        return
    sch = '<Schema name="sc" id="sc">' + "".join(f'<SimpleField name="{f}" type="{ty}"/>' for f in fields) + '<SimpleField name="location_type" type="string"/></Schema>'
    sd = '<ExtendedData><SchemaData schemaUrl="#sc">' + "".join(f'<SimpleData name="{f}">{vals[f]}</SimpleData>' for f in fields) + '<SimpleData name="location_type">ROOFTOP</SimpleData></SchemaData></ExtendedData>'
    pm = f"<Placemark><name>a</name>{sd}<Point><coordinates>3,48</coordinates></Point></Placemark>"
    with Tmp() as d:
        s = extract_raw_data_from_kml_file(put(d, sch + folder("CN", pm)))[0]
    c.eq(len(s), 1, "kml-typed-count", str(item))
    c.eq(
        (s[0].number_of_subscribers, s[0].building_id, s[0].device_sku),
        (3 if "number_of_subscribers" in fields else None, 7 if "building_id" in fields else None, "S" if "device_sku" in fields else None),
        "kml-typed-fields", str(item),
    )


# -------------------------------------------------------------------- folders
TYPES = [("DN", DN), ("dn sites", DN), ("My POPs", POP), ("Pop", POP), ("CN", CN), ("cn - east", CN)]
LTYPES = [("WIRELESS_BACKHAUL", LinkType.WIRELESS_BACKHAUL), ("wireless_access links", LinkType.WIRELESS_ACCESS), ("Ethernet", LinkType.ETHERNET)]
OTHER = ["Notes", "Demand Sites", "demand sites (2)"]


def nested(item, c):
    """Status folders holding type folders, preceded by type folders of no status."""
    spec = item
    body, ws, wl, wd = "", [], [], []
    n = 0
    for st, kids in spec:
        inner = ""
        for kind in kids:
            n += 1
            nm = f"s{n}"
            x = 3 + n / 64
            if kind in [t for t, _ in TYPES]:
                inner += folder(kind, pm_site(nm, [], x, 48.5, 1.0, "absolute"))
                ws.append((dict(TYPES)[kind], StatusType[st.upper()] if st else CANDIDATE, nm, x))
            elif kind in [t for t, _ in LTYPES]:
                inner += folder(kind, pm_link([("tx_site", nm), ("rx_site", nm + "r")], (x, 48.5), (x, 48.75)))
                wl.append((dict(LTYPES)[kind], StatusType[st.upper()] if st else CANDIDATE, nm, nm + "r", x))
            else:
                inner += folder(kind, pm_site(nm, [], x, 48.5, 1.0, "absolute"))
                if kind.lower().startswith("demand"):
                    wd.append((48.5, x))
        body += folder(st, inner) if st else inner
    with Tmp() as d:
        s, l, dm = extract_raw_data_from_kml_file(put(d, body))
    c.eq([(a.site_type, a.status_type, a.name, a.longitude) for a in s], ws, "kml-folder-sites", str(spec))
    c.eq([(a.link_type, a.status_type, a.tx_site_name, a.rx_site_name, a.tx_longitude) for a in l], wl, "kml-folder-links", str(spec))
    c.eq([(a.latitude, a.longitude) for a in dm], wd, "kml-folder-demand", str(spec))
    c.check(all(a.altitude is None for a in dm), "kml-demand-altitude")
    c.outcome(tuple(ws), tuple(wl), tuple(wd))


def sticky(item, c):
    """A type folder without status after a status folder is a CANDIDATE."""
    st, kind = item
    body = folder(st, folder("DN", pm_site("a", [], 3, 48, 1, "absolute"))) + folder(kind, pm_site("b", [], 3.5, 48, 1, "absolute"))
    with Tmp() as d:
        s = extract_raw_data_from_kml_file(put(d, body))[0]
    c.eq([(a.name, a.status_type) for a in s], [("a", StatusType[st.upper()]), ("b", CANDIDATE)], "kml-status-leaks", str(item))


def badfile(item, c):
    with Tmp() as d:
        p = os.path.join(d, item[0])
        if item[1] == "zip-without-kml":
            with zipfile.ZipFile(p, "w") as z:
                z.writestr("doc.txt", "x")
        elif item[1] is not None:
            with open(p, "w") as f:
                f.write(item[1])
        c.raises(lambda: extract_raw_data_from_kml_file(p), PlannerException, "kml-bad-file", str(item))
        c.raises(lambda: extract_polygons(p), PlannerException, "kml-bad-polygon-file", str(item))


# ---------------------------------------------------------------------- links
P = {"a": (3.0, 48.0, DN), "b": (3.002, 48.0, DN), "p": (3.0, 48.002, POP), "c": (3.002, 48.002, CN)}
M = 1 / 111195.0  # degrees of latitude per metre


def sites_kml(names, extra=""):
    by = {}
    for n in names:
        by.setdefault(P[n][2], []).append(n)
    return "".join(folder(t.name, "".join(pm_site(n, [], P[n][0], P[n][1], 5.0, "absolute") for n in ns)) for t, ns in by.items()) + extra


def named_links(item, c):
    """Links given by site names: both directions unless the transmitter is a client."""
    seq, ty, conf = item
    body = ""
    for a, b, _ in seq:
        kv = [("Tx Site Name".lower().replace(" ", "_"), a), ("RX_SITE_NAME", b)] + ([("Confidence Level", conf)] if conf is not None else [])
        pa, pb = P.get(a, P["a"]), P.get(b, P["b"])
        body += folder("EXISTING" if _ else "CANDIDATE", folder(ty, pm_link(kv, pa, pb)))
    with Tmp() as d:
        p = put(d, sites_kml("abpc") + body)
        f = lambda: extract_topology_from_file(p, [DN_DEV, CN_DEV], None)  # noqa
        want, bad = {}, False
        if ty != "ETHERNET":
            for a, b, ex in seq:
                if a not in P or b not in P or a == b:
                    bad = True
                    break
                st = EXISTING if ex else CANDIDATE
                # an existing link needs existing sites
                if ex:
                    bad = True
                    break
                for x, y in ((a, b), (b, a)):
                    if P[x][2] != CN:
                        if want.get((x, y), st) != st:
                            bad = True
                        want[(x, y)] = st
        if bad:
            c.raises(f, PlannerException, "kml-link-rejected", str(item))
            c.outcome("rejected")
            return
        t = f()
    got = {(l.tx_site.name, l.rx_site.name): l.status_type for l in t.links.values()}
    c.eq(got, want, "kml-links", str(item))
    c.eq(len(t.links), len(got), "kml-links-once", str(item))
    try:
        cf = float(conf)
    except (TypeError, ValueError):
        cf = None
    for l in t.links.values():
        c.check(l.is_wireless, "kml-link-wireless", str(item))
        c.eq(l.confidence_level, cf, "kml-link-confidence", str(item))
    c.eq(sorted(s.name for s in t.sites.values()), sorted(P), "kml-sites", str(item))
    c.outcome(tuple(sorted(got)))


def typed_links(item, c):
    """The link's own type, where it names one, goes before that of its folder; wired links of the file are not taken over."""
    ft, v, key = item
    kv = [("tx_site", "a"), ("rx_site", "b")] + ([(key, v)] if v is not None else [])
    with Tmp() as d:
        p = put(d, sites_kml("abpc") + folder(ft, pm_link(kv, P["a"], P["b"])))
        want = LinkType[v.upper()] if (v or "").upper() in LinkType.__members__ else LinkType[ft.upper()]
        c.eq([x.link_type for x in extract_raw_data_from_kml_file(p)[1]], [want], "kml-link-type", str(item))
        c.eq(len(extract_topology_from_file(p, [DN_DEV, CN_DEV], None).links), 0 if want == LinkType.ETHERNET else 2, "kml-link-type-used", str(item))
    c.outcome(want)


def inconsistent(item, c):
    """The same pair of sites listed under two statuses is an error."""
    st1, st2, fwd = item
    e = ("b", "a") if not fwd else ("a", "b")
    sites = folder("EXISTING", folder("DN", pm_site("a", [], 3, 48, 1, "absolute") + pm_site("b", [], 3.002, 48, 1, "absolute")))
    links = "".join(folder(st, folder("WIRELESS_BACKHAUL", pm_link([("tx_site", x), ("rx_site", y)], (3, 48), (3.002, 48)))) for st, (x, y) in ((st1, ("a", "b")), (st2, e)))
    with Tmp() as d:
        p = put(d, sites + links)
        f = lambda: extract_topology_from_file(p, [DN_DEV, CN_DEV], None)  # noqa
        if st1 != st2:
            c.raises(f, PlannerException, "kml-link-status-clash", str(item))
        else:
            t = f()
            c.eq(sorted((l.tx_site.name, l.rx_site.name, l.status_type.name) for l in t.links.values()), [("a", "b", st1), ("b", "a", st1)], "kml-link-status", str(item))


def unnamed_links(item, c):
    """Links without names attach to every co-located site within 10 m of their ends."""
    names, ends, devs = item
    devices = [DN_DEV, dn_device("DN2"), CN_DEV] if devs == 2 else [DN_DEV, CN_DEV]
    (a, dxa, dya), (b, dxb, dyb) = ends
    cos = math.cos(math.radians(48))
    ea = (P[a][0] + dxa * M / cos, P[a][1] + dya * M)
    eb = (P[b][0] + dxb * M / cos, P[b][1] + dyb * M)
    with Tmp() as d:
        p = put(d, sites_kml(names) + folder("wireless_backhaul", pm_link([], ea, eb)))
        f = lambda: extract_topology_from_file(p, devices, None)  # noqa
        da, db = math.hypot(dxa, dya), math.hypot(dxb, dyb)
        if da > 10 or db > 10 or a not in names or b not in names or a == b:
            c.raises(f, PlannerException, "kml-link-far", str(item))
            c.outcome("far")
            return
        t = f()

    def at(n):
        k = 1 if P[n][2] == CN else devs
        return [s for s in t.sites.values() if s.name == n or s.name.startswith(n + "_")][:k]

    want = sorted((x.name, y.name) for u, v in ((a, b), (b, a)) for x in at(u) for y in at(v) if x.site_type != CN)
    c.eq(sorted((l.tx_site.name, l.rx_site.name) for l in t.links.values()), want, "kml-link-near", str(item))
    c.outcome(tuple(want))


# ------------------------------------------------------------------- polygons
SQ = [(3, 48), (3.25, 48), (3.25, 48.25), (3, 48.25), (3, 48)]
TRI = [(4, 48), (4.25, 48), (4, 48.25), (4, 48)]
HOLE2 = [(3.2, 48.2), (3.22, 48.2), (3.2, 48.22), (3.2, 48.2)]
# starts in one UTM zone and lies mostly in the next
EAST = [(5.95, 48), (6.5, 48), (6.5, 48.25), (5.95, 48.25), (5.95, 48)]
HOLE = [(3.05, 48.05), (3.1, 48.05), (3.1, 48.1), (3.05, 48.05)]


def ring(r, inner=False):
    t = "innerBoundaryIs" if inner else "outerBoundaryIs"
    return f"<{t}><LinearRing><coordinates>" + " ".join(f"{x},{y},0" for x, y in r) + f"</coordinates></LinearRing></{t}>"


GEO = {
    "sq": ("<Polygon>" + ring(SQ) + "</Polygon>", [SQ]),
    "tri": ("<Polygon>" + ring(TRI) + "</Polygon>", [TRI]),
    "multi": ("<MultiGeometry><Polygon>" + ring(TRI) + "</Polygon></MultiGeometry>", [TRI]),
    "holed": ("<Polygon>" + ring(SQ) + ring(HOLE, True) + "</Polygon>", [SQ]),
    "multi-two": ("<MultiGeometry><Polygon>" + ring(TRI) + "</Polygon><Polygon>" + ring(SQ) + ring(HOLE, True) + "</Polygon></MultiGeometry>", [TRI, SQ]),
    "two-holes": ("<Polygon>" + ring(SQ) + ring(HOLE, True) + ring(HOLE2, True) + "</Polygon>", [SQ]),
    "east": ("<Polygon>" + ring(EAST) + "</Polygon>", [EAST]),
    "pt": ("<Point><coordinates>3,48,0</coordinates></Point>", []),
    "line": ("<LineString><coordinates>3,48,0 4,49,0</coordinates></LineString>", []),
}


def polygons(item, c):
    ext, geos, split = item
    pms = [f"<Placemark><name>z</name>{GEO[g][0]}</Placemark>" for g in geos]
    body = "".join(folder(f"f{i}", p) for i, p in enumerate(pms)) if split else folder("f", "".join(pms))
    want = [w for g in geos for w in GEO[g][1]]
    with Tmp() as d:
        p = put(d, body, ext)
        got = extract_polygons(p)
        holes = [h for g in geos for h in {"holed": [1], "two-holes": [2], "multi-two": [0, 1]}.get(g, [0] * len(GEO[g][1]))]
        c.eq([len(g.interiors) for g in got], holes, "polygon-holes", str(item))
        for g, h in zip(got, holes):
            if h:
                for k, hole in enumerate((HOLE, HOLE2)[:h]):
                    c.eq(sorted(set(g.interiors[k].coords)), sorted(set((float(x), float(y)) for x, y in hole)), "polygon-hole", str(item))
        c.eq([sorted(set(g.exterior.coords)) for g in got], [sorted(set((float(x), float(y)) for x, y in w)) for w in want], "polygons", str(item))
        if len(want) == 1:
            g, epsg = extract_boundary_polygon(p)
            c.eq(sorted(set(g.exterior.coords)), sorted(set((float(x), float(y)) for x, y in want[0])), "boundary", str(item))
            c.eq(epsg, 32632 if want[0] is EAST else 32631, "boundary-epsg", str(item))
        else:
            c.raises(lambda: extract_boundary_polygon(p), PlannerException, "boundary-count", str(item))
    c.outcome(len(want))


# ----------------------------------------------------------------- round trip
NAMES = ["a", "b & <c>", 'q "x"', "é–ü"]
DEV2 = dn_device("DN & 2")


def tview(t, sites_only=False):
    s = sorted(
        (s.name, s.site_type.name, s.status_type.name, s.latitude, s.longitude, s.altitude, s.location_type.name,
         s.building_id, s.device.device_sku, s.number_of_subscribers, s.site_hash)
        for s in t.sites.values()
    )
    l = sorted((l.tx_site.name, l.rx_site.name, l.status_type.name, l.link_type.name, None if l.confidence_level is None else round(l.confidence_level, 1)) for l in t.links.values() if l.is_wireless)
    d = sorted((x.latitude, x.longitude) for x in t.demand_sites.values())
    return s, l, d


def roundtrip(item, c):
    specs, edges, ndem, tname = item
    t = Topology()
    t.name = tname
    ss = []
    for i, (typ, st, loc, alt, dev) in enumerate(specs):
        s = site(typ, x=150.0 * i, y=40.0 * i, alt=alt, status=st, name=NAMES[i], loc=loc,
                 building=(100 + i if dev == 0 else UNKNOWN_BUILDING_ID) if loc == ROOF else None,
                 device=CN_DEV if typ == CN else (DEV2 if dev else DN_DEV), subs=3 if typ == CN and dev else None)
        t.add_site(s)
        ss.append(s)
    for i, j, wl, st, conf in edges:
        if ss[i].site_type == CN:
            continue
        try:
            l = Link(tx_site=ss[i], rx_site=ss[j], status_type=st, is_wireless=wl, confidence_level=conf)
        except PlannerException:
            continue
        t.add_link(l)
    for k in range(ndem):
        t.add_demand_site(DemandSite(location=utm(33.0 + k, 77.0 * k), demand=1.0 + k))
    want = tview(t)
    with Tmp() as d:
        p = os.path.join(d, "t.kml")
        write_to_kml_file(t, p)
        u = extract_topology_from_file(p, [DN_DEV, DEV2, CN_DEV], None)
        got = tview(u)
        for k, (g, w) in enumerate(zip(got, want)):
            c.eq(g, w, f"roundtrip-{('sites', 'links', 'demand')[k]}", str(item))
        # a second trip is the identity on the file
        for x in u.demand_sites.values():
            x.demand = 1.0
        q = os.path.join(d, "u.kml")
        write_to_kml_file(u, q)
        v = extract_topology_from_file(q, [DN_DEV, DEV2, CN_DEV], None)
        c.eq(tview(v), got, "roundtrip-twice", str(item))
    c.outcome(want)


KNS = "{http://www.opengis.net/kml/2.2}"


def drawn(path):
    """Placemarks of a KML file with the names of the folders around them, and the style ids."""
    out, styles = [], set()

    def go(e, path):
        for x in e:
            tag = x.tag.replace(KNS, "")
            if tag == "Folder":
                go(x, path + (x.findtext(KNS + "name"),))
            elif tag == "Placemark":
                d = [(v.get("name"), v.findtext(KNS + "value")) for v in x.iter(KNS + "Data")] + [(v.get("name"), v.text) for v in x.iter(KNS + "SimpleData")]
                kind = next(k for k in ("Point", "LineString") if x.find(KNS + k) is not None)
                co = [tuple(None if n == "None" else float(n) for n in q.split(",")) for q in x.find(KNS + kind).findtext(KNS + "coordinates").split()]
                out.append((path, kind, x.findtext(KNS + "name"), dict(d), co, x.findtext(KNS + "styleUrl"), len(d)))
            elif tag == "Document":
                go(x, path)
            elif tag == "Style":
                styles.add("#" + x.get("id"))

    go(ET.parse(path).getroot(), ())
    return out, styles


def shown(c, got, want, digits, key, text):
    """A written value: numbers to the stated digits, anything else literally."""
    if isinstance(want, float) and not isinstance(want, bool):
        try:
            ok = float(got) == want or abs(float(got) - want) <= 0.5 * 10**-digits + 1e-9
        except (TypeError, ValueError):
            ok = False
        c.check(ok, key, f"{text} got={got} want={want}")
    else:
        c.eq(got, "N/A" if want is None else str(want), key, text)


def written(item, c):
    """What the written file shows of every component."""
    sts, lk, util, dem = item
    act = (EXISTING, PROPOSED)
    t = Topology()
    t.name = "w"
    S = [site(ty, x=120.0 * i, y=70.0 * (i % 2) + i, alt=4.0 + 3.3 * i, status=st, name=nm, loc=loc, building=(7 * i if loc == ROOF else None), subs=2 if ty == CN else None)
         for i, (ty, st, nm, loc) in enumerate(zip((POP, DN, DN, CN), sts, ("p <&> 'q\"", "d", "", "c"), (ROOF, STREET, UNK, ROOF)))]
    for k, x in enumerate(S):
        x.polarity = (PolarityType.ODD, PolarityType.EVEN, PolarityType.UNASSIGNED)[(k + lk) % 3]
        t.add_site(x)
    sec = {}
    for k, x in enumerate(S):
        sec[k] = Sector(site=x, node_id=0, position_in_node=0, ant_azimuth=35.25 + 80 * k, status_type=x.status_type)
        sec[k].channel = (lk % 4) - 1
        t.add_sector(sec[k])
    for m, (i, j, wl) in enumerate(((0, 1, True), (1, 0, True), (1, 2, True), (2, 1, True), (1, 3, True), (0, 2, False), (2, 0, False))):
        a, b = S[i], S[j]
        both = {a.status_type, b.status_type}
        st = next((z for z in (UNAVAILABLE, UNREACHABLE, CANDIDATE) if z in both), EXISTING if both == {EXISTING} and lk % 2 else PROPOSED)
        if st in act and (lk // 2) % 3 == {(0, 1): 1, (1, 2): 2}.get((min(i, j), max(i, j)), 9):
            st = CANDIDATE
        l = Link(tx_site=a, rx_site=b, is_wireless=wl, status_type=st, confidence_level=(None, 0.25, 1.0)[(m + lk) % 3])
        if wl and (st in act or lk % 3):
            l.tx_sector, l.rx_sector = sec[i], sec[j]
        l.capacity, l.mcs_level, l.rsl_dbm, l.snr_dbm, l.tx_power, l.sinr_dbm = (1.8 - 0.123 * m, 12 - m, -50.26 - m, 20.04 + m, 11.5 - m, 18.77 - 2 * m) if m != lk % 7 else (0.0, 0, -math.inf, -math.inf, -math.inf, -math.inf)
        if st in act:
            l.utilization = util[m % 2] if (m // 2) % 2 == (lk // 2) % 2 else 12.34
            l.proposed_flow = l.utilization / 100 * l.capacity
        t.add_link(l)
    for k, (v, conn) in enumerate(zip(dem, ((1,), (3, 0), (2, 1, 3)))):
        t.add_demand_site(DemandSite(location=utm(33.0 + 50 * k, 77.0 - 20 * k), demand=v, connected_sites=[S[z] for z in conn]))
    with Tmp() as d:
        p = os.path.join(d, "t.kml")
        write_to_kml_file(t, p)
        marks, styles = drawn(p)
        again = extract_raw_data_from_kml_file(p)
        c.eq([len(x) for x in again], [len(t.sites), len(t.links), len(t.demand_sites)], "written-reread-counts", str(item))
    marks_of = {}
    for m in marks:
        marks_of.setdefault((m[1], m[0][0] if m[0][0] != "Demand" else m[0]), []).append(m)
        if not (m[1] == "LineString" and m[3].get("Status") not in ("EXISTING", "PROPOSED")):
            c.check(m[5] in styles, "written-style-defined", f"{item} {m[5]}")
    for x in S:
        st, ty = x.status_type.name, x.site_type.name
        mine = [m for m in marks_of.get(("Point", st), ()) if m[4] == [(x.longitude, x.latitude, x.altitude)]]
        if not c.eq(len(mine), 1, "written-site", f"{item} {x.name}"):
            continue
        f, _, name, kv, _, style, n = mine[0]
        c.eq((f, name, style, n), ((st, ty + " Sites"), x.name, f"#{ty}_{st}", len(kv)), "written-site-frame", str(item))
        for k, w in {"Site Type": ty, "Status": st, "Altitude": x.altitude, "Polarity": x.polarity.name, "Location Type": x.location_type.name, "Building Id": x.building_id, "Device SKU": x.device.device_sku,
                     "Number of Subscribers": x.number_of_subscribers, "Site Geohash": x.site_hash}.items():
            shown(c, kv.get(k), w, 1, "written-site-value", f"{item} {x.name} {k}")
    for l in t.links.values():
        st, ty = l.status_type.name, l.link_type.name
        ends = [(z.longitude, z.latitude, z.altitude) for z in (l.tx_site, l.rx_site)]
        mine = [m for m in marks_of.get(("LineString", st), ()) if m[4] == ends]
        text = f"{item} {l.tx_site.name}->{l.rx_site.name}"
        if not c.eq(len(mine), 1, "written-link", text):
            continue
        f, _, name, kv, _, style, n = mine[0]
        rev = t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)
        high = l.is_wireless and max(l.utilization, rev.utilization if rev else 0) > 80
        c.eq((f, name, style, n), ((st, ty + " Links"), l.link_hash, f"#backhaul_link_{st}" + ("_high_util" if high else ""), len(kv)), "written-link-frame", text)
        chan = l.tx_sector.channel if l.status_type in act and l.tx_sector else -1
        want = {"Link Type": (ty, 0), "Tx Site Name": (l.tx_site.name, 0), "Rx Site Name": (l.rx_site.name, 0), "Status": (st, 0), "Distance": (l.distance, 1), "Data Flow (Gbps)": (float(l.proposed_flow), 2),
                "Throughput (Gbps)": (float(l.capacity), 2), "Utilization": (float(l.utilization), 1), "Confidence Level": (l.confidence_level, 1), "Channel": (chan if chan >= 0 else "UNASSIGNED", 0)}
        if l.is_wireless:
            want.update({"Tx Beam Azimuth": (l.tx_beam_azimuth, 1), "Rx Beam Azimuth": (l.rx_beam_azimuth, 1), "Deviation from Tx Boresight": (l.tx_dev, 1), "Deviation from Rx Boresight": (l.rx_dev, 1),
                         "Deviation from El Boresight": (l.el_dev, 1), "Tx Power (dBm)": (l.tx_power, 1), "Estimated MCS": (l.mcs_level, 0), "Estimated SNR (dB)": (l.snr_dbm, 1), "Estimated SINR (dB)": (l.sinr_dbm, 1),
                         "Estimated RSL": (l.rsl_dbm, 1)})
        c.eq(set(kv), set(want), "written-link-fields", text)
        for k, (w, dg) in want.items():
            shown(c, kv.get(k) or "", w, dg, "written-link-value", f"{text} {k}")
    pts = marks_of.get(("Point", ("Demand", "Demand Sites")), [])
    lines = marks_of.get(("LineString", ("Demand", "Demand Connections")), [])
    c.eq(sorted((m[4][0][:2], float(m[3]["site_demand"])) for m in pts), sorted(((x.longitude, x.latitude), x.demand) for x in t.demand_sites.values()), "written-demand", str(item))
    for m in pts:
        v = float(m[3]["site_demand"])
        c.eq(m[5], f"#demand_site_{min(2, int(v / max(dem) * 3)) if len(set(dem)) > 1 else 0}", "written-demand-style", f"{item} {v}")
    c.eq(sorted(tuple(z[:2] for z in m[4]) for m in lines),
         sorted(((x.longitude, x.latitude), (z.longitude, z.latitude)) for x in t.demand_sites.values() for z in x.connected_sites if z.status_type in act), "written-demand-links", str(item))
    c.eq(len(marks), len(t.sites) + len(t.links) + len(t.demand_sites) + len(lines), "written-count", str(item))
    c.outcome(tuple(sorted(m[5] for m in marks)))
    c.state(item)


def main(r):
    N = [None]
    sku = N + [(a, "S1") for a in SKU_A] + [("sku", "")]
    sub = N + [(a, "2") for a in SUB_A] + [("number_of_subscribers", "N/A"), ("number_of_subscribers", "-1")]
    loc = N + [(a, v) for a in LOC_A for v in ("ROOFTOP", "Street_Level")] + [("location type", "unknown"), ("location type", "cellar")]
    bld = N + [(a, "31") for a in BLD_A] + [("Building Id", "N/A")]
    modes = ["absolute", "relativeToGround", "clampToGround", "none"]
    one = [(n, s, "", "", "", "absolute") for n in ("x", None) for s in sku]
    one = [(n, s, u, l, b, m) for n in ("x", None) for s in sku[:3] + sku[-1:] for u in sub for l in loc for b in (bld if l and "ROOF" in l[1] else bld[:2]) for m in modes]
    if r.quick:
        one = [o for i, o in enumerate(one) if i % 3 == 0] + [("x", s, None, None, None, m) for s in sku for m in modes]
    items = [("kml", (o,)) for o in one]
    small = [
        ("x", None, None, None, None, "absolute"),
        ("y", ("sku", "S1"), None, None, None, "relativeToGround"),
        (None, ("device_sku", "S2"), ("demand points", "4"), None, None, "clampToGround"),
        ("z", None, ("number_of_subscribers", "2"), ("location type", "rooftop"), ("building id", "8"), "none"),
        ("w", ("Device SKU", "S3"), None, ("Location_Type", "unknown"), None, "absolute"),
    ]
    seqs = [q for n in (1, 2, 3) for q in itertools.product(small, repeat=n)]
    items += [("kml", q) for q in seqs] + [("kmz", q) for q in seqs[:30]] + [("KML", seqs[3]), ("KMZ", seqs[3])]
    r.map(placemark, items)
    r.map(typed, [(t, f) for t in ("int", "string", "uint", "short") for n in (1, 2, 3) for f in itertools.combinations(("number_of_subscribers", "building_id", "device_sku"), n)])

    kinds = [t for t, _ in TYPES] + [t for t, _ in LTYPES] + OTHER
    sts = ["CANDIDATE", "existing", "Proposed", "UNAVAILABLE", "Unreachable sites"]
    stn = ["CANDIDATE", "existing", "Proposed", "UNAVAILABLE"]
    specs = [((None, (k,)),) for k in kinds]
    specs += [((s, ks),) for s in stn for n in (1, 2) for ks in itertools.permutations(kinds, n)]
    specs += [((None, (k,)), (s, (k2,))) for k in kinds for s in stn for k2 in kinds]
    sm = kinds[::2]
    specs += [((a, (k,)), (b, (k2,))) for a in stn for b in stn for k in sm for k2 in sm]
    if not r.quick:
        specs += [((a, (k,)), (b, (k2, k3)), (e, (k,))) for a in stn for b in stn for e in stn for k in sm for k2 in sm for k3 in sm]
    r.map(nested, specs)
    r.map(sticky, [(s, t) for s in ("EXISTING", "PROPOSED", "UNAVAILABLE") for t, _ in TYPES])
    r.map(badfile, [("a.txt", "x"), ("a.kml", None), ("a.kml", "not xml"), ("a.kmz", "zip-without-kml"), ("a.kmz", None)])

    pairs = [(a, b) for a in "abpc" for b in "abpc" if a != b] + [("a", "zz"), ("a", "a"), ("c", "c")]
    seqs = [((a, b, False),) for a, b in pairs] + [((a, b, False), (e, f, False)) for a, b in pairs for e, f in pairs]
    seqs += [((a, b, True),) for a, b in pairs[:4]]
    items = [(s, ty, None) for s in seqs for ty in ("WIRELESS_BACKHAUL", "ETHERNET")]
    items += [(s, "WIRELESS_ACCESS", cf) for s in seqs[:13] for cf in ("0.75", "1", "1.0", "0", "N/A", "")]
    r.map(named_links, items)
    r.map(typed_links, [(f, v, k) for f in ("WIRELESS_BACKHAUL", "wireless_access", "Ethernet") for v in (None, "WIRELESS_BACKHAUL", "Wireless_Access", "ethernet", "ETHERNET", "cable", "") for k in ("link_type", "Link Type")])
    r.map(inconsistent, [(a, b, f) for a in ("EXISTING", "CANDIDATE", "PROPOSED", "UNAVAILABLE") for b in ("EXISTING", "CANDIDATE", "PROPOSED", "UNAVAILABLE") for f in (0, 1)])
    offs = [(0, 0), (9, 0), (0, -9), (-6, 7), (11, 0), (0, 12), (8, 8), (-300, 0)] if r.quick else [(x, y) for x in (-11, -9, -6, 0, 6, 9, 11) for y in (-11, -9, -6, 0, 6, 9, 11) if abs(math.hypot(x, y) - 10) > 0.5]
    r.map(unnamed_links, [
        (names, ((a, *o1), (b, *o2)), dv)
        for names in ("abpc", "abp") for a, b in (("a", "b"), ("p", "c"), ("c", "a"), ("b", "p"), ("a", "a"), ("c", "c")) for o1 in offs for o2 in offs[:5] for dv in (1, 2)
    ])
    gs = list(GEO)
    r.map(polygons, [(e, s, sp) for n in range(1, 4) for s in itertools.product(gs, repeat=n) for sp in (0, 1) for e in ("kml", "kmz")])

    # round trips
    types = [CN, DN, POP]
    sst = [CANDIDATE, EXISTING, PROPOSED, UNAVAILABLE, UNREACHABLE]
    locs = [STREET, ROOF, UNK]
    alts = [None, 0.0, 12.25]
    v = [(t, s, l, a, dv) for t in types for s in sst for l in locs for a in alts for dv in (0, 1)]
    items = [((x,), (), 0, "T") for x in v]
    base = (DN, EXISTING, STREET, 12.25, 0)
    two = [(t, s, l, a, dv) for t in types for s in sst for l in (STREET, ROOF) for a in (12.25, -3.5) for dv in (0, 1)]
    for x in two:
        for wl in (True, False):
            for st in sst:
                items.append(((base, x), ((0, 1, wl, st, 0.5), (1, 0, wl, st, 0.5)), 0, None))
    items += [((base, (DN, EXISTING, STREET, 12.25, 0), (CN, CANDIDATE, ROOF, 3.0, 1)), e, n, nm)
              for n in (0, 1, 3) for nm in ("T & <x>", None)
              for e in [((0, 1, True, s, cf), (1, 0, True, s, cf), (0, 2, True, CANDIDATE, 1.0), (1, 2, True, UNREACHABLE, 0.0)) for s in sst for cf in (None, 0.125, 1)]]
    # every pair of link presence among three sites, one way or both
    el = [(0, 1), (1, 0), (0, 2), (1, 2)]
    for sub_ in itertools.product((0, 1), repeat=4):
        e = tuple((i, j, True, CANDIDATE, 0.25) for (i, j), k in zip(el, sub_) if k)
        if ((0, 1) in [x[:2] for x in e]) == ((1, 0) in [x[:2] for x in e]):
            items.append(((base, (POP, CANDIDATE, ROOF, 1.0, 1), (CN, PROPOSED, STREET, 2.0, 1)), e, 1, "n"))
    r.map(roundtrip, items)
    # what is written of a plan
    ws = [(a, *x) for a in (EXISTING, PROPOSED, CANDIDATE) for x in itertools.product((EXISTING, PROPOSED, CANDIDATE, UNAVAILABLE, UNREACHABLE), repeat=3)]
    utils = [(0.0, 0.0), (80.0, 0.0), (80.04, 0.0), (0.0, 99.9), (100.0, 55.55)]
    dems = [(1.0, 1.0, 1.0), (0.5, 1.5, 3.0), (2.0, 2.3, 2.04), (0.025, 0.025, 0.05)]
    items = [(w, k % 12, utils[(k // 5) % 5], dems[(k // 3) % 4]) for k, w in enumerate(ws * (3 if r.quick else 40))]
    r.map(written, items)

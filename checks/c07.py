"""C07: CSV input files and the expansion of input sites.

Every file of a bounded grammar is written to a scratch directory, read through
the public loaders and compared with a reference reading of the documentation;
every sequence of up to three input rows (four in thorough) over a colliding
alphabet decides de-duplication, device expansion and naming.
"""
import itertools
import os
import tempfile
import zipfile

from shapely.geometry import Polygon
from tg import *  # noqa
from terragraph_planner.common.data_io.csv_library import (
    dms_to_decimal,
    load_input_sites_from_csv_file,
    load_topology_link_csv,
)
from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.geos import GeoLocation
from terragraph_planner.common.structs import RawSite

ALIAS = {
    "lat": ["base_lat", "latitude", "lat"],
    "lon": ["base_lon", "longitude", "lon"],
    "alt": ["altitude", "alt"],
    "height": ["height", "install_height", "site_height", "height_m", "height(m)", "height (m)"],
    "name": ["name", "site_name", "site name", "pole_name"],
    "type": ["type", "site_type", "site type"],
    "sku": ["sku", "device_sku", "device sku"],
    "subs": [
        "number_of_demand_points", "number of demand points", "num_demand_points",
        "number_of_subscribers", "number of subscribers", "number of demand sites",
        "num_demand_sites", "demand_points", "demand points", "demand_sites", "demand sites",
    ],
    "loc": ["location type", "location_type"],
}
FIELDS = ["lat", "lon", "alt", "height", "name", "type", "sku", "subs", "loc"]
SPELL = [lambda s: s, str.upper, str.title, lambda s: f" {s}  "]


class Tmp:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="c07_")
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


def put(d, name, text, enc="utf-8"):
    p = os.path.join(d, name)
    with open(p, "w", encoding=enc, newline="") as f:
        f.write(text)
    return p


def num(x):
    return None if x in (None, "") else float(x)


def view(s):
    """RawSite -> plain tuple."""
    return (
        s.site_type, s.status_type, s.device_sku or None, s.name or None, float(s.latitude),
        float(s.longitude), num(s.altitude), num(s.height), s.location_type,
        s.building_id, None if s.number_of_subscribers is None else int(s.number_of_subscribers),
    )


def expect(row):
    loc = row.get("loc", "").strip().upper()
    t = row.get("type", "POP").strip().upper().split(" ")[0]
    return (
        {"CN": CN, "DN": DN, "POP": POP}[t], CANDIDATE, row.get("sku", "").strip() or None,
        row.get("name", "").strip() or None, float(row["lat"]), float(row["lon"]),
        num(row.get("alt", "").strip()), num(row.get("height", "").strip()),
        LocationType[loc] if loc in LocationType.__members__ else LocationType.UNKNOWN,
        None, int(row["subs"]) if row.get("subs") else None,
    )


FULL = dict(lat="48.125", lon="3.5", alt="12.5", height="4", name="n1", type="DN", sku="S", subs="3", loc="street_level")


def alias(item, c):
    f, a, sp, cols = item
    row = {k: FULL[k] for k in cols}
    head = [SPELL[sp](a) if k == f else k2(k) for k in cols]
    with Tmp() as d:
        p = put(d, "s.csv", ",".join(head) + "\n" + ",".join(row[k] for k in cols) + "\n")
        for user in (True, False):
            if not user and not {"name", "type"} <= set(cols):
                c.raises(lambda: load_input_sites_from_csv_file(p, user), PlannerException, "site-csv-required", str(head))
                continue
            got = [view(s) for s in load_input_sites_from_csv_file(p, user)]
            c.eq(got, [expect(row)], f"site-csv-alias:{f}:{a}", str(head))
        c.outcome(tuple(sorted(cols)))


def k2(k):
    return {"loc": "location_type", "subs": "number_of_subscribers"}.get(k, k)


def twice(item, c):
    """Two columns for one attribute are ambiguous; a missing one is an error."""
    f, a, b = item
    cols = ["lat", "lon", "name", "type"]
    head = [k for k in cols if k != f] + [a, b]
    vals = [FULL[k] for k in cols if k != f] + [FULL[f], FULL[f]]
    with Tmp() as d:
        p = put(d, "s.csv", ",".join(head) + "\n" + ",".join(vals) + "\n")
        c.raises(lambda: load_input_sites_from_csv_file(p, True), PlannerException, f"site-csv-twice:{f}", str(head))


def required(item, c):
    cols = item
    with Tmp() as d:
        p = put(d, "s.csv", ",".join([k2(k) for k in cols] + ["other"]) + "\n" + ",".join([FULL[k] for k in cols] + ["z"]) + "\n")
        for user, need in ((True, {"lat", "lon"}), (False, {"lat", "lon", "name", "type"})):
            f = lambda: load_input_sites_from_csv_file(p, user)  # noqa
            if need <= set(cols):
                c.eq([view(s) for s in f()], [expect({k: FULL[k] for k in cols})], "site-csv-columns", str(cols))
            else:
                c.raises(f, PlannerException, "site-csv-missing", f"{cols} user={user}")
        c.raises(lambda: load_input_sites_from_csv_file(os.path.join(d, "no.csv"), True), PlannerException, "site-csv-absent")


ROWS = [
    dict(lat="48.5", lon="3.25", alt="10.5", height="", name="a", type="POP", sku="", subs="", loc=""),
    dict(lat="-33.25", lon="-70.5", alt="", height="6", name=" b ", type="dn sites", sku="D1", subs="", loc="Street_Level"),
    dict(lat="0", lon="179.5", alt="", height="", name="c", type="cn", sku=" c1 ", subs="4", loc="unknown"),
    dict(lat="1", lon="2", alt="3", height="2.5", name="", type="DN", sku="", subs="1", loc="nowhere"),
]


def rows(item, c):
    cols, seq, enc = item
    with Tmp() as d:
        text = ",".join(k2(k) for k in cols) + "\n"
        for i in seq:
            text += ",".join(ROWS[i][k] for k in cols) + "\n"
        p = put(d, "s.csv", text, enc)
        want = [expect({k: ROWS[i][k] for k in cols}) for i in seq]
        got = [view(s) for s in load_input_sites_from_csv_file(p, True)]
        c.eq(got, want, "site-csv-rows", text)
        c.outcome(want)


def bad_values(item, c):
    col, v = item
    row = dict(FULL)
    row[col] = v
    with Tmp() as d:
        p = put(d, "s.csv", ",".join(k2(k) for k in FIELDS) + "\n" + ",".join(f'"{row[k]}"' for k in FIELDS) + "\n")
        c.raises(lambda: load_input_sites_from_csv_file(p, True), PlannerException, f"site-csv-bad:{col}", v)


CELLS = ["", " ", "3", "3.0", " 4 ", "2.5", "-1", "007", "1e2", "nan", "inf", "-inf", "1e400", "abc", "3 m", "1,5"]


def cell_value(col, text):
    """The number a cell stands for, None for a blank one, or an error."""
    if not text.strip():
        return None
    try:
        v = float(text)
    except ValueError:
        raise PlannerException("not a number")
    if v != v or v in (float("inf"), float("-inf")):
        raise PlannerException("not finite")
    if col == "subs" and (v < 0 or v != int(v)):
        raise PlannerException("not a count")
    return v


def cells(item, c):
    """What a cell means does not depend on the other rows of its column."""
    col, texts = item
    with Tmp() as d:
        head = f"name,lat,lon,{k2(col)}\n"
        p = put(d, "s.csv", head + "".join(f'n{i},48.1,3.2,"{t}"\n' for i, t in enumerate(texts)))
        try:
            want = [cell_value(col, t) for t in texts]
        except PlannerException:
            c.raises(lambda: load_input_sites_from_csv_file(p, True), PlannerException, f"site-csv-malformed-cell:{col}", texts)
            c.outcome("rejected")
            return
        at = {"alt": "altitude", "height": "height", "subs": "number_of_subscribers"}[col]
        got = [getattr(s, at) for s in load_input_sites_from_csv_file(p, True)]
        c.eq(got, want, f"site-csv-cell:{col}", texts)
        c.outcome((col, tuple(want)))


def labels(item, c):
    """Names, SKUs and building ids that look like numbers stay what they are; a building id counts only for a roof."""
    cols, seq = item
    with Tmp() as d:
        heads = {"name": "name", "lat": "lat", "lon": "lon", "sku": "device_sku", "loc": "location_type", "bld": "building_id"}
        rows = [{"name": n, "sku": k, "loc": l, "bld": b, "lat": "48", "lon": "3"} for n, k, l, b in seq]
        text = ",".join(heads[x] for x in cols) + "\n" + "".join(",".join(w[x] for x in cols) + "\n" for w in rows)
        p = put(d, "s.csv", text)
        got = [(s.name or None, s.device_sku or None, s.location_type.name, s.building_id) for s in load_input_sites_from_csv_file(p, True)]
    want = []
    for w in rows:
        w = {k: v if k in cols else "" for k, v in w.items()}
        loc = w["loc"].upper() or "UNKNOWN"
        want.append((w["name"] or None, w["sku"] or None, loc, int(w["bld"]) if loc == "ROOFTOP" and w["bld"] else None))
    c.eq(got, want, "site-csv-labels", text)
    c.outcome(tuple(want))


def bad_pairs(item, c):
    """A pair that is not exactly '<tx> --> <rx>' is an error, wherever it stands."""
    with Tmp() as d:
        p = put(d, "links.csv", "site_pair\n" + "".join(x + "\n" for x in item))
        if all(x.count("-->") == 1 for x in item):
            c.eq(load_topology_link_csv(p), [tuple(y.strip() for y in x.split("-->")) for x in item], "link-csv:pair", item)
        else:
            c.raises(lambda: load_topology_link_csv(p), PlannerException, "link-csv-bad-pair", item)


def dms(item, c):
    deg, mi, se, dr, fmt = item
    sign = 1 if dr in "NE" else -1
    if fmt == "dec":
        txt, want = f"{deg + mi / 60}° {dr}", sign * (deg + mi / 60)
    elif fmt == "dms":
        txt, want = f"{deg}°{mi}'{se}\"{dr}", sign * (deg + mi / 60 + se / 3600)
    else:
        txt, want = f" {deg} {mi} {se} {dr} ", sign * (deg + mi / 60 + se / 3600)
    c.close(dms_to_decimal(txt), want, f"dms:{fmt}", txt, tol=1e-12)
    for bad in (f"{deg}°", f"{deg}°{mi}'{dr}", f"x°{dr}", f"{deg} X", f"{deg}°{mi}'{se}\"", ""):
        c.raises(lambda: dms_to_decimal(bad), PlannerException, "dms-bad", bad)
    if fmt == "dms":
        with Tmp() as d:
            lat = f"{deg % 90}°{mi}'{se}\"\"N"
            p = put(d, "s.csv", f'lat,lon\n"{lat}","{txt.replace(chr(34), chr(34) * 2)}"\n')
            if dr in "EW":
                s = load_input_sites_from_csv_file(p, True)[0]
                c.close((float(s.latitude), float(s.longitude)), (deg % 90 + mi / 60 + se / 3600, want), "dms-csv", txt, tol=1e-12)


# --------------------------------------------------------------------- links
NAMES = {"a": DN, "B x": POP, "cC": CN, "D": DN}
TXA = ["tx_site", "tx_site_name", "tx_site_id", "from_site", "from_site_name", "from_site_id"]
RXA = ["rx_site", "rx_site_name", "rx_site_id", "to_site", "to_site_name", "to_site_id"]
S1A = ["site1", "site1_id", "site1_name"]
S2A = ["site2", "site2_id", "site2_name"]
PA = ["site_pair", "sites"]


def links(item, c):
    fmt, h1, h2, seq = item
    with Tmp() as d:
        if fmt == "pair":
            text = h1 + "\n" + "".join(f"{a} --> {b}\n" for a, b in seq)
        else:
            text = f"{h1},{h2}\n" + "".join(f"{a}, {b} \n" for a, b in seq)
        p = put(d, "links.csv", text)
        want, ok = [], True
        for a, b in seq:
            a, b = a.strip(), b.strip()
            for l in ([(a, b)] if fmt != "12" else [(a, b), (b, a)]):
                ok = ok and l not in want
                want.append(l)
        if not ok:
            c.raises(lambda: load_topology_link_csv(p), PlannerException, "link-csv-duplicate", text)
            return
        c.eq(load_topology_link_csv(p), want, f"link-csv:{fmt}", text)
        # through the zipped candidate topology
        put(d, "sites.csv", "name,type,lat,lon\n" + "".join(f"{n},{t.name},48,{3 + i / 1000}\n" for i, (n, t) in enumerate(NAMES.items())))
        z = os.path.join(d, "t.zip")
        with zipfile.ZipFile(z, "w") as zf:
            zf.write(p, "links.csv")
            zf.write(os.path.join(d, "sites.csv"), "sites.csv")
        f = lambda: extract_topology_from_file(z, [DN_DEV, CN_DEV], None)  # noqa
        if any(n not in NAMES for l in want for n in l) or any(a == b for a, b in want):
            c.raises(f, PlannerException, "link-csv-bad-site", text)
            return
        t = f()
        c.eq(sorted(s.name for s in t.sites.values()), sorted(NAMES), "zip-sites", text)
        got = sorted((l.tx_site.name, l.rx_site.name) for l in t.links.values())
        exp = sorted({x for a, b in want for x in ((a, b), (b, a)) if NAMES[x[0]] != CN})
        c.eq(got, exp, "zip-links", text)
        for l in t.links.values():
            c.eq(l.status_type, CANDIDATE, "zip-link-status")
            c.check(l.is_wireless, "zip-link-wireless")
        c.outcome(tuple(exp))


def link_cols(item, c):
    with Tmp() as d:
        p = put(d, "links.csv", ",".join(item) + "\n" + ",".join("abcdef"[i] for i in range(len(item))) + "\n")
        cols = [x.strip().lower() for x in item]
        n = [sum(x in g for x in cols) for g in (TXA, RXA, S1A, S2A, PA)]
        good = max(n) <= 1 and (n[4] or (n[0] and n[1]) or (n[2] and n[3]))
        if good and not n[4]:
            load_topology_link_csv(p)
            c.step()
        elif not good:
            c.raises(lambda: load_topology_link_csv(p), PlannerException, "link-csv-columns", str(item))


def zips(item, c):
    with Tmp() as d:
        z = os.path.join(d, "t.zip")
        with zipfile.ZipFile(z, "w") as zf:
            for n in item:
                zf.writestr(n, "name,type,lat,lon\na,DN,48,3\n" if n.endswith("sites.csv") else "site_pair\n")
        if set(item) >= {"sites.csv", "links.csv"}:
            t = extract_topology_from_file(z, [DN_DEV, CN_DEV], None)
            c.eq((len(t.sites), len(t.links)), (1, 0), "zip", str(item))
        else:
            c.raises(lambda: extract_topology_from_file(z, [DN_DEV, CN_DEV], None), PlannerException, "zip-missing", str(item))


# ------------------------------------------------------------------ expansion
UNKNOWN_BUILDING_ID = -1
DEVS = [dn_device("D1"), dn_device("d2"), cn_device("C1")]
SKU = {"d1": DEVS[0], "d2": DEVS[1], "c1": DEVS[2]}


def model_expand(seq):
    """-> list of (type, lon, sku, final name or None when unnamed) or None when rejected."""
    out, seen, groups = [], set(), {}
    for t, lon, sku, name, alt in seq:
        if sku is not None:
            if sku.lower() not in SKU:
                return None
            devs = [SKU[sku.lower()]]
        else:
            devs = [DEVS[2]] if t == CN else DEVS[:2]
        for dv in devs:
            if (dv is DEVS[2]) != (t == CN):
                return None
            key = (t, lon, alt, name, dv.device_sku)
            if key in seen:
                continue
            seen.add(key)
            if name:
                if dv.device_sku in groups.setdefault(name, []):
                    return None
                groups[name].append(dv.device_sku)
            out.append([t, lon, alt, dv.device_sku, name])
    names = []
    for o in out:
        if o[4] and len(groups[o[4]]) > 1:
            o[4] = f"{o[4]}_{o[3].lower()}"
        if o[4]:
            names.append(o[4])
    if len(set(names)) != len(names):
        return None
    return [tuple(o) for o in out]


def expand(seq, c):
    raw = [
        RawSite(site_type=t, status_type=PROPOSED, device_sku=sku, name=name, latitude=48.0, longitude=lon,
                altitude=alt, height=None, location_type=LocationType.STREET_LEVEL, building_id=None,
                number_of_subscribers=2)
        for t, lon, sku, name, alt in seq
    ]
    want = model_expand(seq)
    f = lambda: InputSitesLoader(DEVS).get_input_sites(raw, None, None)  # noqa
    if want is not None:
        given = {s[3] for s in seq if s[3]}
        ext = {f"{n}_{k}" for n in given for k in SKU if sum(w[4] == f"{n}_{k}" for w in want)}
        if ext & given:
            # a given name equals an extended name: rejecting is legitimate too
            try:
                f()
            except PlannerException:
                c.outcome("either")
                return
    if want is None:
        c.raises(f, PlannerException, "sites-rejected", str(seq))
        c.outcome("rejected")
        return
    sites = f()
    got = [(s.site_type, s.longitude, s.altitude, s.device.device_sku, s.name) for s in sites]
    exp = [w[:4] + (w[4] or s.site_id,) for w, s in zip(want, sites)] if len(got) == len(want) else want
    c.eq(got, exp, "sites-expanded", str(seq))
    c.eq(len(sites), len(want), "sites-count", str(seq))
    for i, s in enumerate(sites):
        c.check(sites[i] is s, "sites-index", str(seq))
        c.check(sites.get_site_by_name(s.name) is s, "site-by-name", f"{seq} {s.name}")
        c.check(sites.get_site_by_id(s.site_id) is s or any(o.site_id == s.site_id for o in sites if o is not s), "site-by-id", str(seq))
        c.eq((s.status_type, s.location_type, s.number_of_subscribers), (PROPOSED, LocationType.STREET_LEVEL, 2 if s.site_type == CN else 0), "site-attrs", str(seq))
    c.check(sites.get_site_by_name("absent") is None and sites.get_site_by_id("absent") is None, "site-absent")
    c.outcome(tuple(got and [g[4] for g in got if len(g[4]) < 9]))


def boundary(item, c):
    x, y = item
    ring = [(3.0, 48.0), (3.02, 48.0), (3.02, 48.01), (3.01, 48.01), (3.01, 48.02), (3.0, 48.02)]  # L shape
    inside = (3.0 < x < 3.02 and 48.0 < y < 48.01) or (3.0 < x < 3.01 and 48.0 < y < 48.02)
    raw = [RawSite(DN, CANDIDATE, "D1", None, y, x, None, None, LocationType.UNKNOWN, None, None)]
    s = InputSitesLoader(DEVS).get_input_sites(raw, Polygon(ring), None)
    c.eq(len(s), int(inside), "boundary", str(item))
    s = InputSitesLoader(DEVS).get_input_sites(raw, None, None)
    c.eq(len(s), 1, "no-boundary", str(item))
    c.outcome(inside)


def located(item, c):
    """Place and kind of location of user input sites follow from the elevation."""
    t, bid, given, found, alt, dalt, height = item
    calls = []

    def infer(latitude, longitude, altitude, height, location_type, site_type):
        calls.append(dict(latitude=latitude, longitude=longitude, altitude=altitude, height=height, location_type=location_type, site_type=site_type))
        return GeoLocation(latitude=latitude, longitude=longitude, altitude=(altitude or 0.0) + dalt), found

    for fn in (infer, None) if bid is None or given == LocationType.ROOFTOP else (infer,):
        raw = [RawSite(t, CANDIDATE, sku, f"n{k}", 48.0 + k / 1000, 3.0 + k / 500, alt if k else None, height, given, bid, None) for k, sku in enumerate((None, "C1" if t == CN else "D2"))]
        sites = list(InputSitesLoader(DEVS).get_input_sites(raw, None, fn))
        c.eq(len(sites), 2 if t == CN else 3, "located-count", str(item))
        for s in sites:
            k = int(s.name[1])
            kind = found if fn else given
            c.eq(s.location_type, kind, "located-type", f"{item} {bool(fn)}")
            c.eq(s.altitude, ((alt if k else None) or 0.0) + dalt if fn else (alt if k else None), "located-altitude", f"{item} {bool(fn)}")
            c.eq((s.latitude, s.longitude), (48.0 + k / 1000, 3.0 + k / 500), "located-place", str(item))
            roof = kind == LocationType.ROOFTOP
            c.eq(s.building_id, (UNKNOWN_BUILDING_ID if fn or bid is None else bid) if roof else None, "located-building", f"{item} {bool(fn)}")
        if fn:
            want = [dict(latitude=48.0 + k / 1000, longitude=3.0 + k / 500, altitude=alt if k else None, height=height, location_type=given, site_type=t) for k in (0, 1)]
            c.eq(calls, want, "located-given", str(item))
    c.state(item)


def main(r):
    base = ("lat", "lon", "name", "type")
    items = []
    for f, al in ALIAS.items():
        for a in al:
            for sp in range(4):
                items.append((f, a, sp, tuple(dict.fromkeys(base + (f,)))))
                items.append((f, a, sp, tuple(dict.fromkeys(("lat", "lon", f)))))
                items.append((f, a, sp, tuple(FIELDS)))
    r.map(alias, items)
    r.map(twice, [(f, a, b) for f, al in ALIAS.items() for a, b in itertools.combinations(al, 2)])
    r.map(required, [s for n in range(1, 6) for s in itertools.combinations(FIELDS, n)])
    colsets = [tuple(FIELDS), ("lon", "lat"), ("alt", "lat", "lon", "height"), ("name", "type", "lat", "lon", "sku", "subs"), ("lat", "lon", "loc")]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(range(4), repeat=n)]
    r.map(rows, [(cs, s, e) for cs in colsets for s in seqs for e in (("utf-8", "utf-8-sig") if len(s) < 3 else ("utf-8",))])
    r.map(bad_values, [("type", "XN"), ("type", "node"), ("lat", "abc"), ("lon", "12 Q"), ("alt", "high"), ("height", "tall"), ("lat", "10°20'E extra")])
    vals = [("12", "5", "rooftop", "31"), ("7", "", "ROOFTOP", "0"), ("", "5", "street_level", "31"), ("12", "S", "unknown", "4"), ("a", "5", "rooftop", "")]
    r.map(labels, [(("name", "lat", "lon", "sku", "loc", "bld"), s) for n in (1, 2, 3) for s in itertools.product(vals, repeat=n)]
          + [(cs, s) for cs in (("name", "lat", "lon"), ("lat", "name", "sku", "lon"), ("lat", "lon", "loc", "bld"), ("lat", "lon", "bld"), ("sku", "lat", "lon", "bld"), ("name", "lat", "lon", "bld")) for n in (1, 2)
             for s in itertools.product(vals, repeat=n)])
    bp = ["a --> B x", "a --> b --> c", "a", "a -> b", "cC-->a", "-->a-->", "D --> B x"]
    r.map(bad_pairs, [s for n in (1, 2) for s in itertools.permutations(bp, n)])
    n = 2 if r.quick else 3
    r.map(cells, [(col, t) for col in ("alt", "height", "subs") for k in range(1, n + 1) for t in itertools.product(CELLS, repeat=k)])
    g = [0, 7, 45, 100] if r.quick else [0, 1, 7, 45, 89, 100, 179]
    r.map(dms, list(itertools.product(g, [0, 20, 59], [0, 2.04, 59.5], "NSEW", ["dec", "dms", "spaced"])))
    pairs = [("a", "B x"), ("B x", "a"), ("a", "cC"), ("cC", "a"), ("B x ", " D"), ("a", "zz"), ("a", "a")]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(pairs, repeat=n)]
    items = [(f, h1, h2, s) for f, h1, h2 in (("pair", PA[0], None), ("tx", TXA[0], RXA[1]), ("12", S1A[0], S2A[0])) for s in seqs]
    items += [("pair", h.upper(), None, pairs[:1]) for h in PA] + [("tx", a, b, pairs[:1]) for a in TXA for b in RXA] + [("12", a.title(), b, pairs[:1]) for a in S1A for b in S2A]
    r.map(links, items)
    allc = ["tx_site", "from_site", "rx_site", "to_site", "site1", "site1_id", "site2", "site2_name", "sites", "site_pair", "x"]
    r.map(link_cols, [s for n in (1, 2, 3) for s in itertools.permutations(allc, n)])
    r.map(zips, [s for n in range(0, 4) for s in itertools.combinations(["sites.csv", "links.csv", "x/sites.csv", "x.csv"], n)])
    alpha = [
        (DN, 3.0, None, "x", None), (DN, 3.0, "D1", "x", None), (DN, 3.0, "d1", "x", None), (DN, 3.0, "D2", "x", 5.0),
        (DN, 3.1, "D1", "x", None), (DN, 3.1, "d2", "x", None), (POP, 3.0, "D1", "x", None), (POP, 3.0, None, None, None),
        (DN, 3.0, "D1", "x_d1", None), (DN, 3.1, None, "x_d1", None), (CN, 3.0, None, "x", None), (CN, 3.0, "C1", None, None),
        (DN, 3.0, None, None, None), (DN, 3.0, "D1", None, None), (CN, 3.1, "D1", "y", None), (DN, 3.1, "Z", "y", None),
        (DN, 3.0, "D2", "X", None),
    ]
    seqs = [s for n in ((1, 2, 3) if r.quick else (1, 2, 3, 4)) for s in itertools.product(alpha, repeat=n)]
    r.map(expand, seqs)
    r.map(located, list(itertools.product((CN, DN, POP), (None, 0, 7), tuple(LocationType), tuple(LocationType), (None, 0.0, 12.5), (0.0, 4.0), (None, 0.0, 3.0))), "located")
    r.map(boundary, [(3.0 - 0.0051 + i * 0.0034, 48.0 - 0.0049 + j * 0.0034) for i in range(10) for j in range(10)])

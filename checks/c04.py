"""C04: configuration files mean what they say.

Every key of the documented template x every spelling x every sample value
(valid and invalid), every pair of keys, every single-character typo, and the
cross-key rules, are written to a real YAML/JSON file, loaded through the
public loader and compared with a table model of the parameters.
"""
import copy
import itertools
import json
import os
import tempfile

import yaml
from tg import *  # noqa
from terragraph_planner.common.configuration.configs import SystemParams
from terragraph_planner.common.configuration.enums import (
    LoggerLevel,
    RedundancyLevel,
    TopologyRouting,
)
from terragraph_planner.common.configuration.utils import struct_objects_from_file

if hasattr(yaml, "CSafeLoader"):  # same loader semantics, C parser for speed
    yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)

# object -> list of (path, attribute, default, valid values, invalid values)
SEC = ("RADIO", "DEVICE_LIST", 0, "SECTOR_PARAMS")
DEV = ("RADIO", "DEVICE_LIST", 0)
T = {
    "SYSTEM": [
        (("SYSTEM", "OUTPUT_DIR"), "output_dir", "./", ["/tmp/x", "y"], []),
        (("SYSTEM", "DEBUG_MODE"), "debug_mode", False, [True, False], []),
        (("SYSTEM", "LOGGER_LEVEL"), "logger_level", "INFO",
         ["debug", "ERROR", "Warning", "CRITICAL", "NOTSET"], ["nope"]),
        (("SYSTEM", "LOG_FILE"), "log_file", None, ["a.log"], []),
        (("SYSTEM", "LOG_TO_STDERR"), "log_to_stderr", True, [False, True], []),
    ],
    "DATA": [
        (("DATA", "BOUNDARY_POLYGON_FILE_PATH"), "boundary_polygon_file_path", "b.kml",
         ["c.kml", "c.kmz", "d.KML"], ["c.csv", "c", "kml.txt"]),
        (("DATA", "DSM_FILE_PATHS"), "dsm_file_paths", [],
         [["d.tif"], ["a.tif", "b.tiff"]], [["d.csv"], ["a.tif", "b.png"]]),
        (("DATA", "DTM_FILE_PATH"), "dtm_file_path", None, ["d.tif"], ["d.kml"]),
        (("DATA", "DHM_FILE_PATH"), "dhm_file_path", None, ["h.TIF"], ["h.zip"]),
        (("DATA", "BUILDING_OUTLINE_FILE_PATH"), "building_outline_file_path", None,
         ["o.kml", "o.kmz", "o.zip"], ["o.csv", "o.shp"]),
        (("DATA", "SITE_FILE_PATH"), "site_file_path", None, ["s.kml", "s.kmz", "s.csv"], ["s.zip"]),
        (("DATA", "BASE_TOPOLOGY_FILE_PATH"), "base_topology_file_path", None, ["t.kml", "t.kmz"], ["t.csv", "t.zip"]),
    ],
    "LINE_OF_SIGHT": [
        (("LINE_OF_SIGHT", k), k.lower(), d, v, i)
        for k, d, v, i in [
            ("MOUNTING_HEIGHT_ABOVE_ROOFTOP", 1.5, [0, 2.5], [-0.1]),
            ("DEFAULT_POP_HEIGHT_ON_POLE", 5, [0, 7], [-1]),
            ("DEFAULT_DN_HEIGHT_ON_POLE", 5, [0, 8], [-1]),
            ("DEFAULT_CN_HEIGHT_ON_POLE", 5, [0, 9], [-1]),
            ("MAXIMUM_LOS_DISTANCE", 200, [51, 300], [50, 20]),
            ("MINIMUM_LOS_DISTANCE", 50, [5, 199], [4, 200, 201]),
            ("MAXIMUM_ELEVATION_SCAN_ANGLE", 25, [0, 90], [-1, 90.5]),
            ("MINIMUM_MCS_OF_BACKHAUL_LINKS", None, [0, 9], [-1]),
            ("MINIMUM_MCS_OF_ACCESS_LINKS", None, [0, 8], [-1]),
            ("USE_ELLIPSOIDAL_LOS_MODEL", False, [True, False], []),
            ("FRESNEL_RADIUS", 1.0, [0.1, 3], [0, -1]),
            ("LOS_CONFIDENCE_THRESHOLD", 0.8, [0, 1, 0.5], [-0.01, 1.01]),
            ("NUM_PROCESSORS", None, [1, 4], []),
        ]
    ]
    + [
        (("LINE_OF_SIGHT", "SITE_DETECTION", k), "site_detection." + k.lower(), d, v, i)
        for k, d, v, i in [
            ("DN_DEPLOYMENT", True, [False, True], []),
            ("DETECT_HIGHEST", True, [False, True], []),
            ("DETECT_CENTERS", False, [True, False], []),
            ("DETECT_CORNERS", True, [False, True], []),
            ("MAX_CORNER_ANGLE", None, [1, 179.5], [0, 180, -5]),
        ]
    ],
}
RADIO = [
    (("RADIO", "CARRIER_FREQUENCY"), "carrier_frequency", 60000.0, [58000.0], []),
    (("RADIO", "NOISE_FIGURE"), "noise_figure", 7.0, [0, 3], []),
    (("RADIO", "THERMAL_NOISE_POWER"), "thermal_noise_power", -81.0, [-90], []),
    (("RADIO", "MAXIMUM_EIRP"), "maximum_eirp", None, [38.5], []),
    (("RADIO", "RAIN_RATE"), "rain_rate", 30.0, [0, 45.5], []),
    (("RADIO", "LINK_AVAILABILITY_PERCENTAGE"), "link_availability_percentage", 99.9, [95, 100], []),
]
DEVICE = [
    (DEV + ("DEVICE_SKU",), "device_list.0.device_sku", "D1", ["Other"], [""]),
    (DEV + ("DEVICE_TYPE",), "device_list.0.device_type", "DN", ["dn", "DN"], ["POP", "X"]),
    (DEV + ("NODE_CAPEX",), "device_list.0.node_capex", 250.0, [0, 99.5], [-1]),
    (DEV + ("NUMBER_OF_NODES_PER_SITE",), "device_list.0.number_of_nodes_per_site", 4, [1, 5], [0, 6]),
] + [
    (SEC + (k,), "device_list.0.sector_params." + k.lower(), d, v, i)
    for k, d, v, i in [
        ("HORIZONTAL_SCAN_RANGE", 70.0, [0, 90], [-1, 90.5, 361]),
        ("NUMBER_SECTORS_PER_NODE", 1, [1], [0, 2]),
        ("ANTENNA_BORESIGHT_GAIN", 30.0, [0, 28.5], [-1]),
        ("MAXIMUM_TX_POWER", 16.0, [0, 43], [-1]),
        ("MINIMUM_TX_POWER", None, [16, -10], [16.5]),
        ("TX_DIVERSITY_GAIN", 0.0, [3], [-1]),
        ("RX_DIVERSITY_GAIN", 0.0, [4], [-1]),
        ("TX_MISCELLANEOUS_LOSS", 0.0, [1], [-1]),
        ("RX_MISCELLANEOUS_LOSS", 0.0, [2], [-1]),
        ("MINIMUM_MCS_LEVEL", None, [0, 7], [-1]),
    ]
]
ND = [
    (("NETWORK_DESIGN", "CANDIDATE_TOPOLOGY_FILE_PATH"), "candidate_topology_file_path", None,
     ["t.kml", "t.kmz", "t.zip"], ["t.csv"]),
] + [
    (("NETWORK_DESIGN",) + tuple(k.split(".")), k.split(".")[-1].lower(), d, v, i)
    for k, d, v, i in [
        ("FINANCIAL.CN_SITE_CAPEX", 1500.0, [0, 10], [-1]),
        ("FINANCIAL.DN_SITE_CAPEX", 1500.0, [0, 11], [-1]),
        ("FINANCIAL.POP_SITE_CAPEX", 1500.0, [0, 12], [-1]),
        ("FINANCIAL.BUDGET", 300000.0, [0, 13], [-1]),
        ("DIMENSIONING.ENABLE_CN_DEMAND", True, [True], [False]),
        ("DIMENSIONING.ENABLE_UNIFORM_DEMAND", False, [False], [True]),
        ("DIMENSIONING.ENABLE_MANUAL_DEMAND", False, [False], [True]),
        ("DIMENSIONING.DEMAND_SPACING", 0, [5.5], []),
        ("DIMENSIONING.DEMAND_CONNECTION_RADIUS", 0, [6.5], []),
        ("DIMENSIONING.DEMAND", 0.025, [1.5], [0, -1]),
        ("POP_CAPACITY", 10.0, [0.5], [0, -1]),
        ("NUMBER_OF_EXTRA_POPS", 0, [3], [-1]),
        ("DN_DN_SECTOR_LIMIT", 2, [1, 15], [0, 16]),
        ("DN_TOTAL_SECTOR_LIMIT", 15, [2, 20], [1, 0]),
        ("MAXIMUM_NUMBER_HOPS", 15, [1, 30], [0]),
        ("DIFF_SECTOR_ANGLE_LIMIT", 25.0, [0, 180], [-1, 180.5]),
        ("NEAR_FAR_LENGTH_RATIO", 3.0, [0.5], [0]),
        ("NEAR_FAR_ANGLE_LIMIT", 45.0, [0, 180], [-1, 181]),
        ("OVERSUBSCRIPTION", 1.0, [1, 4], [0.9]),
        ("NUMBER_OF_CHANNELS", 1, [3], [0]),
        ("MAXIMIZE_COMMON_BANDWIDTH", False, [True, False], []),
        ("ALWAYS_ACTIVE_POPS", True, [False, True], []),
        ("ENABLE_LEGACY_REDUNDANCY_METHOD", True, [False, True], []),
        ("REDUNDANCY_LEVEL", "MEDIUM", ["none", "Low", "MEDIUM", "HIGH"], ["max"]),
        ("BACKHAUL_LINK_REDUNDANCY_RATIO", 0.2, [0, 1], [-0.1, 1.1]),
        ("NUM_THREADS", None, [1, 8], [0, -1]),
        ("POP_PROPOSAL_REL_STOP", -1, [0.1], []),
        ("MIN_COST_REL_STOP", 0.05, [0.2], []),
        ("REDUNDANCY_REL_STOP", 0.05, [0.3], []),
        ("MAX_COVERAGE_REL_STOP", -1, [0.4], []),
        ("INTERFERENCE_REL_STOP", -1, [0.5], []),
        ("POP_PROPOSAL_MAX_TIME", 60, [1], [0]),
        ("MIN_COST_MAX_TIME", 60, [2], [0]),
        ("REDUNDANCY_MAX_TIME", 60, [3], [0]),
        ("MAX_COVERAGE_MAX_TIME", 60, [4], []),
        ("INTERFERENCE_MAX_TIME", 60, [5], [0]),
        ("DEMAND_SITE_MAX_TIME", 15, [6], [0]),
        ("TOPOLOGY_ROUTING", None, ["shortest_path", "MCS_COST_PATH", "Dpa_Path"], ["ospf"]),
        ("AVAILABILITY_SIM_TIME", 100.0, [5.0], []),
        ("AVAILABILITY_SEED", 0, [-1, 7], []),
        ("AVAILABILITY_MAX_TIME", 60, [7], [0]),
    ]
]
T["LINE_OF_SIGHT"] = T["LINE_OF_SIGHT"] + RADIO + DEVICE
T["OPTIMIZATION"] = RADIO + DEVICE + ND
ENUMS = {
    "logger_level": LoggerLevel,
    "redundancy_level": RedundancyLevel,
    "topology_routing": TopologyRouting,
    "device_type": DeviceType,
}
SHARED = {"carrier_frequency", "thermal_noise_power", "noise_figure", "rain_rate", "link_availability_percentage"}


def base():
    return {
        "SYSTEM": {},
        "DATA": {"BOUNDARY_POLYGON_FILE_PATH": "b.kml"},
        "LINE_OF_SIGHT": {"SITE_DETECTION": {}},
        "RADIO": {
            "DEVICE_LIST": [
                {"DEVICE_SKU": "D1", "DEVICE_TYPE": "DN", "SECTOR_PARAMS": {}},
                {"DEVICE_SKU": "C1", "DEVICE_TYPE": "CN", "SECTOR_PARAMS": {}},
            ]
        },
        "NETWORK_DESIGN": {"FINANCIAL": {}, "DIMENSIONING": {}},
    }


def put(d, path, value):
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = value


def attr(o, name):
    for p in name.split("."):
        o = o[int(p)] if p.isdigit() else getattr(o, p)
    return o


def norm(name, v):
    leaf = name.split(".")[-1]
    if leaf in ENUMS and v is not None:
        return ENUMS[leaf][str(v).upper()]
    return v


SPELL = {
    "exact": lambda k: k,
    "lower": lambda k: k.lower(),
    "title": lambda k: k.title(),
    "swap": lambda k: "".join(x.upper() if i % 2 else x.lower() for i, x in enumerate(k)),
    "pad": lambda k: f" {k} ",
}


def spell(d, f, top=True):
    if isinstance(d, dict):
        return {f(k): spell(v, f, False) for k, v in d.items()}
    if isinstance(d, list):
        return [spell(v, f, False) if isinstance(v, dict) else v for v in d]
    return d


def load(obj, data, fmt="json"):
    with tempfile.NamedTemporaryFile("w", suffix="." + fmt, delete=False) as f:
        if fmt == "json":
            json.dump(data, f)
        else:
            yaml.safe_dump(data, f)
    try:
        return struct_objects_from_file(obj, f.name)
    finally:
        os.unlink(f.name)


def verify(c, obj, got, changes, tag):
    """Every attribute equals the change made or the documented default."""
    for path, name, default, _, _ in T[obj]:
        want = norm(name, changes.get(path, default))
        if changes.get(path, 0) is None:
            want = norm(name, default)
        have = attr(got, name)
        c.check(
            have == want and isinstance(have, bool) == isinstance(want, bool),
            f"value:{tag}:{path[-1]}",
            f"{obj} {path}: got {have!r}, want {want!r} with {changes}",
        )
    if obj in ("LINE_OF_SIGHT", "OPTIMIZATION"):
        c.eq([d.device_type for d in got.device_list], [DeviceType.DN, DeviceType.CN], f"devices:{tag}")
        c.eq(got.device_list[1].number_of_nodes_per_site, 1, f"cn-nodes:{tag}")
        for d in got.device_list:
            for s in SHARED:
                want = changes.get(("RADIO", s.upper()))
                if want is None:
                    want = [r[2] for r in RADIO if r[1] == s][0]
                c.eq(getattr(d.sector_params, s), want, f"shared:{s}:{tag}")


OBJ_CLASS = None


def single(item, c):
    obj, k, vi, sp, fmt = item
    path, name, default, valid, invalid = T[obj][k]
    d = base()
    kind, v = vi
    if kind == "absent":
        changes = {}
    else:
        put(d, path, v)
        changes = {path: v}
    d = spell(d, SPELL[sp])
    if kind == "invalid":
        try:
            got = load(obj, d, fmt)
        except (PlannerException, KeyError):
            c.outcome("rejected")
            c.step()
            return
        c.fail(f"accepted-invalid:{path[-1]}:{v}", f"{obj} {path}={v!r} accepted as {attr(got, name)!r}")
        return
    got = load(obj, d, fmt)
    verify(c, obj, got, changes, sp)
    c.outcome(obj, name, repr(attr(got, name)))
    c.state(item)


def two(item, c):
    obj, i, j, vi, vj = item
    pi, pj = T[obj][i][0], T[obj][j][0]
    d = base()
    put(d, pi, vi)
    put(d, pj, vj)
    try:
        got = load(obj, d)
    except PlannerException as e:
        want = conflict(obj, {pi: vi, pj: vj})
        c.check(want, f"pair-rejected:{pi[-1]}:{pj[-1]}", f"{item} {e}")
        c.outcome("rejected")
        return
    c.check(not conflict(obj, {pi: vi, pj: vj}), f"pair-accepted:{pi[-1]}:{pj[-1]}", f"{item}")
    verify(c, obj, got, {pi: vi, pj: vj}, "pair")
    c.outcome(repr(vi), repr(vj))
    c.state(item)


def conflict(obj, ch):
    """Cross-key rules of the documentation (each single value is legal)."""
    g = lambda name: next(
        (norm(n, ch.get(p, d)) for p, n, d, _, _ in T[obj] if n == name), None
    )
    if obj == "DATA":
        return g("building_outline_file_path") is not None and g("base_topology_file_path") is not None
    if obj == "LINE_OF_SIGHT":
        mx = g("maximum_los_distance")
        bad = mx is not None and g("minimum_los_distance") >= mx
    elif obj == "OPTIMIZATION":
        bad = g("dn_dn_sector_limit") > g("dn_total_sector_limit")
        bad |= not (g("enable_cn_demand") or g("enable_uniform_demand") or g("enable_manual_demand"))
        bad |= g("enable_uniform_demand") and g("demand_spacing") <= 0
        bad |= (g("enable_uniform_demand") or g("enable_manual_demand")) and g("demand_connection_radius") <= 0
    else:
        return False
    p = "device_list.0."
    mn = g(p + "sector_params.minimum_tx_power")
    bad |= mn is not None and mn > g(p + "sector_params.maximum_tx_power")
    bad |= (
        g(p + "sector_params.horizontal_scan_range")
        * g(p + "sector_params.number_sectors_per_node")
        * g(p + "number_of_nodes_per_site")
        > 360
    )
    return bool(bad)


def rules(item, c):
    """Full products over the keys that constrain each other."""
    obj, ch = item
    ch = dict(ch)
    d = base()
    for p, v in ch.items():
        put(d, p, v)
    bad = conflict(obj, ch)
    try:
        got = load(obj, d)
    except PlannerException:
        c.check(bad, f"rule-rejected:{obj}", f"{item}")
        c.outcome("rejected")
        return
    if c.check(not bad, f"rule-accepted:{obj}", f"{item}"):
        verify(c, obj, got, ch, "rule")
    c.outcome("accepted")
    c.state(item)


def devices(item, c):
    """Lists of devices: duplicates, CN node rule, per-device independence."""
    specs = item
    d = base()
    d["RADIO"]["DEVICE_LIST"] = [
        dict(DEVICE_SKU=s, DEVICE_TYPE=t, NODE_CAPEX=10 * (i + 1),
             **({} if n is None else dict(NUMBER_OF_NODES_PER_SITE=n)),
             SECTOR_PARAMS=dict(HORIZONTAL_SCAN_RANGE=60 + i, MAXIMUM_TX_POWER=20 + i))
        for i, (s, t, n) in enumerate(specs)
    ]
    d["RADIO"]["RAIN_RATE"] = 11
    bad = len({s.lower() for s, _, _ in specs}) != len(specs) or not specs
    bad = bad or any(t == "CN" and n not in (None, 1) for _, t, n in specs)
    for obj in ("LINE_OF_SIGHT", "OPTIMIZATION"):
        try:
            got = load(obj, d)
        except PlannerException:
            c.check(bad, "devices-rejected", f"{item}")
            c.outcome("rejected")
            continue
        if c.check(not bad, "devices-accepted", f"{item}"):
            c.eq(
                [
                    (x.device_sku, x.device_type.name, x.node_capex, x.number_of_nodes_per_site,
                     x.sector_params.horizontal_scan_range, x.sector_params.maximum_tx_power, x.sector_params.rain_rate)
                    for x in got.device_list
                ],
                [
                    (s, t, 10 * (i + 1), n or (1 if t == "CN" else 4), 60 + i, 20 + i, 11)
                    for i, (s, t, n) in enumerate(specs)
                ],
                "device-list",
            )
            c.outcome("accepted")
    c.state(item)


def bare_device(item, c):
    """Everything but the name of a device has a default."""
    devs, rain = item
    d = base()
    d["RADIO"]["DEVICE_LIST"] = [dict(x, DEVICE_SKU=f"S{i}") for i, x in enumerate(devs)]
    if rain is not None:
        d["RADIO"]["RAIN_RATE"] = rain
    for obj in ("LINE_OF_SIGHT", "OPTIMIZATION"):
        got = load(obj, d)
        for x, spec in zip(got.device_list, devs):
            cn = spec.get("DEVICE_TYPE") == "CN"
            p = spec.get("SECTOR_PARAMS") or {}
            c.eq((x.device_type.name, x.node_capex, x.number_of_nodes_per_site),
                 ("CN" if cn else "DN", spec.get("NODE_CAPEX") or 250.0, 1 if cn else 4), "bare-device", f"{item}")
            c.eq((x.sector_params.rain_rate, x.sector_params.antenna_boresight_gain, x.sector_params.horizontal_scan_range),
                 (30.0 if rain is None else rain, 30.0, p.get("HORIZONTAL_SCAN_RANGE", 70.0)), "bare-sector", f"{item}")
    c.outcome("accepted")
    c.state(item)


def typo(item, c):
    """A misspelt or misplaced key is rejected, never silently ignored."""
    path, bad = item
    d = base()
    node = d
    for p in path[:-1]:
        node = node[p]
    node[bad] = node.pop(path[-1], 1)
    for obj in ("SYSTEM", "DATA", "LINE_OF_SIGHT", "OPTIMIZATION"):
        c.raises(lambda: load(obj, d), PlannerException, f"typo:{path[-1]}:{bad}", f"{path}->{bad}")
    c.outcome("rejected")
    c.state(item)


def template(item, c):
    """The shipped template documents the real defaults."""
    import terragraph_planner

    p = os.path.join(os.path.dirname(terragraph_planner.__file__), "data", "template.yaml")
    with open(p) as f:
        doc = yaml.safe_load(f)
    seen = set()
    for obj, rows in T.items():
        for path, name, default, _, _ in rows:
            node = doc
            for q in path:
                c.check(not isinstance(node, dict) or q in node, f"template-key:{path}")
                node = node[q]
            seen.add(path)
            if "FILE_PATH" in path[-1] or path[-1] == "DEVICE_SKU":
                continue
            c.eq(norm(name, node), norm(name, default), f"template-default:{path[-1]}")

    def walk(n, path):
        for k, v in n.items():
            if isinstance(v, dict):
                walk(v, path + (k,))
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                walk(v[0], path + (k, 0))
            elif not k.endswith("_FILE_PATH") or path[:1] == ("DATA",):
                c.check(path + (k,) in seen, f"template-unknown:{k}", "key not in the model")

    walk(doc, ())
    c.outcome("template")


def missing(item, c):
    obj, drop, fmt = item
    d = base()
    need = {
        "DATA": {"DATA", "BOUNDARY"}, "LINE_OF_SIGHT": {"LINE_OF_SIGHT", "RADIO"},
        "OPTIMIZATION": {"RADIO", "NETWORK_DESIGN"}, "SYSTEM": set(),
    }[obj]
    if drop == "BOUNDARY":
        d["DATA"].pop("BOUNDARY_POLYGON_FILE_PATH")
    else:
        d.pop(drop)
    c.step()
    try:
        got = load(obj, d, fmt)
    except (PlannerException, TypeError) as e:
        c.check(drop in need, f"missing-rejected:{obj}:{drop}", repr(e))
        c.outcome("rejected")
        return
    c.check(drop not in need, f"missing-accepted:{obj}:{drop}")
    verify(c, obj, got, {}, "missing")
    c.outcome("ok")


def files(item, c):
    ext, ok = item
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "c" + ext)
        with open(p, "w") as f:
            json.dump(base(), f)
        if ok:
            verify(c, "SYSTEM", struct_objects_from_file("SYSTEM", p), {}, "ext")
        else:
            c.raises(lambda: struct_objects_from_file("SYSTEM", p), PlannerException, f"ext:{ext}")
        c.raises(lambda: struct_objects_from_file("SYSTEM", p + "x.json"), PlannerException, "nofile")
        c.raises(lambda: struct_objects_from_file("NOTHING", p) if ok else struct_objects_from_file("SYSTEM", p),
                 PlannerException, "badobj")
    c.outcome(ok)


def main(r):
    q = r.quick
    items = []
    for obj, rows in T.items():
        for k, (path, name, default, valid, invalid) in enumerate(rows):
            vals = [("absent", None), ("null", None)] + [("valid", v) for v in valid] + [("invalid", v) for v in invalid]
            if path[-1] in ("DEVICE_SKU", "BOUNDARY_POLYGON_FILE_PATH"):
                vals = [v for v in vals if v[0] != "null"]
            for v in vals:
                for sp in SPELL:
                    for fmt in (("json",) if q else ("json", "yaml", "yml")):
                        items.append((obj, k, v, sp, fmt))
                if q:
                    items.append((obj, k, v, "exact", "yaml"))
    r.map(single, items, name="single-key")
    items = []
    for obj, rows in T.items():
        for i, j in itertools.combinations(range(len(rows)), 2):
            vi = [v for v in rows[i][3] if v is not None] or [rows[i][2]]
            vj = [v for v in rows[j][3] if v is not None] or [rows[j][2]]
            if q:
                vi, vj = vi[:1], vj[-1:]
            for a, b in itertools.product(vi, vj):
                items.append((obj, i, j, a, b))
    r.map(two, items, name="key-pairs")
    N, D = "NETWORK_DESIGN", "DIMENSIONING"
    items = []
    for cn, un, ma in itertools.product((True, False), repeat=3):
        for sp, ra in itertools.product((0, 5.5), repeat=2):
            items.append(("OPTIMIZATION", (((N, D, "ENABLE_CN_DEMAND"), cn), ((N, D, "ENABLE_UNIFORM_DEMAND"), un),
                         ((N, D, "ENABLE_MANUAL_DEMAND"), ma), ((N, D, "DEMAND_SPACING"), sp),
                         ((N, D, "DEMAND_CONNECTION_RADIUS"), ra))))
    for a, b in itertools.product((1, 2, 3, 15, 16), repeat=2):
        items.append(("OPTIMIZATION", (((N, "DN_DN_SECTOR_LIMIT"), a), ((N, "DN_TOTAL_SECTOR_LIMIT"), b))))
    for a, b in itertools.product((5, 49, 50, 51, 199, 200, 201), (None, 50, 51, 200, 201)):
        if b is not None:
            items.append(("LINE_OF_SIGHT", ((("LINE_OF_SIGHT", "MINIMUM_LOS_DISTANCE"), a), (("LINE_OF_SIGHT", "MAXIMUM_LOS_DISTANCE"), b))))
    for obj in ("LINE_OF_SIGHT", "OPTIMIZATION"):
        for h, s, n in itertools.product((30, 45, 90, 180, 360), (1, 2, 3), (1, 2, 4)):
            items.append((obj, ((SEC + ("HORIZONTAL_SCAN_RANGE",), h), (SEC + ("NUMBER_SECTORS_PER_NODE",), s),
                                (DEV + ("NUMBER_OF_NODES_PER_SITE",), n))))
        for a, b in itertools.product((0, 10, 16), (-5, 0, 10, 16)):
            items.append((obj, ((SEC + ("MAXIMUM_TX_POWER",), a), (SEC + ("MINIMUM_TX_POWER",), b))))
    r.map(rules, items, name="cross-key-rules")
    one = [(s, t, n) for s in ("A", "a", "B") for t in ("CN", "DN") for n in (None, 1, 2)]
    items = [()] + [(x,) for x in one] + list(itertools.product(one, repeat=2))
    if not q:
        items += list(itertools.product(one[::2], repeat=3))
    r.map(devices, items, name="device-lists")
    one = [
        dict({}, **a, **b, **e)
        for a in ({}, dict(DEVICE_TYPE="CN"), dict(DEVICE_TYPE=None))
        for b in ({}, dict(SECTOR_PARAMS=None), dict(SECTOR_PARAMS={}), dict(SECTOR_PARAMS=dict(HORIZONTAL_SCAN_RANGE=50)))
        for e in ({}, dict(NODE_CAPEX=3.0), dict(NODE_CAPEX=None))
    ]
    r.map(bare_device, [((x,), rain) for x in one for rain in (None, 12)] + [((x, y), None) for x in one for y in one], name="bare-devices")
    items = set()
    keys = {p for rows in T.values() for p, *_ in rows}
    names = {}
    for p in keys:
        names.setdefault(p[:-1], set()).add(p[-1])
    for p in sorted(keys, key=repr):
        k = p[-1]
        muts = {k[1:], k[:-1], k + "S", k.replace("_", "-", 1), k[1] + k[0] + k[2:]}
        muts |= {k[: len(k) // 2] + k[len(k) // 2 + 1 :]}
        for m in muts:
            if m and m not in names[p[:-1]] and m not in ("FINANCIAL", "DIMENSIONING") and m != k:
                items.add((p, m))
        # a key of one section placed in another one
        for other in (("SYSTEM",), ("DATA",), ("LINE_OF_SIGHT",), ("RADIO",), ("NETWORK_DESIGN",), SEC, DEV):
            if k not in names.get(other, set()) and other != p[:-1]:
                items.add((other + ("__none__",), k))
    r.map(typo, sorted(items, key=repr), name="typos")
    r.map(template, [0], name="template")
    r.map(
        missing,
        [(o, s, f) for o in T for s in ("SYSTEM", "DATA", "LINE_OF_SIGHT", "RADIO", "NETWORK_DESIGN", "BOUNDARY") for f in ("json", "yaml")],
        name="missing-sections",
    )
    r.map(files, [(".json", True), (".yml", True), (".yaml", True), (".txt", False), (".JSONX", False)], name="files")

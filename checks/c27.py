"""C27: a plan run from a configuration file is the plan of its settings; logs, debug and output files follow it."""
import csv
import itertools
import json
import logging
import os
import re
import tempfile
import zipfile

import yaml

import c12
import c25
import tg
from c19 import mix
from gis import raster
from tg import CN, DN, POP
from terragraph_planner.common.configuration.configs import GISDataParams, LOSParams, OptimizerParams, SiteDetectionParams
from terragraph_planner.common.configuration.enums import LoggerLevel, RedundancyLevel, TopologyRouting
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import OptimizerException, PlannerException
from terragraph_planner.common.utils import current_system_params, set_system_control_with_config_file
from terragraph_planner.los import core
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization import topology_preparation as tp

if hasattr(yaml, "CSafeLoader"):  # same loader semantics, C parser for speed
    yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)

SYS = ("output_dir", "debug_mode", "logger_level", "log_file", "log_to_stderr")
GROUP = {
    "budget": "FINANCIAL", "pop_site_capex": "FINANCIAL", "dn_site_capex": "FINANCIAL", "cn_site_capex": "FINANCIAL",
    "demand": "DIMENSIONING",
}
RADIO = ("rain_rate", "maximum_eirp", "carrier_frequency", "noise_figure")


class Quiet:
    """Keeps the process-wide settings that a run changes."""

    def __enter__(self):
        self.sys = {k: getattr(current_system_params, k) for k in SYS}
        root = logging.getLogger()
        self.hs, self.level, self.off = list(root.handlers), root.level, root.manager.disable
        logging.disable(logging.NOTSET)
        self.cwd = os.getcwd()
        # what is logged to stderr is not of interest here
        self.fd = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        tp.DEFAULT_POINTING_PRECISION = 15
        return self

    def __exit__(self, *a):
        for k, v in self.sys.items():
            setattr(current_system_params, k, v)
        root = logging.getLogger()
        for h in list(root.handlers):
            if h not in self.hs:
                root.removeHandler(h)
                if isinstance(h, logging.FileHandler):
                    h.close()
        for h in self.hs:
            if h not in root.handlers:
                root.addHandler(h)
        root.setLevel(self.level)
        logging.disable(self.off)
        os.chdir(self.cwd)
        os.dup2(self.fd, 2)
        os.close(self.fd)


def device_cfg():
    out = []
    for d in c25.DEVS:
        q = d.sector_params
        out.append(dict(DEVICE_SKU=d.device_sku, DEVICE_TYPE=d.device_type.name, NODE_CAPEX=d.node_capex, NUMBER_OF_NODES_PER_SITE=d.number_of_nodes_per_site,
                        SECTOR_PARAMS=dict(HORIZONTAL_SCAN_RANGE=q.horizontal_scan_range, NUMBER_SECTORS_PER_NODE=q.number_sectors_per_node)))
    return out


def devices():
    return [tg.dn_device("DN_DEV", nodes=4, sectors=1, hsr=70.0, capex=250.0), tg.dn_device("DN_ALT", nodes=2, sectors=2, hsr=80.0, capex=300.0), tg.cn_device("CN_DEV", capex=150.0)]


def config(system, pk, cand, extra=None):
    radio, design = dict(DEVICE_LIST=device_cfg()), {}
    for k, v in pk.items():
        v = v.name if hasattr(v, "name") else v
        if k in RADIO:
            radio[k.upper()] = v
        elif k in GROUP:
            design.setdefault(GROUP[k], {})[k.upper()] = v
        else:
            design[k.upper()] = v
    if cand is not None:
        design["CANDIDATE_TOPOLOGY_FILE_PATH"] = cand
    d = dict(RADIO=radio, NETWORK_DESIGN=design, **(extra or {}))
    if system is not None:
        d["SYSTEM"] = {k.upper(): v for k, v in system.items()}
    return d


def spell(d, how):
    if isinstance(d, dict):
        f = {0: str, 1: str.lower, 2: lambda k: k.title() + " "}[how]
        return {f(k): spell(v, how) for k, v in d.items()}
    if isinstance(d, list):
        return [spell(x, how) for x in d]
    return d


def write_cfg(tmp, cfg, kind, how):
    p = os.path.join(tmp, "plan." + kind)
    with open(p, "w") as f:
        (json.dump if kind == "json" else yaml.safe_dump)(spell(cfg, how), f)
    return p


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for x in fs:
            with open(os.path.join(a, x), "rb") as f:
                out[os.path.relpath(os.path.join(a, x), d)] = f.read()
    return out


def put_candidate(tmp, t, src):
    """The candidate network as a file."""
    f = os.path.join(tmp, "cand.kml")
    write_to_kml_file(t, f)
    if src == "kml":
        return f
    s = os.path.join(tmp, "sites.csv")
    with open(s, "w", newline="") as h:
        w = csv.writer(h)
        w.writerow(["name", "latitude", "longitude", "altitude", "site type", "device sku", "status"])
        for x in t.sites.values():
            w.writerow([x.name, repr(x.latitude), repr(x.longitude), x.altitude, x.site_type.name, x.device.device_sku, x.status_type.name])
    l = os.path.join(tmp, "links.csv")
    with open(l, "w", newline="") as h:
        w = csv.writer(h)
        w.writerow(["tx_site_name", "rx_site_name", "confidence_level"])
        for x in t.links.values():
            w.writerow([x.tx_site.name, x.rx_site.name, x.confidence_level])
    z = os.path.join(tmp, "cand.zip")
    with zipfile.ZipFile(z, "w") as zf:
        zf.write(s, "sites.csv")
        zf.write(l, "links.csv")
    return z


def attempt(f):
    try:
        return f(), None
    except PlannerException as e:
        return None, f"{type(e).__name__}: {e}"


DEBUG_KML = {"prepared_topology", "min_cost_topology", "min_interference_topology", "optimized_topology"}
FILES = {"reporting_topology.kml", "metrics.yaml", "link.csv", "site.csv", "sector.csv"}


def planned(item, c):
    inst, pk, src, kind, how, debug, log, where = item
    msg = str(item)
    with tempfile.TemporaryDirectory() as tmp, Quiet():
        t = c25.build(inst)
        for l in [l for l in t.links.values() if not l.is_wireless]:
            t.remove_link(l.link_id)  # files hold wireless links
        cand = put_candidate(tmp, t, src)
        # what is asked for
        ref = os.path.join(tmp, "ref")
        os.mkdir(ref)
        current_system_params.output_dir = ref
        current_system_params.debug_mode = False
        p = OptimizerParams(device_list=devices(), **pk)

        def direct():
            x = extract_topology_from_file(cand, p.device_list, None)
            to.optimize_and_report_topology(x, p)
            return x

        want, err = attempt(direct)
        # the same from a file
        out = {"there": os.path.join(tmp, "out"), "new": os.path.join(tmp, "a", "b"), "relative": "rel", "none": None}[where]
        if where == "there":
            os.mkdir(out)
        os.mkdir(os.path.join(tmp, "cwd"))
        os.chdir(os.path.join(tmp, "cwd"))
        logf = os.path.join(tmp, "run.log")
        system = dict(debug_mode=debug, log_to_stderr=bool(log & 1), logger_level=("INFO", "WARNING", "debug")[log // 4])
        if log & 2:
            system["log_file"] = logf
        if out is not None:
            system["output_dir"] = out
        if where == "none" and not debug and log == 0:
            system = None
        cfg = write_cfg(tmp, config(system, pk, cand), kind, how)
        got, err2 = attempt(lambda: to.optimize_and_report_topology_with_config_file(cfg))
        c.state(msg)
        c.outcome(err)
        c.eq(err2, err, "error", msg)
        final = os.path.join(tmp, "cwd") if where == "none" else os.path.join(tmp, "cwd", "rel") if where == "relative" else out
        files = tree(final)
        if err is None and err2 is None:
            for k, (a, b) in enumerate(zip(c25.plan_of(got), c25.plan_of(want))):
                c.eq(a, b, f"plan-{k}", msg)
            refs = tree(ref)
            c.check(FILES <= {os.path.basename(x) for x in refs} or not any(s.status_type in c25.ACTIVE for s in want.sites.values()), "output-files", f"{sorted(refs)} {msg}")
            outs = {k: v for k, v in files.items() if not k.startswith("debug")}
            c.eq(sorted(outs), sorted(refs), "output-names", msg)
            for k in refs:
                c.check(outs.get(k) == refs[k], "output-content", f"{k}: {msg}")
        dbg = {k: v for k, v in files.items() if k.startswith("debug")}
        if not debug:
            c.check(not dbg, "debug-off", f"{sorted(dbg)}: {msg}")
        elif err is None:
            debug_files(c, dbg, final, p, want, pk, msg)
        # log
        root = logging.getLogger()
        level = {"INFO": 20, "WARNING": 30, "debug": 10}[system["logger_level"]] if system else 20
        c.eq(root.level, level, "log-level", msg)
        kinds = sorted(type(h).__name__ for h in root.handlers)
        c.eq(kinds, sorted(["FileHandler"] * bool(system and log & 2) + ["StreamHandler"] * bool(system is None or log & 1)), "log-handlers", msg)
        c.eq(os.path.exists(logf), bool(system and log & 2), "log-file", msg)
        if system and log & 2:
            for h in root.handlers:
                h.flush()
            text = open(logf).read()
            lv = set(re.findall(r"^[\d\-: ,]+ - ([A-Z]+) - ", text, re.M))
            c.check(all(getattr(logging, x) >= level for x in lv), "log-levels", f"{lv}: {msg}")
            if level <= 20 and err is None:
                c.check("INFO" in lv, "log-content", f"{text[:200]}: {msg}")
                c.check("reporting_topology has been dumped to" in text, "log-content", msg)


def debug_files(c, dbg, final, p, want, pk, msg):
    stems = {}
    for k in dbg:
        b = os.path.basename(k)
        stems.setdefault(re.sub(r"_\d+(\.kml|\.lp)?$", "", b), []).append(k)
    need = DEBUG_KML | ({"max_coverage_topology"} if pk.get("enable_legacy_redundancy_method", True) else {"redundant_topology"})
    need = need | {"cost_optimization", "interference_optimization", "common_buffer_optimization"}
    c.check(need <= set(stems), "debug-files", f"{sorted(need - set(stems))} missing of {sorted(stems)}: {msg}")
    for k in stems.get("optimized_topology", []):
        r = extract_topology_from_file(os.path.join(final, k), p.device_list, None)
        c.eq(sorted((s.name, s.status_type.name) for s in r.sites.values()), sorted((s.name, s.status_type.name) for s in want.sites.values()), "debug-plan", msg)
    for k in stems.get("prepared_topology", []):
        r = extract_topology_from_file(os.path.join(final, k), p.device_list, None)
        c.eq(sorted(s.name for s in r.sites.values()), sorted(s.name for s in want.sites.values()), "debug-prepared", msg)


# ---- from the map to the plan ------------------------------------------------
def mapped(item, c):
    wall, houses, elev, zone, ell, pk, debug, kind = item
    msg = str(item)
    with tempfile.TemporaryDirectory() as tmp, Quiet():
        d = tmp
        data = dict(boundary_polygon_file_path=c12.save(d, "bound.kml", c12.kml(c12.poly_pm("b", c12.BOUND))))
        pm = "".join(c12.folder(k, "".join(c12.point_pm(n, x, y, 130.0) for n, t, x, y in c12.INPUT if t == k)) for k in ("POP", "DN", "CN"))
        pm += c12.folder("zones", "".join(c12.poly_pm(f"z{k}", z) for k, z in enumerate(c12.ZONES[zone])))
        data["site_file_path"] = c12.save(d, "sites.kml", c12.kml(pm))
        t, h = c12.grid(c12.WALLS[wall], houses)
        for name, m in (("dsm", t + h), ("dtm", t), ("dhm", h)):
            if name in elev:
                f = os.path.join(d, name + ".tif")
                ElevationLoader().write(f, raster(m, c12.L + c12.GL, c12.T + c12.GT, c12.RES))
                data["dsm_file_paths" if name == "dsm" else name + "_file_path"] = [f] if name == "dsm" else f
        if houses:
            data["building_outline_file_path"] = c12.save(d, "houses.kml", c12.kml("".join(c12.poly_pm(f"h{k}", v) for k, v in c12.HOUSES.items())))
        lk = dict(use_ellipsoidal_los_model=ell, num_processors=1, maximum_los_distance=180, minimum_los_distance=40, maximum_elevation_scan_angle=30, los_confidence_threshold=0.6)
        sd = dict(dn_deployment=True, detect_highest=True, detect_centers=False, detect_corners=True)
        out, ref, again = (os.path.join(tmp, x) for x in ("out", "ref", "again"))
        os.mkdir(ref)
        os.mkdir(again)
        current_system_params.output_dir, current_system_params.debug_mode = ref, False
        lp = LOSParams(device_list=devices(), site_detection=SiteDetectionParams(**sd), **lk, **{k: v for k, v in pk.items() if k in RADIO})
        cand = core.generate_candidate_topology(lp, GISDataParams(**data))
        edges = lambda t: sorted((a.name or a.site_id, b.name or b.site_id, round(l.confidence_level, 6)) for l in t.links.values() for a, b in [(l.tx_site, l.rx_site)])  # noqa
        first = edges(cand)
        p = OptimizerParams(device_list=devices(), **pk)
        _, err = attempt(lambda: to.optimize_and_report_topology(cand, p))
        # one run from the configuration file
        los = {k.upper(): v for k, v in lk.items()}
        los["SITE_DETECTION"] = {k.upper(): v for k, v in sd.items()}
        cfg = config(dict(output_dir=out, debug_mode=debug, log_to_stderr=False), pk, None, dict(DATA={k.upper(): v for k, v in data.items()}, LINE_OF_SIGHT=los))
        os.mkdir(out)
        path = write_cfg(tmp, cfg, kind, 0)
        got, err2 = attempt(lambda: to.optimize_and_report_topology_with_config_file(path))
        c.state(msg)
        c.outcome(err, len(first))
        c.eq(err2, err, "map-error", msg)
        if err is None and err2 is None:
            for k, (a, b) in enumerate(zip(c25.plan_of(got), c25.plan_of(cand))):
                c.eq(a, b, f"map-plan-{k}", msg)
            a, b = ({k: v for k, v in tree(x).items() if not k.startswith("debug")} for x in (out, ref))
            c.eq(sorted(a), sorted(b), "map-files", msg)
            c.check("output/candidate_topology.kml" in a, "map-candidate", msg)
            for k in b:
                c.check(a.get(k) == b[k], "map-content", f"{k}: {msg}")
        c.eq(any(k.startswith("debug") for k in tree(out)), debug, "map-debug", msg)
        # only the candidate network
        os.mkdir(os.path.join(tmp, "los"))
        cfg["SYSTEM"]["OUTPUT_DIR"] = os.path.join(tmp, "los")
        path = write_cfg(tmp, cfg, kind, 1)
        only = core.generate_candidate_topology_with_config_file(path)
        c.eq(edges(only), first, "map-links", msg)
        c.eq(sorted(tree(os.path.join(tmp, "los"))), ["output/candidate_topology.kml"], "map-only-candidate", msg)
        # planning in two runs: the candidate network written by the first is the input of the second
        cfg = config(dict(output_dir=again, log_to_stderr=False), pk, os.path.join(ref, "output", "candidate_topology.kml"))
        path = write_cfg(tmp, cfg, kind, 0)
        two, err3 = attempt(lambda: to.optimize_and_report_topology_with_config_file(path))
        c.eq(err3, err, "two-runs-error", msg)
        if err is None and err3 is None:
            a, b = c25.plan_of(two), c25.plan_of(cand)
            c.eq(a[0], b[0], "two-runs-sites", msg)
            c.eq([x[:4] for x in a[1]], [x[:4] for x in b[1]], "two-runs-links", msg)


# ---- one run after the other -------------------------------------------------
SYSTEMS = [
    None,
    dict(output_dir="one", log_file="one.log", log_to_stderr=False),
    dict(output_dir="two", debug_mode=True, logger_level="ERROR", log_file="two.log"),
    dict(logger_level="DEBUG", log_to_stderr=False),
    dict(log_file="one.log", logger_level="WARNING", log_to_stderr=True),
    dict(debug_mode=True),
]
DEFAULT = dict(output_dir="./", debug_mode=False, logger_level="INFO", log_file=None, log_to_stderr=True)


def histories(item, c):
    """Every run has exactly the settings of its own file."""
    with tempfile.TemporaryDirectory() as tmp, Quiet():
        os.chdir(tmp)
        texts = {}
        for n, k in enumerate(item):
            s = SYSTEMS[k]
            path = write_cfg(tmp, config(s, {}, None), "yaml", 0)
            set_system_control_with_config_file(path)
            want = dict(DEFAULT, **(s or {}))
            got = {x: getattr(current_system_params, x) for x in SYS}
            got["logger_level"] = got["logger_level"].name
            c.eq(got, want, "settings", str(item))
            root = logging.getLogger()
            c.eq(root.level, getattr(logging, want["logger_level"]), "level", str(item))
            c.eq(sorted(type(h).__name__ for h in root.handlers), sorted(["FileHandler"] * (want["log_file"] is not None) + ["StreamHandler"] * want["log_to_stderr"]), "handlers", str(item))
            for q, lv in enumerate(("debug", "info", "warning", "error")):
                m = f"run{n}-{lv}"
                getattr(logging.getLogger("terragraph_planner.some.module"), lv)(m)
                if want["log_file"] and getattr(logging, lv.upper()) >= root.level:
                    texts.setdefault(want["log_file"], []).append(f"{lv.upper()} - {m}")
            for h in root.handlers:
                h.flush()
            for f in ("one.log", "two.log"):
                have = [x.split(" - ", 1)[1] for x in open(f).read().splitlines() if "run" in x] if os.path.exists(f) else []
                c.eq(have, texts.get(f, []), "log-lines", f"{item} {f}")
            c.state((item[: n + 1],))


PARAMS = [
    dict(),
    dict(number_of_channels=2, demand=0.6),
    dict(enable_legacy_redundancy_method=True, budget=9000.0, demand=0.4),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.HIGH),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.LOW, demand=0.5, pop_site_capex=0.0),
    dict(number_of_extra_pops=1, demand=0.9),
    dict(maximize_common_bandwidth=True, demand=0.7),
    dict(topology_routing=TopologyRouting.DPA_PATH, rain_rate=50.0),
    dict(maximum_eirp=38.0, maximum_number_hops=3, availability_sim_time=0.0),
]


def main(r):
    q = r.quick
    n = 3 if q else 4
    r.map(histories, [h for k in range(1, n + 1) for h in itertools.product(range(len(SYSTEMS)), repeat=k)], name="run-after-run")
    base = [i for i, _ in c25.items(True)] + [i for i, _ in c25.rings(True)] * 2
    out = []
    k = 0
    for src, kind, how, debug, log, where in itertools.product(("kml", "zip"), ("yaml", "json", "yml"), (0, 1, 2), (False, True), (0, 1, 2, 3, 6, 7, 10), ("there", "new", "relative", "none")):
        for rep in range(1 if q else 3):
            k += 1
            if q and mix(k * 13) % 4:
                continue
            inst = base[mix(k * 3) % len(base)]
            if src == "zip":  # no status in the csv files
                inst = dict(sites=[(t, x, y, tg.CANDIDATE, d) for t, x, y, s, d in inst["sites"]], links=[(i, j, tg.CANDIDATE, w, o) for i, j, s, w, o in inst["links"]])
            out.append((inst, PARAMS[mix(k * 7) % len(PARAMS)], src, kind, how, debug, log, where))
    r.map(planned, out, name="plan-from-file")
    out = []
    k = 0
    for wall, houses, elev, zone, ell in itertools.product(c12.WALLS, (False, True), (("dsm",), ("dtm", "dhm"), ("dsm", "dtm"), ("dsm", "dhm")), ("none", "pop-dn1", "two"), (False, True)):
        k += 1
        if q and mix(k * 5) % 6:
            continue
        for rep in range(1 if q else 3):
            out.append((wall, houses, elev, zone, ell, PARAMS[mix(k * 3 + rep) % len(PARAMS)], mix(k + rep) % 3 == 0, ("yaml", "json")[mix(k) % 2]))
    r.map(mapped, out, name="map-to-plan", limit=600)

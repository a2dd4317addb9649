"""C18: the report of a plan (counts, costs, metrics, tables, files) describes the plan."""
import collections
import itertools
import math
import os
import tempfile

import numpy as np
import pandas as pd
import tg
import yaml
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE, DemandSite, Link, Sector, Topology
from terragraph_planner.common.configuration.enums import LinkType, TopologyRouting
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_report as tr
from terragraph_planner.optimization.structs import AngleViolatingLinkPairs, DisjointPath, FlowSolution, RoutingSolution
from terragraph_planner.optimization.topology_component_counter import count_topology_components
from terragraph_planner.optimization.topology_operations import compute_capex

ACTIVE = (PROPOSED, EXISTING)
REACH = ACTIVE + (CANDIDATE,)
XY = [(0, 0), (150, 10), (40, 160), (200, 190), (330, 60), (-80, 120)]
DN2 = tg.dn_device("DN_TWO", nodes=2, sectors=2, hsr=60.0, capex=71.0)
CN2 = tg.cn_device("CN_TWO", capex=13.0)
CNM = tg.cn_device("CN_DEV", capex=17.0)
DNM = tg.dn_device("DN_DEV", nodes=4, sectors=2, hsr=40.0, capex=250.0)
OVER = {4: 2.5, 1: 1.0, 7: 1.2, 10: 3.0}
CAPEX = {POP: 1500.25, DN: 900.5, CN: 100.0}


def sector_status(st, node, pick):
    """Nodes are deployed as a whole; planned ones may be partly active."""
    if st not in ACTIVE:
        return st
    return EXISTING if node % 4 == 1 and st == EXISTING else (PROPOSED, CANDIDATE)[pick % 2]


def link_status(a, b, pick):
    if UNAVAILABLE in (a, b):
        return None if UNREACHABLE in (a, b) else UNAVAILABLE
    if UNREACHABLE in (a, b):
        return UNREACHABLE
    if CANDIDATE in (a, b):
        return (CANDIDATE, UNAVAILABLE, UNREACHABLE)[pick % 3]
    if a == b == EXISTING:
        return (EXISTING, CANDIDATE, PROPOSED, UNAVAILABLE)[pick % 4]
    return (PROPOSED, CANDIDATE, PROPOSED, UNAVAILABLE)[pick % 4]


class Plan:
    """types, place per site, SKU variant per site, status per site, choice per pair of
    sites (None, "w" wireless, "e" wired, "o" out of sector), two seeds of variation."""

    def __init__(self, types, places, skus, statuses, choice, seed=0, demands=(), bare=False):
        n = len(types)
        self.types, self.places, self.skus, self.statuses, self.n = types, places, skus, statuses, n
        self.sites = [tg.site(t, *XY[p], alt=5.0 + 1.234567 * ((p + seed) % 4), status=s, name=f"n{i}" if (seed + i) % 3 else "", device=(CN2 if k else CNM) if t == CN else (DN2 if k else DNM)) for i, (t, p, k, s) in enumerate(zip(types, places, skus, statuses))]
        self.sectors, self.sec = {}, []  # (site, node, position) -> sector
        m = seed
        for i, s in enumerate(self.sites):
            for node in range(0 if bare else 1 if types[i] == CN else 2):
                for pos in range(1 if types[i] == CN else 1 + (i + node + seed) % 2):
                    m = m * 5 + 3 + i
                    # neighbours cycle through the combinations of a node
                    self.sectors[i, node, pos] = Sector(s, node, pos, 45.0 * (node * 2 + pos), sector_status(s.status_type, seed + i + node, m // 3), channel=0)
        self.links = {}
        self.objs = {}
        pairs = [p for p in itertools.combinations(range(n), 2) if places[p[0]] != places[p[1]] and not (types[p[0]] == types[p[1]] == CN)]
        self.pairs = pairs
        for k, (p, ch) in enumerate(zip(pairs, choice)):
            i, j = p
            if not ch or (CN in (types[i], types[j]) and ch == "e"):
                continue
            st = link_status(statuses[i], statuses[j], k + seed)
            if st is None:
                continue
            si, sj = [(x, (k // 2 + x) % 2 if types[x] != CN else 0, 0) for x in (i, j)]
            if ch == "o" and st in ACTIVE:
                st = CANDIDATE
            if ch == "w" and st in ACTIVE:
                for s in (si, sj):
                    self._activate(s, st)
            self.links[p] = (ch, st, si, sj)
        # sectors in use share one channel per connected group
        group = {s: s for s in self.sectors}

        def root(s):
            while group[s] != s:
                s = group[s]
            return s

        for ch, st, si, sj in self.links.values():
            if ch == "w":
                group[root(si)] = root(sj)
        roots = sorted({root(s) for s in group})
        for s, o in self.sectors.items():
            if o.status_type in ACTIVE:
                o.channel = roots.index(root(s)) % 3
        for (i, j), (ch, st, si, sj) in self.links.items():
            for a, b, sa, sb in ((i, j, si, sj), (j, i, sj, si)):
                if types[a] == CN:
                    continue
                l = Link(self.sites[a], self.sites[b], self.sectors[sa] if ch == "w" else None, self.sectors[sb] if ch == "w" else None, st, is_wireless=ch != "e", confidence_level=0.5 if a < b else None)
                l.mcs_level = 2 + (3 * a + 5 * b + seed) % 9
                self.objs[a, b] = l
        self.id = [s.site_id for s in self.sites]
        self.demands = demands
        self.dsites = [DemandSite(tg.utm(500.0 + 10 * k, 500.0), demand=0.25 * (k + 1), num_sites=1 + (k + seed) % 2, connected_sites=[self.sites[i] for i in d]) for k, d in enumerate(demands)]
        self.t = Topology(sites=self.sites, links=list(self.objs.values()), sectors=list(self.sectors.values()), demand_sites=self.dsites)

    def _activate(self, s, st):
        new = lambda k, x: Sector(self.sectors[k].site, k[1], k[2], self.sectors[k].ant_azimuth, x)
        if st == EXISTING:
            for k in self.sectors:
                if k[:2] == s[:2]:
                    self.sectors[k] = new(k, EXISTING)
        elif self.sectors[s].status_type not in ACTIVE:
            self.sectors[s] = new(s, PROPOSED)

    def kind(self, i, j, ch):
        return LinkType.ETHERNET if ch == "e" else LinkType.WIRELESS_ACCESS if CN in (self.types[i], self.types[j]) else LinkType.WIRELESS_BACKHAUL

    def phys(self, i, j):
        return frozenset(((self.places[i], self.types[i]), (self.places[j], self.types[j])))

    def hops(self, flt):
        d = {i: 0 for i in range(self.n) if self.types[i] == POP and self.statuses[i] in flt}
        while True:
            new = {}
            for (a, b), l in self.objs.items():
                if a in d and l.status_type in flt and self.statuses[b] in flt and d[a] + 1 < d.get(b, math.inf):
                    new[b] = d[a] + 1
            if not new:
                return d
            d.update(new)

    def __repr__(self):
        return f"{[t.name for t in self.types]} at {self.places} sku={self.skus} {[s.name for s in self.statuses]} links={ {p: (v[0], v[1].name, v[2], v[3]) for p, v in self.links.items()} } sectors={ {k: (v.status_type.name, v.channel) for k, v in self.sectors.items()} } demands={self.demands}"


def want_counts(p):
    w = {}
    tn = {POP: "pop", DN: "dn", CN: "cn"}
    act = [i for i in range(p.n) if p.statuses[i] in ACTIVE]
    w["active_sites"] = len(act)
    for t, n in tn.items():
        w[f"active_{n}_sites"] = sum(p.types[i] == t for i in act)
        # candidates of one type at one place are alternatives
        w[f"total_{n}_sites"] = len({p.places[i] for i in range(p.n) if p.types[i] == t})
    w["total_sites"] = sum(w[f"total_{n}_sites"] for n in tn.values())
    h = p.hops(REACH)
    for t in (DN, CN):
        w[f"connectable_{tn[t]}_sites"] = len({p.places[i] for i in h if p.types[i] == t})
    for t, n in tn.items():
        w[f"active_demand_connected_{n}_sites"] = len({i for d in p.demands for i in d if p.types[i] == t and p.statuses[i] in ACTIVE})
    for scope, flt in (("active", ACTIVE), ("total", tg.STATUSES)):
        secs = {k for k, s in p.sectors.items() if s.status_type in flt}
        w[f"{scope}_sectors"] = len(secs)
        w[f"{scope}_nodes"] = len({k[:2] for k in secs})
        w[f"{scope}_dn_nodes"] = len({k[:2] for k in secs if p.types[k[0]] != CN})
        w[f"{scope}_cn_nodes"] = len({k[:2] for k in secs if p.types[k[0]] == CN})
        if scope == "active":
            w["active_cn_sectors"] = sum(p.types[k[0]] == CN for k in secs)
            w["active_dn_sectors_on_pops"] = sum(p.types[k[0]] == POP for k in secs)
            w["active_dn_sectors_on_dns"] = sum(p.types[k[0]] == DN for k in secs)
        for lt, n in ((LinkType.WIRELESS_BACKHAUL, "backhaul"), (LinkType.WIRELESS_ACCESS, "access"), (LinkType.ETHERNET, "wired")):
            w[f"{scope}_{n}_links"] = len({p.phys(i, j) for (i, j), l in p.links.items() if l[1] in flt and p.kind(i, j, l[0]) == lt})
    return w


def backups(p, flt):
    n = collections.Counter(b for (a, b), l in p.objs.items() if p.types[b] == CN and p.statuses[b] in ACTIVE and l.status_type in flt and l.tx_sector is not None and l.tx_sector.status_type in ACTIVE)
    return sum(v > 1 for v in n.values())


def want_capex(p):
    tot = {PROPOSED: 0.0, EXISTING: 0.0}
    for i in range(p.n):
        if p.statuses[i] in ACTIVE:
            tot[p.statuses[i]] += CAPEX[p.types[i]]
        for node in {k[1] for k in p.sectors if k[0] == i}:
            st = {s.status_type for k, s in p.sectors.items() if k[:2] == (i, node)}
            # a node with an existing sector has been bought already
            x = EXISTING if EXISTING in st else PROPOSED if PROPOSED in st else None
            if x:
                tot[x] += (CN2.node_capex if p.skus[i] else CNM.node_capex) if p.types[i] == CN else (DN2.node_capex if p.skus[i] else DNM.node_capex)
    return sum(tot.values()), tot[PROPOSED]


def params(**kw):
    return tg.opt_params(device_list=[DNM, DN2, CNM, CN2], pop_site_capex=CAPEX[POP], dn_site_capex=CAPEX[DN], cn_site_capex=CAPEX[CN], **{"availability_sim_time": 0, **kw})


def counts(item, c):
    types, places, skus, choices, chunk, seeds, demands = item
    sts = list(itertools.product(tg.STATUSES, repeat=len(types)))[chunk[0] :: chunk[1]]
    par = params()
    for k, st in enumerate(sts):
        ch = choices[(k + chunk[0]) % len(choices)]
        p = Plan(types, places, skus, st, ch, seeds[k % len(seeds)], demands)
        got, sku, chan = count_topology_components(p.t)
        got = got._asdict()
        b = got.pop("active_cns_with_backup_dns")
        want = want_counts(p)
        for f in want:
            c.eq(got.pop(f), want[f], f"count-{f}", f"{p}")
        c.eq(got, {}, "counts-unknown", f"{p}")
        c.check(backups(p, ACTIVE) <= b <= backups(p, tg.STATUSES), "count-backup", f"{b} {p}")
        c.eq({k: v for k, v in sku.items() if v}, dict(collections.Counter(s.device.device_sku for s in p.sites if s.status_type in ACTIVE)), "count-sku", f"{p}")
        wc = collections.Counter()
        for (i, j), l in p.links.items():
            if l[1] in ACTIVE and l[0] != "e":
                wc[p.sectors[l[2]].channel if l[0] == "w" else -1] += 1
        c.eq(dict(chan), dict(wc), "count-channels", f"{p}")
        cap = compute_capex(p.t, par)
        wt, wp = want_capex(p)
        c.close(cap.total_capex, wt, "capex-total", f"{p}")
        c.close(cap.proposed_capex, wp, "capex-proposed", f"{p}")
        c.outcome(tuple(want.values()), wt, wp)
    c.state(item)


# ---------------------------------------------------------------- metrics
def stat(v, n=None, whole=True):
    n = len(v) if n is None else n
    return (sum(v) / n if n else 0.0, max(v, default=0), min(v, default=0) if whole else 0)


def want_links(p, lt):
    """Per active sector of a DN or POP: the links of this type."""
    per = {k: set() for k, s in p.sectors.items() if s.status_type in ACTIVE and p.types[k[0]] != CN}
    dist = []
    for (a, b), l in p.objs.items():
        if l.status_type in ACTIVE and l.link_type == lt:
            dist.append(l.distance)
            if lt != LinkType.ETHERNET:
                _, _, si, sj = p.links[min(a, b), max(a, b)]
                for k in (si, sj):
                    if k in per:
                        per[k].add(p.phys(a, b))
    return [len(v) for v in per.values()], dist


def metrics(item, c):
    """Statistics over given failures, availability, flow and violations."""
    plan, fail = item
    p = Plan(*plan)
    npop = sum(1 for i in range(p.n) if p.types[i] == POP and p.statuses[i] in ACTIVE)
    ndn = sum(1 for i in range(p.n) if p.types[i] == DN and p.statuses[i] in ACTIVE)
    pops = [p.id[i] for i in range(p.n) if p.types[i] == POP and p.statuses[i] in ACTIVE]
    dns = [p.id[i] for i in range(p.n) if p.types[i] == DN and p.statuses[i] in ACTIVE]
    nd, npf, ndf, ef, avail, flow, two, top, off = fail
    # links an earlier run called redundant are links of the plan all the same
    for x, l in enumerate(p.objs.values()):
        if nd % 3 == 1 and (x + nd) % 2:
            l.is_redundant = True
    S = lambda k: {f"d{x}" for x in range(k)}
    edge = {(f"x{i}", f"y{i}"): S(k) for i, k in enumerate(ef)}
    popf = {s: S(k) for s, k in zip(pops, npf)}
    dnf = {s: S(k) for s, k in zip(dns, ndf)}
    keys = [(p.id[a], p.id[b]) for (a, b), l in p.objs.items() if l.status_type in ACTIVE]
    rs = None
    if flow is not None:
        util = {k: 7.0 + 11.0 * x for x, k in enumerate(keys)}
        rs = RoutingSolution(FlowSolution({k: 0.1 * x for x, k in enumerate(keys)}, {}, flow, set(list(S(len(p.demands)))[: max(1, len(p.demands) - 1)])), util)
    par = params(oversubscription=OVER[nd])
    m = tr.get_topology_metrics(
        p.t, par, rs, DisjointPath(S(two), S(off), S(top)), edge, popf, dnf, {f"d{i}": v for i, v in enumerate(avail)},
        AngleViolatingLinkPairs([("a", "b", "c")] * two, [("a", "b", "c")] * off), {f"s{i}": [] for i in range(top)},
    )
    msg = f"{fail} {p}"
    c.eq((m.diff_sector_link_violations, m.near_far_link_violations, m.sector_link_limit_violations), (two, off, top), "metric-violations", msg)
    d = m.demand_metrics
    c.eq((d.number_of_demands, d.number_of_disconnected_demands, d.number_of_demands_connected_to_pops, d.number_of_demands_with_disjoint_path), (len(p.demands), off, top, two), "metric-demand-counts", msg)
    c.close(d.percentage_of_demand_with_disjoint_path, 100.0 * two / (len(p.demands) - top) if len(p.demands) > top else 0, "metric-disjoint", msg)
    td = sum(x.demand * x.num_sites for x in p.dsites)
    c.close((d.total_demand, d.total_demand_oversubscribed), (td, td / OVER[nd]), "metric-total-demand", msg)
    c.close(tuple(m.failure_disruption.edge_fail_effect), stat(ef), "metric-edge-failures", msg)
    a, b = list(npf)[:npop], list(ndf)[:ndn]
    c.close(tuple(m.failure_disruption.pop_fail_effect), stat(a, npop, len(a) == npop), "metric-pop-failures", msg)
    c.close(tuple(m.failure_disruption.dn_fail_effect), stat(b, ndn, len(b) == ndn), "metric-dn-failures", msg)
    av = sorted(avail)
    c.close(m.availability_metrics.avg, 100 * sum(av) / len(av) if av else 0, "metric-availability", msg)

    def pct(q):
        if not av:
            return 0.0
        x = (len(av) - 1) * q / 100
        lo = math.floor(x)
        return 100 * (av[lo] + (x - lo) * (av[min(lo + 1, len(av) - 1)] - av[lo]))

    c.close(dict(m.availability_metrics.percentiles), {q: pct(q) for q in (0, 25, 50, 75, 100)}, "metric-percentiles", msg)
    for lt, got, mcs in ((LinkType.WIRELESS_BACKHAUL, m.backhaul_link, m.backhaul_mcs), (LinkType.WIRELESS_ACCESS, m.access_link, m.access_mcs)):
        per, dist = want_links(p, lt)
        c.close(tuple(got.links_per_sector), stat(per), f"metric-links-per-sector", f"{lt} {per} {msg}")
        c.close(tuple(got.link_dist), stat(dist), "metric-link-dist", f"{lt} {msg}")
        lv = {}
        for (a, b), l in p.objs.items():
            if l.status_type in ACTIVE and l.link_type == lt:
                lv.setdefault(frozenset((a, b)), set()).add(l.mcs_level)
        # one class per pair of sites (of one of its directions)
        c.check(sum(mcs.values()) == len(lv) and any(collections.Counter(x) == mcs for x in itertools.product(*lv.values())), "metric-mcs", f"{lt} {mcs} {lv} {msg}")
        c.eq(got.active_count, want_counts(p)["active_backhaul_links" if lt == LinkType.WIRELESS_BACKHAUL else "active_access_links"], "metric-active", msg)
    if rs is None:
        c.eq(m.flow_metrics, None, "metric-flow", msg)
    else:
        f = m.flow_metrics
        n = len(rs.flow_solution.connected_demand_sites)
        c.close((f.total_bandwidth, f.minimum_bandwdith_for_connected_demand), (flow * n, flow), "metric-bandwidth", msg)
        c.close(tuple(f.link_capacity_utilization), stat(list(util.values())), "metric-utilization", msg)
    c.state(item)


# ---------------------------------------------------------------- the whole analysis
def simulated(item, c):
    """Availability of a simulation: the same seed gives the same plan the same numbers,
    which are those of the demands connected in it."""
    plan, seed, pct, hours = item
    got = []
    for _ in range(2):
        p = Plan(*plan)
        m = tr.analyze(p.t, params(link_availability_percentage=pct, availability_seed=seed, availability_sim_time=hours)).metrics.availability_metrics
        got.append((m.avg, dict(m.percentiles)))
    c.eq(got[0], got[1], "availability-seed", f"{item}")
    avg, q = got[0]
    v = [q[k] for k in sorted(q)]
    reached = p.hops(ACTIVE)
    if any(i in reached for d in p.demands for i in d):
        c.check(-1e-9 <= v[0] <= avg + 1e-6 and avg <= v[-1] + 1e-6 and v[-1] <= 100 + 1e-6 and v == sorted(v), "availability-range", f"{item} {got}")
    else:
        c.eq((avg, set(v)), (0, {0}), "availability-none", f"{item}")
    c.outcome(got[0][0])
    c.state(item)


def analysis(item, c):
    types, places, skus, statuses, choice, seed, demands, routing, lim = item
    p = Plan(types, places, skus, statuses, choice, seed, demands)
    # a network whose POPs cannot send is rejected up front
    if not any(types[a] == POP and l.link_type == LinkType.ETHERNET or types[a] == POP and l.tx_sector is not None for (a, b), l in p.objs.items()):
        return
    par = params(topology_routing=routing, dn_dn_sector_limit=lim[0], dn_total_sector_limit=lim[1], diff_sector_angle_limit=lim[2], near_far_angle_limit=lim[2] + 30, near_far_length_ratio=1.2)
    old = current_system_params.output_dir
    with tempfile.TemporaryDirectory() as d:
        current_system_params.output_dir = d
        os.makedirs(os.path.join(d, "output"), exist_ok=True)
        try:
            res = tr.analyze_with_dump(p.t, par)
        finally:
            current_system_params.output_dir = old
        out = {}
        for f in ("link", "site", "sector"):
            path = os.path.join(d, "output", f + ".csv")
            with open(path) as fh:
                out[f] = pd.read_csv(fh, keep_default_na=False) if len(fh.read().strip()) > 2 and not fh.seek(0) else None
        with open(os.path.join(d, "output", "metrics.yaml")) as fh:
            ym = yaml.safe_load(fh)
        c.check(os.path.exists(os.path.join(d, "output", "reporting_topology.kml")), "no-kml", "")
    tables(p, par, res, out, ym, c, f"routing={routing} lim={lim} {p}")
    c.state(item)


def yn(x):
    return {"True": True, "False": False}.get(str(x), x)


def num(x):
    return float(x)


def tables(p, par, res, out, ym, c, msg):
    t, m = p.t, res.metrics
    # the metrics file is the metrics
    plain = lambda v: {k: plain(x) for k, x in (v._asdict() if hasattr(v, "_asdict") else v).items()} if hasattr(v, "_asdict") or isinstance(v, dict) else v
    c.eq(ym, plain(m), "yaml", msg)
    flow = {(a, b): l.proposed_flow or 0.0 for (a, b), l in p.objs.items()}
    act = {k for k, l in p.objs.items() if l.status_type in ACTIVE}
    wired_or_sector = lambda l: l.link_type == LinkType.ETHERNET or l.tx_sector is not None
    # flows: nothing on inactive links, within the capacity, balanced at every site
    for k, l in p.objs.items():
        if k not in act:
            c.close(flow[k], 0.0, "flow-inactive", f"{k} {msg}")
            continue
        c.check(-1e-6 <= flow[k] <= l.capacity + 1e-6, "flow-capacity", f"{k} {flow[k]} {l.capacity} {msg}")
        want = 100 * flow[k] / l.capacity if l.capacity > 0 else 0
        if flow[k] > 1e-5 or (k[::-1] not in act) or flow[k[::-1]] <= 1e-5:
            c.close(l.utilization, want, "utilization", f"{k} {msg}", tol=1e-5)
    vals = {frozenset(k): 0.0 for k in act}
    for k in act:
        vals[frozenset(k)] = max(vals[frozenset(k)], 100 * flow[k] / p.objs[k].capacity if p.objs[k].capacity > 0 else 0)
    fm = m.flow_metrics
    if fm is not None:
        c.close(tuple(fm.link_capacity_utilization), stat(list(vals.values())), "utilization-stats", msg, tol=1e-4)
    net = {i: sum(f for (a, b), f in flow.items() if b == i) - sum(f for (a, b), f in flow.items() if a == i) for i in range(p.n)}
    buf = fm.minimum_bandwdith_for_connected_demand if fm else 0.0
    reached = p.hops(ACTIVE)
    # routing may choose a link that carries nothing; who is served then is not specified
    routed = par.topology_routing is not None and any(p.objs[k].capacity <= 0 for k in act)
    served = {}
    nconn = 0
    for k, dm in enumerate(p.demands):
        if any(i in reached for i in dm):
            nconn += p.dsites[k].num_sites
            served[k] = buf * p.dsites[k].num_sites
    for i in range(p.n):
        mine = [k for k in served if i in p.demands[k]]
        if p.types[i] == POP or routed:
            continue
        c.check(net[i] >= -1e-6, "flow-created", f"site {i} {net} {msg}")
        if not mine:
            c.close(net[i], 0.0, "flow-balance", f"site {i} {net} {msg}", tol=1e-5)
        elif all(len([x for x in p.demands[k]]) == 1 for k in mine):
            c.close(net[i], sum(served[k] for k in mine), "flow-served", f"site {i} {net} buffer={buf} {msg}", tol=1e-4)
    if fm is not None and not routed and any(p.types[i] == POP and p.statuses[i] in ACTIVE for i in range(p.n)):
        c.close(fm.total_bandwidth, buf * nconn, "total-bandwidth", f"{served} {msg}", tol=1e-4)
    # outages: what the plan loses without a link or site
    e = {("S", i) for i in range(p.n) if p.types[i] == POP and p.statuses[i] in ACTIVE} | act | {(i, ("d", k)) for k, dm in enumerate(p.demands) for i in dm if p.statuses[i] in ACTIVE}
    base = dem(reach(e))
    bh = LinkType.WIRELESS_BACKHAUL
    lost = {k: len(base - dem(reach(e, {k, k[::-1]}))) for k in act if p.objs[k].link_type == bh}
    slost = {i: len(base - dem(reach(e, {x for x in e if x[0] == i}))) for i in range(p.n) if p.types[i] != CN}
    # links
    df = res.link_df
    limit = limits(p, par)
    if act:
        c.eq(len(df), len(p.objs), "link-rows", msg)
        rows = {(str(r["Tx Site Name"]), str(r["Rx Site Name"])): (h, r) for h, r in df.iterrows()}
        crow = {(r["Tx Site Name"], r["Rx Site Name"]): r for _, r in out["link"].iterrows()}
        c.eq(len(rows), len(p.objs), "link-names", msg)
        viol = angle_rules(p, par)
        for (a, b), l in p.objs.items():
            k = (p.sites[a].name, p.sites[b].name)
            h, r = rows[k]
            mm = f"{(a, b)} {dict(r)} {msg}"
            c.eq(h, l.link_hash, "link-hash", mm)
            ch, st, si, sj = p.links[min(a, b), max(a, b)]
            sa, sb = (si, sj) if a < b else (sj, si)
            c.eq((r["Link Type"], r["Status"]), (p.kind(a, b, ch).name, st.name), "link-type-status", mm)
            c.close(r["Distance"], round(math.dist(XY[p.places[a]], XY[p.places[b]]), 2), "link-distance", mm, tol=1e-2)
            c.close(r["Data Flow (Gbps)"], round(flow[a, b], 2), "link-flow", mm)
            c.close(r["Throughput (Gbps)"], round(l.capacity, 2), "link-capacity", mm)
            c.close(r["Utilization"], round(l.utilization or 0.0, 2), "link-utilization", mm)
            c.eq(r["Sectors"], "WIRED CONNECTION" if ch == "e" else "UNKNOWN" if ch == "o" else f"{p.sectors[sa].sector_id} --> {p.sectors[sb].sector_id}", "link-sectors", mm)
            c.eq(r["Outages Caused"], lost.get((a, b), 0), "link-outages", mm)
            c.eq(r["Confidence Level"], 0.5 if a < b else "N/A", "link-confidence", mm)
            c.eq(r["Channel"], str(p.sectors[sa].channel) if ch == "w" and st in ACTIVE else "UNASSIGNED", "link-channel", mm)
            c.eq(bool(r["Violates Sector Link Limit"]), ch == "w" and (sa in limit or sb in limit), "link-sector-limit", f"{sorted(limit)} {mm}")
            v = viol[0].get(frozenset((a, b)))
            if v is not None:
                c.eq(bool(r["Violates Diff Sector Angle Rule"]), v, "link-angle", mm)
            v = viol[1].get(frozenset((a, b)))
            if v is not None:
                c.eq(bool(r["Violates Near-Far Rule"]), v, "link-near-far", mm)
            cr = crow[k]
            c.eq(cr["Link Geohash"], h, "csv-link", mm)
            for col in df.columns:
                x, y = r[col], cr[col]
                c.check(str(x) == str(y) or isinstance(x, (int, float, np.number)) and close(num(x), num(y)), "csv-link", f"{col}: {x!r} {y!r} {mm}")
    else:
        c.eq((len(df), out["link"]), (0, None), "link-rows", msg)
    # sectors
    sd = res.sector_df
    asec = {k for k, s in p.sectors.items() if s.status_type in ACTIVE}
    per = {k: (set(), set()) for k in asec}
    for (i, j), (ch, st, si, sj) in p.links.items():
        if ch == "w" and st in ACTIVE:
            for s in (si, sj):
                per[s][CN in (p.types[i], p.types[j])].add(p.phys(i, j))
    c.eq(set(sd.index), {p.sectors[k].sector_id for k in asec}, "sector-rows", msg)
    if asec:
        csd = {r["Sector ID"]: r for _, r in out["sector"].iterrows()}
        for k in asec:
            s, r = p.sectors[k], sd.loc[p.sectors[k].sector_id]
            mm = f"{k} {dict(r)} {msg}"
            c.eq((r["Node ID"], r["Sector Position"], r["Status"], r["Channel"]), (k[1], k[2], s.status_type.name, str(s.channel)), "sector-row", mm)
            c.eq((r["Site Geohash"], r["Polarity"], r["Site Type"]), (p.sites[k[0]].site_hash, p.sites[k[0]].polarity.name, p.types[k[0]].name), "sector-site", mm)
            c.close(r["Azimuth Orientation"], s.ant_azimuth, "sector-azimuth", mm)
            c.close(r["Node Cost"], p.sites[k[0]].device.node_capex, "sector-cost", mm)
            c.eq((r["Active Backhaul Links"], r["Active Access Links"]), tuple(len(x) for x in per[k]), "sector-links", mm)
            c.eq(bool(r["Violates Link Load"]), k in limit, "sector-load", mm)
            cr = csd[s.sector_id]
            for col in sd.columns:
                x, y = r[col], cr[col]
                c.check(str(x) == str(y) or isinstance(x, (int, float, np.number)) and close(num(x), num(y)), "csv-sector", f"{col}: {x!r} {y!r} {mm}")
    c.eq(m.sector_link_limit_violations, len(limit), "sector-violations", msg)
    # sites
    si = res.site_df
    if any(s in ACTIVE for s in p.statuses):
        c.eq(len(si), p.n, "site-rows", msg)
        for (i, s), (_, r), (_, cr) in zip(enumerate(p.sites), si.iterrows(), out["site"].iterrows()):
            mm = f"site {i} {dict(r)} {msg}"
            c.eq((r["Site Geohash"], r["Status"], r["Site Type"], r["Device SKU"], r["Site Name"]), (s.site_hash, p.statuses[i].name, p.types[i].name, s.device.device_sku, s.name), "site-row", mm)
            c.close((r["Lat"], r["Lon"], r["Altitude"]), (s.latitude, s.longitude, s.altitude), "site-place", mm, tol=1e-5)
            c.eq(r["Polarity"], s.polarity.name, "site-polarity", mm)
            c.eq(r["Outages Caused"], slost.get(i, 0) if p.statuses[i] in ACTIVE else 0, "site-outages", mm)
            c.close(r["Site Capex"], CAPEX[p.types[i]], "site-capex", mm)
            c.eq(r["Active Nodes"], len({k[:2] for k in asec if k[0] == i}), "site-nodes", mm)
            c.eq(r["Active Sectors"], len({k for k in asec if k[0] == i}), "site-sectors", mm)
            c.eq(r["Active Links"], len({p.phys(*k) for k, l in p.links.items() if i in k and l[0] != "e" and l[1] in ACTIVE}), "site-links", mm)
            c.eq(r["Hops to Nearest Pop"], reached.get(i, "disconnected"), "site-hops", mm)
            c.close(r["Outgoing Flow"], sum(f for (a, b), f in flow.items() if a == i), "site-outgoing", mm)
            c.close(r["Incoming Flow"], sum(f for (a, b), f in flow.items() if b == i), "site-incoming", mm)
            for col in si.columns:
                x, y = r[col], cr[col]
                c.check(str(x) == str(y) or isinstance(x, (int, float, np.number)) and close(num(x), num(y)), "csv-site", f"{col}: {x!r} {y!r} {mm}")
    else:
        c.eq((len(si), out["site"]), (0, None), "site-rows", msg)
    c.outcome(len(act), len(asec), round(buf, 4), tuple(sorted(lost.values())), len(limit))


def limits(p, par):
    bad = set()
    for k, s in p.sectors.items():
        if s.status_type not in ACTIVE or p.types[k[0]] == CN:
            continue
        d = n = 0
        for (i, j), (ch, st, si, sj) in p.links.items():
            if ch == "w" and st in ACTIVE and k in (si, sj):
                n += 1
                d += CN not in (p.types[i], p.types[j])
        if d > par.dn_dn_sector_limit or n > par.dn_total_sector_limit:
            bad.add(k)
    return bad


def angle_rules(p, par):
    """Link pairs of one site on different sectors of one channel; None where close to a limit."""
    out = ({}, {})
    for k in p.links:
        for o in out:
            o[frozenset(k)] = False
    for i in range(p.n):
        if p.types[i] == CN:
            continue
        mine = [(k[0] if k[1] == i else k[1], l[2] if k[0] == i else l[3], frozenset(k)) for k, l in p.links.items() if i in k and l[0] == "w" and l[1] in ACTIVE]
        for (x, sx, kx), (y, sy, ky) in itertools.combinations(mine, 2):
            if sx == sy or p.sectors[sx].channel != p.sectors[sy].channel:
                continue
            o, a, b = XY[p.places[i]], XY[p.places[x]], XY[p.places[y]]
            ang = abs(math.degrees(math.atan2(a[0] - o[0], a[1] - o[1]) - math.atan2(b[0] - o[0], b[1] - o[1])))
            ang = min(ang, 360 - ang)
            da, db = math.dist(o, a), math.dist(o, b)
            ratio = max(da, db) / min(da, db)
            L = par.diff_sector_angle_limit
            near = par.near_far_angle_limit
            tight = min(abs(ang - L), abs(ang - near)) < 0.3 or abs(ratio - par.near_far_length_ratio) < 0.02
            for q in (kx, ky):
                if tight:
                    out[0][q] = out[1][q] = None
                elif ang <= L:
                    out[0][q] = out[0][q] if out[0][q] is None else True
                elif ang <= near and ratio >= par.near_far_length_ratio:
                    out[1][q] = out[1][q] if out[1][q] is None else True
    return out


def reach(edges, gone=()):
    adj = {}
    for a, b in edges:
        if (a, b) not in gone:
            adj.setdefault(a, []).append(b)
    seen, todo = {"S"}, ["S"]
    while todo:
        for b in adj.get(todo.pop(), ()):
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def dem(nodes):
    return {x[1] for x in nodes if isinstance(x, tuple)}


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a)) or math.isnan(a) and math.isnan(b)


def main(r):
    q = r.quick
    items = []
    for x, (types, places, skus) in enumerate((((POP, DN, CN), (0, 1, 2), (0, 0, 0)), ((POP, DN, DN, CN), (0, 1, 1, 2), (0, 0, 1, 0)), ((POP, DN, CN, CN), (0, 1, 2, 2), (1, 0, 0, 1)), ((DN, POP, POP, CN), (0, 0, 0, 1), (0, 0, 1, 0)), ((POP, DN, DN, DN, CN), (0, 1, 1, 2, 3), (0, 0, 1, 0, 1)), ((POP, DN, DN, DN, DN), (0, 1, 1, 2, 2), (0, 0, 1, 0, 1)))):
        np_ = len([1 for i, j in itertools.combinations(range(len(types)), 2) if places[i] != places[j] and not (types[i] == types[j] == CN)])
        choices = list(itertools.product("wNe", repeat=np_)) if np_ <= 3 else [tuple("wewo"[(k * 7 + j * (k + 1)) % 4] if (k + j) % 5 else "N" for j in range(np_)) for k in range(40)]
        choices = [tuple(None if z == "N" else z for z in ch) for ch in choices]
        chunk = 40 if q else 50
        reps = 1 if q else 12
        for rep in range(reps):
            sh = choices[rep:] + choices[:rep]
            items += [(types, places, skus, sh, (k, chunk), (rep, rep + 3, rep + 5, rep + 7), ((1,), (2, 1), (0,), (len(types) - 1,))) for k in range(chunk) if not (q and len(types) == 5) or k % 8 == 0]
    r.map(counts, items, "counts")

    items = []
    plans = []
    for k, st in enumerate(itertools.product((PROPOSED, EXISTING, CANDIDATE), repeat=4)):
        if CANDIDATE == st[0]:
            continue
        ch = tuple("wwweo"[(k * 3 + j) % 5] if (k + j) % 4 else "w" for j in range(6))
        plans.append(((POP, DN, DN, CN), (0, 1, 2, 3), (0, 1, 0, 0), st, ch, k % 4, ((1,), (2,), (3,), (0,))))
    # two POPs, one of which may have failed without effect
    for k, st in enumerate(itertools.product((PROPOSED, EXISTING, CANDIDATE), repeat=4)):
        if k % (3 if q else 1) == 0 and CANDIDATE not in st[:1]:
            plans.append(((POP, POP, DN, CN), (0, 1, 2, 3), (0, 1, 0, 0), st, tuple("wwwew"[(k + 2 * j) % 5] for j in range(6)), k % 4, ((1,), (2,), (3,), (0,))))
    # hardly any radio
    for st in itertools.product((PROPOSED, EXISTING), (PROPOSED, CANDIDATE), (PROPOSED, EXISTING, CANDIDATE)):
        for seed in range(8):
            for ch in (("w", "w"), ("w", None), (None, "w")):
                plans.append(((POP, CN, CN), (0, 1, 2), (0, 0, 1), st, ch, seed, ((1,), (2,), (0,))))
    # only wires, no radio at all
    for st in ((PROPOSED, PROPOSED, PROPOSED), (EXISTING, PROPOSED, EXISTING), (PROPOSED, CANDIDATE, CANDIDATE)):
        for ch in itertools.product((None, "e"), repeat=3):
            plans.append(((POP, DN, DN), (0, 1, 2), (0, 1, 0), st, ch, len(plans) % 4, ((1,), (2,), (0,)), True))
    fails = [
        (4, (2,), (1,), (1, 2), (), None, 0, 0, 0),
        (1, (), (), (), (0.5,), 0.0, 1, 4, 0),
        (7, (1,), (1, 3), (3,), (0.9, 0.1, 1.0), 0.25, 2, 1, 1),
        (10, (3,), (2,), (1, 1, 4), (0.99, 0.5, 0.7, 0.7), 1.5, 1, 2, 2),
    ]
    for k, p in enumerate(plans):
        for y, f in enumerate(fails):
            if q and (k + y) % 2:
                continue
            if f[5] is not None and not any(l.status_type in ACTIVE for l in Plan(*p).objs.values()):
                continue
            items.append((p, f))
    r.map(metrics, items, "metrics")
    items = [(plans[k], seed, pct, hours) for k in range(0, 54, 9 if q else 3) for seed in (0, 1, 7) for pct, hours in ((90.0, 20.0), (50.0, 3.0)) if any(types == POP for types in plans[k][0])]
    r.map(simulated, items, "simulated")

    items = []
    k = 0
    lims = ((2, 15, 25.0), (1, 2, 60.0), (1, 1, 120.0))
    for types, places in (((POP, DN, DN, CN), (0, 1, 2, 3)), ((POP, DN, CN, DN), (0, 1, 2, 3)), ((POP, POP, DN, CN), (0, 1, 2, 3))):
        for st in [(PROPOSED,) * 4, (EXISTING,) * 4, (PROPOSED, EXISTING, PROPOSED, PROPOSED), (EXISTING, PROPOSED, CANDIDATE, PROPOSED), (PROPOSED, PROPOSED, PROPOSED, UNREACHABLE), (EXISTING, EXISTING, UNAVAILABLE, EXISTING)]:
            for ch in itertools.product((None, "w", "e"), repeat=6):
                k += 1
                if k % (23 if q else 3):
                    continue
                for seed in (0, 1) if not q else (k % 2,):
                    items.append((types, places, (0, k % 2, 0, 0), st, ch, 2 * seed, ((2,), (3,), (1,)) if k % 2 else ((1,), (3, 2), (2,)), (None, *TopologyRouting)[(k // 23 if q else k) % 4], lims[k % 3]))
    r.map(analysis, items, "analysis", limit=300)

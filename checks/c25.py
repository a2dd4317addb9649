"""C25: planning end to end gives a consistent, connected network, for any order of the input."""
import itertools
import math
import os
import tempfile

import tg
from tie import KINDS, tied
from c19 import mix
from tg import CANDIDATE, CN, DN, EVEN, EXISTING, ODD, POP, PROPOSED, UNAVAILABLE, UNREACHABLE, Link, Topology
from terragraph_planner.common.configuration.enums import RedundancyLevel, TopologyRouting
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization import topology_preparation as tp

ACTIVE = (PROPOSED, EXISTING)
FIXED = (EXISTING, UNAVAILABLE)
DEVS = [tg.dn_device("DN_DEV", nodes=4, sectors=1, hsr=70.0, capex=250.0), tg.dn_device("DN_ALT", nodes=2, sectors=2, hsr=80.0, capex=300.0), tg.cn_device("CN_DEV", capex=150.0)]


def build(inst, flip=False):
    sites = [tg.site(t, x, y, 5.0, s, name=f"s{i}", device=DEVS[2 if t == CN else d]) for i, (t, x, y, s, d) in enumerate(inst["sites"])]
    t = Topology()
    for s in reversed(sites) if flip else sites:
        t.add_site(s)
    links = []
    for i, j, st, wired, way in inst["links"]:
        for a, b, on in ((i, j, way != -1), (j, i, way != 1)):
            if on and sites[a].site_type != CN:
                links.append(Link(sites[a], sites[b], status_type=st, is_wireless=not wired, confidence_level=1.0))
    for l in reversed(links) if flip else links:
        t.add_link(l)
    return t


def run(inst, pk, flip, tmp):
    tp.DEFAULT_POINTING_PRECISION = 15
    current_system_params.output_dir = tmp
    t = build(inst, flip)
    p = tg.opt_params(device_list=DEVS, **pk)
    try:
        to.optimize_and_report_topology(t, p)
        return t, p, None
    except OptimizerException as e:
        return t, p, str(e)


def plan_of(t):
    """The plan in terms that do not depend on identifiers."""
    name = {s.site_id: s.name for s in t.sites.values()}
    return (
        sorted((s.name, s.site_type.name, s.status_type.name) for s in t.sites.values()),
        sorted((l.tx_site.name, l.rx_site.name, l.status_type.name, l.link_channel, round(l.capacity, 6), round(l.proposed_flow, 4)) for l in t.links.values()),
        sorted((name[s.site.site_id], s.node_id, s.position_in_node, round(s.ant_azimuth, 6), s.status_type.name, s.channel) for s in t.sectors.values()),
    )


def whole(item, c):
    inst, pk = item
    msg = f"{pk} {inst}"
    with tempfile.TemporaryDirectory() as tmp:
        t, p, err = run(inst, pk, False, tmp)
        c.state(msg)
        if err is None:
            files(c, t, p, tmp, msg)
    c.outcome(err)
    if err is None:
        network(c, inst, pk, t, p, msg)
        c.outcome(str(plan_of(t)[0]))
    with tempfile.TemporaryDirectory() as tmp:
        t2, _, err2 = run(inst, pk, True, tmp)
    c.eq(err2, err, "order", msg)
    if err is None and err2 is None:
        for k, (a, b) in enumerate(zip(plan_of(t), plan_of(t2))):
            c.eq(b, a, f"order-{k}", msg)


def network(c, inst, pk, t, p, msg):
    """The rules that every plan keeps."""
    by = {s.name: s for s in t.sites.values() if not s.name.endswith("_POP")}
    extra = [s for s in t.sites.values() if s.name.endswith("_POP")]
    c.check(len(by) == len(inst["sites"]) and len(extra) <= p.number_of_extra_pops, "sites", f"{sorted(by)} {extra}: {msg}")
    for i, (typ, x, y, st, d) in enumerate(inst["sites"]):
        s = by[f"s{i}"]
        c.check(s.site_type == typ and s.device is DEVS[2 if typ == CN else d], "site-changed", f"{i}: {msg}")
        c.check(s.status_type == st if st in FIXED else s.status_type in (CANDIDATE, PROPOSED, UNREACHABLE), "site-status", f"{i} {s.status_type}: {msg}")
    want = {}
    for i, j, st, wired, way in inst["links"]:
        for a, b, on in ((i, j, way != -1), (j, i, way != 1)):
            if on and inst["sites"][a][0] != CN:
                want[f"s{a}", f"s{b}"] = (st, not wired)
    got = {(l.tx_site.name, l.rx_site.name): l for l in t.links.values() if l.tx_site not in extra and l.rx_site not in extra}
    c.eq(set(got), set(want), "links", msg)
    for k, l in got.items():
        st, w = want[k]
        c.check(l.is_wireless == w and (l.status_type == st if st in FIXED else l.status_type in (CANDIDATE, PROPOSED, UNREACHABLE)), "link-status", f"{k} {l.status_type}: {msg}")
    on = {s.site_id for s in t.sites.values() if s.status_type in ACTIVE}
    given = {by[f"s{i}"].site_id for i, s in enumerate(inst["sites"]) if s[3] == EXISTING}
    # one site per place
    places = {}
    for x in on:
        s = t.sites[x]
        places.setdefault((round(s.latitude, 7), round(s.longitude, 7)), []).append(x)
    c.check(all(len(v) == 1 or all(x in given for x in v) for v in places.values()), "colocated", msg)
    # links
    act = [l for l in t.links.values() if l.status_type in ACTIVE]
    load, parents, chans = {}, {}, {}
    for l in act:
        k = (l.tx_site.name, l.rx_site.name)
        c.check(l.tx_site.site_id in on and l.rx_site.site_id in on, "link-sites", f"{k}: {msg}")
        if not l.is_wireless:
            continue
        if not c.check(l.tx_sector is not None and l.rx_sector is not None, "link-sectors", f"{k}: {msg}"):
            continue
        a, b = l.tx_sector, l.rx_sector
        c.check(t.sectors.get(a.sector_id) is a and t.sectors.get(b.sector_id) is b and a.site is l.tx_site and b.site is l.rx_site, "link-sectors", f"{k}: {msg}")
        c.check(a.status_type in ACTIVE and b.status_type in ACTIVE, "sector-status", f"{k}: {msg}")
        c.check(a.channel == b.channel and 0 <= a.channel < p.number_of_channels, "channel", f"{k} {a.channel} {b.channel}: {msg}")
        for s, dev in ((a, l.tx_dev), (b, l.rx_dev)):
            c.check(abs(dev) <= s.site.device.sector_params.horizontal_scan_range / 2 + 0.51, "scan-range", f"{k} {dev}: {msg}")
        if l.rx_site.site_type != CN:
            c.eq({l.tx_site.polarity, l.rx_site.polarity}, {ODD, EVEN}, "polarity", f"{k}: {msg}")
        else:
            parents.setdefault(l.rx_site.name, set()).add(l.tx_site.name)
        load.setdefault(a.sector_id, set()).add((l.rx_site.site_id, l.rx_site.site_type == CN))
        if l.rx_site.site_type != CN:
            load.setdefault(b.sector_id, set()).add((l.tx_site.site_id, False))
    c.check(all(len(v) == 1 for v in parents.values()), "one-parent", f"{parents}: {msg}")
    if not given:
        for q, v in load.items():
            c.check(sum(not cn for _, cn in v) <= p.dn_dn_sector_limit and len(v) <= p.dn_total_sector_limit, "sector-limit", f"{t.sectors[q].site.name} {len(v)}: {msg}")
    # active sites are connected to a POP
    seen = {x for x in on if t.sites[x].site_type == POP}
    hops = {x: 0 for x in seen}
    todo = list(seen)
    for x in todo:
        for l in act:
            if l.tx_site.site_id == x and l.rx_site.site_id not in hops:
                hops[l.rx_site.site_id] = hops[x] + 1
                todo.append(l.rx_site.site_id)
    for x in on - given:
        c.check(x in hops, "unconnected", f"{t.sites[x].name}: {msg}")
    # sectors
    for s in t.sectors.values():
        if s.status_type in ACTIVE:
            c.check(s.site.site_id in on, "sector-site", f"{s.sector_id}: {msg}")
    nodes = {}
    for s in t.sectors.values():
        nodes.setdefault((s.site.site_id, s.node_id), set()).add(s.status_type in ACTIVE)
    c.check(all(len(v) == 1 for v in nodes.values()), "node-status", msg)
    flow = {}
    for l in t.links.values():
        if l.status_type not in ACTIVE:
            continue
        c.check(l.proposed_flow <= l.capacity + 1e-5, "flow-capacity", f"{l.tx_site.name}->{l.rx_site.name} {l.proposed_flow} of {l.capacity}: {msg}")


def files(c, t, p, tmp, msg):
    """The written topology is the plan."""
    f = os.path.join(tmp, "output", "reporting_topology.kml")
    if not c.check(os.path.exists(f), "file", f"{[os.path.join(a, x) for a, _, b in os.walk(tmp) for x in b]}: {msg}"):
        return
    r = extract_topology_from_file(f, p.device_list, None)
    c.eq(sorted((s.name, s.site_type.name, s.status_type.name) for s in r.sites.values()), sorted((s.name, s.site_type.name, s.status_type.name) for s in t.sites.values()), "file-sites", msg)
    L = lambda t: sorted((l.tx_site.name, l.rx_site.name, l.status_type.name) for l in t.links.values() if l.is_wireless)  # noqa
    c.eq(L(r), L(t), "file-links", msg)


# ---- spaces -----------------------------------------------------------------

PLACES = [(0, 0), (150, 20), (40, 170), (210, 190), (330, 60), (-90, 130), (280, 280)]
SHAPES = [
    ((POP, DN, DN, CN, CN), [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (1, 4), (2, 4), (0, 3)]),
    ((POP, DN, DN, DN, CN, CN), [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (1, 4), (2, 5), (0, 5)]),
    ((POP, POP, DN, DN, CN, CN), [(0, 2), (1, 3), (2, 3), (2, 4), (3, 4), (2, 5), (3, 5), (1, 4)]),
    ((POP, DN, DN, DN, DN, CN, CN), [(0, 1), (0, 2), (1, 3), (2, 4), (3, 4), (4, 5), (3, 6), (4, 6), (2, 5)]),
]
PARAMS = [
    dict(),
    dict(number_of_channels=2, demand=0.6),
    dict(enable_legacy_redundancy_method=True, budget=9000.0, demand=0.4),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.LOW),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.MEDIUM, demand=0.5),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.HIGH),
    dict(number_of_extra_pops=1, demand=0.9),
    dict(maximize_common_bandwidth=True, demand=0.7),
    dict(always_active_pops=False, demand=0.3),
    dict(maximum_number_hops=2),
    dict(dn_dn_sector_limit=1, dn_total_sector_limit=2, demand=0.6),
    dict(topology_routing=TopologyRouting.MCS_COST_PATH),
    dict(enable_legacy_redundancy_method=True, budget=20000.0, backhaul_link_redundancy_ratio=0.5),
    dict(diff_sector_angle_limit=60.0, near_far_angle_limit=90.0, demand=0.5),
]


def items(quick):
    out = []
    k = 0
    for n, (types, pairs) in enumerate(SHAPES):
        for on in range(1 << len(pairs)):
            k += 1
            if quick and mix(k * 5) % 3:
                continue
            h = mix(k)
            st = [CANDIDATE] * len(types)
            if h % 6 == 0:
                st[h // 8 % len(types)] = UNAVAILABLE
            elif h % 6 == 1:
                st[0] = EXISTING
                if h // 8 % 2:
                    st[types.index(DN)] = EXISTING
            elif h % 6 == 2:
                st[h // 8 % len(types)] = PROPOSED
            spots = list(PLACES)
            r = h // 64 % 6
            if r == 0:
                spots[len(types) - 1] = spots[types.index(DN)]
            elif r == 1:
                spots[types.index(DN) + 1] = spots[types.index(DN)]
            elif r == 2:
                spots[types.index(DN)] = spots[0]
            sites = [(t, *spots[i], s, 1 if r == 1 and i == types.index(DN) else mix(k + i) % 3 == 0 and t != CN and not r == 1) for i, (t, s) in enumerate(zip(types, st))]
            ls = []
            for q, (i, j) in enumerate(pairs):
                if not on >> q & 1 or spots[i] == spots[j]:
                    continue
                g = mix(k * 7 + q) % 16
                s = UNAVAILABLE if UNAVAILABLE in (st[i], st[j]) or g == 0 else CANDIDATE
                ls.append((i, j, s, g in (1, 2) and CN not in (types[i], types[j]), 0))
            ps = [PARAMS[mix(k * 3) % len(PARAMS)]] if quick else PARAMS
            out += [(dict(sites=[(t, x, y, s, int(d)) for t, x, y, s, d in sites], links=ls), pk) for pk in ps]
    return out


def cones(quick):
    """DNs close in angle as seen from their parent need different channels."""
    out = []
    angles = (-24, -8, 4, 30)
    for n in (2, 3):
        for pick in itertools.combinations(angles, n):
            for devs in itertools.product((0, 1), repeat=n + 1):
                for chans in (2, 3):
                    for relay in (False, True):
                        if quick and mix(hash((pick, devs, chans, relay))) % 3:
                            continue
                        sites = [(POP, 0, 0, CANDIDATE, devs[0])]
                        links = []
                        for q, a in enumerate(pick):
                            x, y = (math.cos(math.radians(a)), math.sin(math.radians(a)))
                            sites += [(DN, round(150 * x), round(150 * y), CANDIDATE, devs[q + 1]), (CN, round(270 * x), round(270 * y), CANDIDATE, 0)]
                            links += [(0, 2 * q + 1, CANDIDATE, False, 0), (2 * q + 1, 2 * q + 2, CANDIDATE, False, 0)]
                            if relay and q:
                                links.append((2 * q - 1, 2 * q + 2, CANDIDATE, False, 0))
                        out.append((dict(sites=sites, links=links), dict(number_of_channels=chans, demand=0.6, pop_capacity=20.0)))
    return out


RED = [dict(enable_legacy_redundancy_method=False, redundancy_level=v, demand=d) for v, d in ((RedundancyLevel.LOW, 0.3), (RedundancyLevel.MEDIUM, 0.2), (RedundancyLevel.HIGH, 0.3))] + [
    dict(enable_legacy_redundancy_method=True, budget=b, backhaul_link_redundancy_ratio=f, demand=0.3, number_of_channels=n) for b, f, n in ((20000.0, 0.5, 1), (9000.0, 0.3, 2), (20000.0, 1.0, 1), (6000.0, 0.0, 1))
]


def rings(quick):
    """A client site that two chains of DNs can serve: redundancy adds the other one."""
    out = []
    for k, (two, st, wired, off, more, pk) in enumerate(itertools.product((DN, POP), (CANDIDATE, EXISTING, UNAVAILABLE, PROPOSED), (None, (0, 2), (2, 3)), (None, (1, 3), (2, 3)), itertools.product((0, 1), repeat=3), RED)):
        if quick and mix(k * 3) % 16:
            continue
        d = mix(k * 7)
        sites = [(POP, 0, 0, CANDIDATE, 0), (DN, 150, 20, CANDIDATE, 0), (two, -20, 150, st, d % 3 == 0), (DN, 150, 170, CANDIDATE, d // 3 % 3 == 0), (CN, 260, 260, CANDIDATE, 0), (DN, 290, 120, CANDIDATE, 0), (CN, 40, 320, CANDIDATE, 0)]
        pairs = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)] + [(1, 5), (5, 4)] * more[0] + [(2, 6)] * more[1] + [(3, 6)] * more[2]
        links = [(a, b, UNAVAILABLE if (a, b) == off or st == UNAVAILABLE and 2 in (a, b) else CANDIDATE, (a, b) == wired, 0) for a, b in pairs]
        out.append((dict(sites=[(t, x, y, s, int(v)) for t, x, y, s, v in sites], links=links), pk))
    return out


def more_is_kept(item, c):
    """Redundancy and coverage only add to the network planned without them."""
    inst, pk = item
    whole(item, c)
    off = dict(pk, redundancy_level=RedundancyLevel.NONE) if "redundancy_level" in pk else dict(pk, budget=0.001)
    with tempfile.TemporaryDirectory() as tmp:
        t, _, err = run(inst, pk, False, tmp)
        t0, _, err0 = run(inst, off, False, tmp)
    if err is None and err0 is None:
        a, b = ({s.name for s in x.sites.values() if s.status_type in ACTIVE} for x in (t0, t))
        c.check(a <= b, "site-dropped", f"{sorted(a)} {sorted(b)}: {pk} {inst}")
        c.outcome((len(a), len(b)))


whole_tie = tied(whole, "whole_tie")
more_is_kept_tie = tied(more_is_kept, "more_is_kept_tie")


def main(r):
    r.map(more_is_kept, rings(r.quick), name="rings")
    r.map(whole, items(r.quick), name="pipeline")
    r.map(whole, cones(r.quick), name="channels")
    for fn, its, name in ((whole_tie, items(r.quick) + cones(r.quick), "pipeline-ties"), (more_is_kept_tie, rings(r.quick), "rings-ties")):
        r.map(fn, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (20 if r.quick else 2) == 0], name=name)

"""C13: deployment and orientation of sectors, and their links."""
import functools
import itertools
import math

import numpy as np

import tg
from c19 import mix
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, Link, Sector, Topology, UNREACHABLE, UNAVAILABLE
from terragraph_planner.common.configuration.enums import LinkType, StatusType
from terragraph_planner.common.exceptions import OptimizerException, PlannerException
from terragraph_planner.optimization import topology_preparation
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.topology_operations import readjust_sectors_post_opt
from terragraph_planner.optimization.topology_preparation import add_sectors_to_links, setup_node_structure, validate_link_sectors, validate_site_sectors

TOL = 1e-2
NEIGHBOUR = tg.dn_device("N", 1, 1, 70.0)
STEP = 15  # orientation grid; 3 degrees in the planner, which a part of the cases uses
FULL = 360.0


def bearing(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    d = math.radians(b.longitude - a.longitude)
    return math.degrees(math.atan2(math.cos(lb) * math.sin(d), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(d))) % FULL


def ground(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    d = math.radians(b.longitude - a.longitude)
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(d / 2) ** 2
    return 2 * 6371000.0 * math.asin(math.sqrt(h))


def dev(a, b):
    return abs((a - b + 180) % FULL - 180)


def node_count(device):
    return min(int(FULL / (device.sector_params.horizontal_scan_range * device.sector_params.number_sectors_per_node)), device.number_of_nodes_per_site)


def grid(step):
    global STEP
    STEP = topology_preparation.DEFAULT_POINTING_PRECISION = step


@functools.lru_cache(None)
def placements(nodes, width, step):
    """All ways to put node centres on the circle at least width apart."""
    n = int(FULL / step)
    out = []

    def go(seq):
        if len(seq) == nodes:
            out.append(tuple(seq))
            return
        for k in range(seq[-1] + 1, n):
            if (k - seq[-1]) * step < width or (seq[0] + n - k) * step < width:
                continue
            go(seq + [k])

    for f in range(n):
        go([f])
    return np.array(out)


def spread(center, k, hsr):
    return [(center + hsr * (i - (k - 1) / 2)) % FULL for i in range(k)]


def metric(centers, device, links):
    """Links not covered, then the weighted squared deviation. links: (bearing, weight)"""
    hsr, k = device.sector_params.horizontal_scan_range, device.sector_params.number_sectors_per_node
    covered, total = 0, 0.0
    for c in centers:
        for s in spread(c, k, hsr):
            for b, w in links:
                d = dev(s, b)
                if d < hsr / 2:
                    covered += 1
                    total += d * d * w
    return covered, total


def best(device, links):
    hsr, k, n = device.sector_params.horizontal_scan_range, device.sector_params.number_sectors_per_node, node_count(device)
    m = [metric([i * STEP], device, links) for i in range(int(FULL / STEP))]
    pl = placements(n, hsr * k, STEP)
    cov = np.array([x[0] for x in m])[pl].sum(axis=1)
    tot = np.array([x[1] for x in m])[pl].sum(axis=1)
    return int(cov.max()), float(tot[cov == cov.max()].min())


def layout(c, sectors, device, key, text):
    """Structure of the sectors of one site; the node centres."""
    hsr, k = device.sector_params.horizontal_scan_range, device.sector_params.number_sectors_per_node
    by = {}
    for s in sectors:
        by.setdefault(s.node_id, {})
        c.check(s.position_in_node not in by[s.node_id], key + "-position", text)
        by[s.node_id][s.position_in_node] = s.ant_azimuth % FULL
    c.check(len(by) <= device.number_of_nodes_per_site, key + "-nodes", text)
    centers = []
    for node in by.values():
        if not c.check(sorted(node) == list(range(k)), key + "-per-node", text):
            return None
        az = [node[i] for i in range(k)]
        for a, b in zip(az, az[1:]):
            c.close((b - a) % FULL, hsr, key + "-spacing", text, tol=1e-6)
        centers.append((az[0] + hsr * (k - 1) / 2) % FULL)
    for a, b in itertools.combinations(centers, 2):
        c.check(dev(a, b) >= hsr * k - 1e-6, key + "-overlap", f"{text} {a} {b}")
    return centers


def expected_sector(t, site, azimuth, full):
    hsr = FULL if full and site.site_type == CN else site.device.sector_params.horizontal_scan_range
    got = None
    for s in t.sectors.values():
        if s.site is site:
            d = dev(s.ant_azimuth, azimuth)
            if d < hsr / 2 + TOL and (got is None or d < got[0] - 1e-9):
                got = (d, s)
    return got


def links_ok(c, t, full, text):
    for l in t.links.values():
        if not l.is_wireless:
            c.check(l.tx_sector is None and l.rx_sector is None, "wired-sector", text)
            continue
        a = expected_sector(t, l.tx_site, bearing(l.tx_site, l.rx_site), full)
        b = expected_sector(t, l.rx_site, bearing(l.rx_site, l.tx_site), full)
        if a is None or b is None:
            c.check(l.tx_sector is None and l.rx_sector is None, "link-without-cover", text)
            continue
        if not c.check(l.tx_sector is not None and l.rx_sector is not None, "link-uncovered", f"{text} {l.tx_site.name}->{l.rx_site.name}"):
            continue
        for s, site, e in ((l.tx_sector, l.tx_site, a), (l.rx_sector, l.rx_site, b)):
            c.check(s.site is site and t.sectors.get(s.sector_id) is s, "link-sector-site", text)
            other = bearing(site, l.rx_site if site is l.tx_site else l.tx_site)
            c.check(dev(s.ant_azimuth, other) <= e[0] + 1e-6, "link-sector-nearest", f"{text} {s.ant_azimuth} {other} {e[0]}")


# ------------------------------------------------------------- star of links
STATUSES = [(CANDIDATE,), (UNREACHABLE, CANDIDATE, EXISTING), (CANDIDATE, UNREACHABLE), (UNAVAILABLE, PROPOSED, CANDIDATE, UNREACHABLE), (EXISTING, UNAVAILABLE, CANDIDATE)]


def star(item, c):
    """One site with all sets of neighbours."""
    (n, k, hsr), bearings, types, center, step, sts = item
    grid(step)
    device = tg.dn_device("D", n, k, hsr) if center != CN else tg.cn_device("D", k, hsr)
    t = Topology()
    o = tg.site(center, 0, 0, 5.0, sts[0], name="o", device=device)
    t.add_site(o)
    nb = []
    for m, (b, ty) in enumerate(zip(bearings, types)):
        r = 60 + 40 * m
        s = tg.site(ty, r * math.sin(math.radians(b)), r * math.cos(math.radians(b)), 5.0, sts[(m + 1) % len(sts)], name=f"n{m}", device=NEIGHBOUR if ty != CN else None)
        nb.append(s)
        t.add_site(s)
        st = next((x for x in (UNAVAILABLE, UNREACHABLE) if x in (o.status_type, s.status_type)), CANDIDATE)
        if center != CN:
            t.add_link(Link(tx_site=o, rx_site=s, is_wireless=True, status_type=st))
        if ty != CN:
            t.add_link(Link(tx_site=s, rx_site=o, is_wireless=True, status_type=st))
    setup_node_structure(t)
    mine = [s for s in t.sectors.values() if s.site is o]
    centers = layout(c, mine, device, "star", str(item))
    if centers is None:
        return
    for s in t.sectors.values():
        c.eq(s.status_type, s.site.status_type if s.site.status_type in (UNAVAILABLE, UNREACHABLE) else CANDIDATE, "star-status", f"{item} {s.site.name}")
    far = max(ground(o, s) for s in nb)
    if center != CN:
        links = [(bearing(o, s), ground(o, s) / far) for s in nb]
        want = best(device, links)
        got = metric(centers, device, links)
        c.eq(got[0], want[0], "star-coverage", f"{item} {centers}")
        c.close(got[1], want[1], "star-deviation", f"{item} {centers}", tol=1e-6 * max(1, want[1]))
        for x in centers:
            c.check(metric([x], device, links)[0] > 0, "star-idle-node", str(item))
    else:
        links = [bearing(o, s) for s in nb]
        width = hsr * k

        def met(x):
            return sum(d * d if (d := dev(x, b)) <= width / 2 else FULL**2 for b in links)

        c.eq(len(centers), 1, "cn-node", str(item))
        if centers:
            c.close(met(centers[0]), min(met(i * STEP) for i in range(int(FULL / STEP))), "cn-deviation", f"{item} {centers}", tol=1e-6)
    links_ok(c, t, True, str(item))
    c.outcome(len(centers))
    c.state(item)


# ------------------------------------------------------- sectors of the user
def given(item, c):
    """Sectors given by the user stay, links get the nearest ones."""
    az, (n, k, hsr), bearings, active, kind = item
    grid(15)
    device = tg.dn_device("D", n, k, hsr) if kind != CN else tg.cn_device("D", k, hsr)
    t = Topology()
    st = EXISTING if active else CANDIDATE
    o = tg.site(kind, 0, 0, 5.0, st, name="o", device=device)
    t.add_site(o)
    for node, a in enumerate(az):
        for j in range(k):
            t.add_sector(Sector(site=o, node_id=node, position_in_node=j, ant_azimuth=spread(a, k, hsr)[j], status_type=st))
    before = {s.sector_id: (s.ant_azimuth, s.status_type) for s in t.sectors.values()}
    ls = []
    for m, b in enumerate(bearings):
        r = 60 + 40 * m
        s = tg.site(DN, r * math.sin(math.radians(b)), r * math.cos(math.radians(b)), 5.0, EXISTING if active else CANDIDATE, name=f"n{m}", device=NEIGHBOUR)
        t.add_site(s)
        for x, y in ((o, s), (s, o)) if kind != CN else ((s, o),):
            l = Link(tx_site=x, rx_site=y, is_wireless=True, status_type=PROPOSED if active else CANDIDATE)
            t.add_link(l)
            ls.append(l)
    gaps = [dev(x, y) for x, y in itertools.combinations(az, 2)]
    legal = len(az) <= n and all(g >= hsr * k for g in gaps)
    cover = kind == CN or all(any(dev(x, bearing(o, s)) < hsr / 2 for a in az for x in spread(a, k, hsr)) for s in t.sites.values() if s is not o)
    if any(abs(g - hsr * k) < 1e-6 for g in gaps):
        return
    if not legal or active and not cover:
        c.raises(lambda: setup_node_structure(t), OptimizerException, "given-rejected", str(item))
    else:
        setup_node_structure(t)
        after = {s.sector_id: (s.ant_azimuth, s.status_type) for s in t.sectors.values() if s.site is o}
        c.eq(after, before, "given-kept", str(item))
        links_ok(c, t, True, str(item))
    c.outcome(legal, cover)
    c.state(item)


def nearest(item, c):
    """Links choose among any sectors, overlapping ones included."""
    az, baz, bearings, hsr, rx = item
    device, other = tg.dn_device("D", 3, 1, hsr[0]), tg.dn_device("E", 3, 1, hsr[1]) if rx != CN else tg.cn_device("E", 1, hsr[1])
    t = Topology()
    o = tg.site(DN, 0, 0, 5.0, name="o", device=device)
    t.add_site(o)
    for node, a in enumerate(az):
        t.add_sector(Sector(site=o, node_id=node, position_in_node=0, ant_azimuth=a))
    for m, b in enumerate(bearings):
        r = 60 + 40 * m
        s = tg.site(rx, r * math.sin(math.radians(b)), r * math.cos(math.radians(b)), 5.0, name=f"n{m}", device=other)
        t.add_site(s)
        for node, a in enumerate(baz):
            t.add_sector(Sector(site=s, node_id=node, position_in_node=0, ant_azimuth=(b + 180 + a) % FULL))
        for x, y in ((o, s), (s, o)) if rx != CN else ((o, s),):
            t.add_link(Link(tx_site=x, rx_site=y, is_wireless=True))
    add_sectors_to_links(t, False, None)
    links_ok(c, t, False, str(item))
    c.outcome(tuple(l.tx_sector is not None and l.tx_sector.ant_azimuth for l in t.links.values()))
    c.state(item)


def site_rule(item, c):
    """Which sets of sectors of a site are accepted."""
    (n, k, hsr), nodes, same = item
    device = tg.dn_device("D", n, k, hsr)
    o = tg.site(DN, 0, 0, 5.0, device=device)
    ids = [i * 7 + 2 for i in range(len(nodes))] if same is None else range(len(nodes))
    secs = [Sector(site=o, node_id=i, position_in_node=j if same is None or i != same else 0, ant_azimuth=a) for i, node in zip(ids, nodes) for j, a in enumerate(node)]
    ok = len(nodes) <= n and all(len(x) == k for x in nodes) and (same is None or len(nodes[same]) < 2)
    arcs = []
    if ok:
        for node in nodes:
            start = [a for a in node if all(any(dev(a + hsr * i, b) < TOL / 2 for b in node) for i in range(k))]
            ok = ok and bool(start)
            arcs.append(start[0] if start else None)
    if ok:
        for a, b in itertools.combinations(arcs, 2):
            for x, y in itertools.product(range(k), range(k)):
                ok = ok and dev(a + hsr * x, b + hsr * y) >= hsr - 1e-9
    if ok:
        validate_site_sectors(secs)
    else:
        c.raises(lambda: validate_site_sectors(secs), OptimizerException, "site-rule", str(item))
    c.outcome(ok)
    c.state(item)


def link_rule(item, c):
    ty, dtx, drx, hsr, full = item
    hsr, hsr2 = hsr
    d1, d2 = tg.dn_device("A", 3, 1, hsr), (tg.cn_device("B", 1, hsr2) if ty == CN else tg.dn_device("B", 3, 1, hsr2))
    a, b = tg.site(DN, 0, 0, 5.0, device=d1), tg.site(ty, 60, 80, 5.0, device=d2)
    l = Link(tx_site=a, rx_site=b, is_wireless=True)
    l.tx_sector = Sector(site=a, node_id=0, position_in_node=0, ant_azimuth=(bearing(a, b) + dtx) % FULL)
    l.rx_sector = Sector(site=b, node_id=0, position_in_node=0, ant_azimuth=(bearing(b, a) + drx) % FULL)
    ok = dev(dtx, 0) < hsr / 2 + TOL and (full and ty == CN or dev(drx, 0) < hsr2 / 2 + TOL)
    c.close(abs(l.tx_dev), dev(dtx, 0), "tx-dev", str(item), tol=2e-3)
    c.close(abs(l.rx_dev), dev(drx, 0), "rx-dev", str(item), tol=2e-3)
    if ok:
        validate_link_sectors(l, full)
    else:
        c.raises(lambda: validate_link_sectors(l, full), OptimizerException, "link-rule", str(item))
    c.state(item)


# ------------------------------------------------- orientation of the result
PLACES = {
    "p": (POP, 0, 0), "a": (DN, 100, 13), "b": (DN, 83, 110), "c": (DN, -40, 90), "x": (CN, 160, 60), "y": (CN, 30, 40), "e": (DN, -90, -30),
}
EDGES = [("p", "a"), ("p", "b"), ("a", "b"), ("b", "c"), ("p", "c"), ("a", "x"), ("b", "x"), ("a", "y"), ("c", "y"), ("p", "y"), ("p", "e"), ("c", "e")]


def result(item, c):
    (n, k, hsr), active, dndn, dntot, diff, chan, exist, step = item
    grid(step)
    device = tg.dn_device("D", n, k, hsr)
    exist = tuple(x for x in exist if any(x in e for e in active))
    t = Topology()
    act = set(itertools.chain(*active))
    S = {}
    for name, (ty, x, y) in PLACES.items():
        S[name] = tg.site(ty, x, y, 5.0, (EXISTING if name in exist else PROPOSED) if name in act else CANDIDATE, name=name, device=device if ty != CN else tg.cn_device("C", 1, hsr))
        t.add_site(S[name])
    for a, b in EDGES:
        for u, v in ((a, b), (b, a)):
            if S[u].site_type != CN:
                t.add_link(Link(tx_site=S[u], rx_site=S[v], is_wireless=True))
    setup_node_structure(t)
    # activate
    mine = []
    for l in t.links.values():
        e = (l.tx_site.name, l.rx_site.name)
        if e in active or e[::-1] in active:
            if l.tx_sector is None:  # cannot be chosen by the optimization
                return
            mine.append(l)
    if exist:
        for s in list(t.sectors.values()):
            if s.site.name in exist:
                t.remove_sector(s.sector_id)
                t.add_sector(Sector(site=s.site, node_id=s.node_id, position_in_node=s.position_in_node, ant_azimuth=s.ant_azimuth, status_type=EXISTING))
        add_sectors_to_links(t, True, None)
    # a CN of the result has one link; the planner aims its radio at it
    for l in mine:
        l.status_type = PROPOSED
        for s in (l.tx_sector, l.rx_sector):
            if s.status_type == CANDIDATE:
                for q in t.sectors.values():
                    if q.site is s.site and q.node_id == s.node_id:
                        q.status_type = PROPOSED
    # channels: by connected component of sectors, alternating
    comp = {}
    for l in mine:
        for s in (l.tx_sector, l.rx_sector):
            comp.setdefault(s, {s})
    for l in mine:
        u = comp[l.tx_sector] | comp[l.rx_sector]
        for s in u:
            comp[s] = u
    for m, g in enumerate(sorted({id(g): g for g in comp.values()}.values(), key=lambda g: min(s.sector_id for s in g))):
        for s in g:
            s.channel = m % 2 if chan else 0
    # the optimization respects the limits before
    count = {}
    for l in mine:
        if l.tx_site.site_type != CN:
            d, tot = count.get(l.tx_sector, (0, 0))
            count[l.tx_sector] = (d + (l.rx_site.site_type != CN), tot + 1)
    if any(d > dndn or tot > dntot for d, tot in count.values()):
        return
    viol = lambda: set(map(tuple, sum(find_angle_violating_link_pairs(t, diff, diff * 1.2, 1.5, True), [])))  # noqa
    if viol():
        return
    before = {s.sector_id: (s.site, s.node_id, s.ant_azimuth, s.status_type) for s in t.sectors.values()}
    prev = {l.link_id: (l.tx_sector.sector_id, l.link_channel) for l in mine}
    if chan and any(len({prev[l.link_id][1] for l in mine if l.tx_site is s}) > 1 and s.name in exist for s in t.sites.values()):
        pass
    readjust_sectors_post_opt(t, tg.opt_params(dn_dn_sector_limit=dndn, dn_total_sector_limit=dntot, diff_sector_angle_limit=diff, near_far_angle_limit=diff * 1.2, near_far_length_ratio=1.5))
    text = f"{item}"
    c.eq({l.link_id for l in t.links.values() if l.status_type == PROPOSED}, {l.link_id for l in mine}, "result-links", text)
    for s in t.sites.values():
        secs = [q for q in t.sectors.values() if q.site is s]
        old = {i: v for i, v in before.items() if v[0] is s}
        if s.name in exist or s.name not in act:
            c.eq({q.sector_id: (q.site, q.node_id, q.ant_azimuth, q.status_type) for q in secs}, old, "untouched-sectors", text + s.name)
            continue
        centers = layout(c, secs, s.device, "result", text + s.name)
        status = {}
        for q in secs:
            status.setdefault(q.node_id, set()).add(q.status_type)
        c.check(all(len(v) == 1 for v in status.values()), "node-status", text + s.name)
        if centers and s.site_type != CN and diff == 0 and not chan:
            nb = {id(x): x for l in mine for x, y in ((l.tx_site, l.rx_site), (l.rx_site, l.tx_site)) if y is s}.values()
            far = max(ground(s, x) for x in nb)
            links = [(bearing(s, x), ground(s, x) / far * (8 if x.site_type != CN else 1)) for x in nb]
            if dndn >= len(links):
                want, got = best(s.device, links), metric(centers, s.device, links)
                c.eq(got[0], want[0], "result-coverage", text + s.name)
                c.close(got[1], want[1], "result-deviation", text + s.name, tol=1e-6 * max(1, want[1]))
    count, used = {}, {}
    for l in mine:
        for s, site, other in ((l.tx_sector, l.tx_site, l.rx_site), (l.rx_sector, l.rx_site, l.tx_site)):
            if not c.check(s is not None and t.sectors.get(s.sector_id) is s and s.site is site, "active-link-sector", text):
                return
            c.check(dev(s.ant_azimuth, bearing(site, other)) < site.device.sector_params.horizontal_scan_range / 2 + TOL, "active-link-range", text)
            c.check(s.status_type in (PROPOSED, EXISTING), "active-link-sector-status", text)
            if site.name not in exist:
                c.eq(s.channel, prev[l.link_id][1], "active-link-channel", text)
        if l.tx_site.site_type != CN:
            d, tot = count.get(l.tx_sector, (0, 0))
            count[l.tx_sector] = (d + (l.rx_site.site_type != CN), tot + 1)
            used.setdefault(l.tx_site.site_id, []).append((prev[l.link_id][0], l.tx_sector.sector_id))
    for s, (d, tot) in count.items():
        c.check(d <= dndn and tot <= dntot, "sector-limits", f"{text} {s.site.name} {d} {tot}")
    c.check(not viol(), "new-angle-violation", f"{text}")
    for l in t.links.values():  # no link keeps a sector that was replaced
        for s in (l.tx_sector, l.rx_sector):
            c.check(s is None or t.sectors.get(s.sector_id) is s, "stale-sector", text)
    if not exist:
        with_links = {(s.site.site_id, s.node_id) for l in mine for s in (l.tx_sector, l.rx_sector)}
        for s in t.sectors.values():
            c.eq(s.status_type == PROPOSED, (s.site.site_id, s.node_id) in with_links, "idle-node-active", text)
    c.outcome(len(mine))
    c.state(item)


def main(r):
    q = r.quick
    devs = [(4, 1, 90.0), (4, 1, 70.0), (2, 1, 90.0), (1, 1, 120.0), (3, 2, 60.0), (2, 2, 70.0), (1, 3, 60.0), (8, 1, 45.0), (3, 1, 120.0), (2, 4, 45.0)]
    bs = [7.4 + 30 * i for i in range(12)] + [22.7, 23.9, 359.2, 181.1]
    sets = [s for m in (1, 2, 3) for s in itertools.combinations(bs, m)] + [s for s in itertools.combinations(bs, 4)][:: 40 if q else 8]
    items = []
    for i, d in enumerate(devs):
        for j, s in enumerate(sets):
            if q and (i + j) % 3:
                continue
            for ty in ((DN, DN, CN, POP), (CN, DN, DN, CN)):
                items.append((d, s, ty[: len(s)], DN, 15, STATUSES[mix(len(items)) % len(STATUSES)]))
                if (i + j) % (60 if q else 6) == 0 and (not q or node_count(tg.dn_device("D", *d)) < 4):
                    items.append((d, s, ty[: len(s)], DN, 3, (CANDIDATE,)))
    cns = [(1, 1, 70.0), (1, 2, 60.0), (1, 1, 30.0), (1, 3, 100.0)]
    for i, d in enumerate(cns):
        for j, s in enumerate(sets):
            if not q or (i + j) % 2 == 0:
                items.append((d, s, (DN, POP, DN, DN)[: len(s)], CN, 3, STATUSES[mix(len(items)) % len(STATUSES)]))
    r.map(star, items, name="all-neighbour-sets")
    azs = [(0.0,), (350.0,), (0.0, 90.0), (10.0, 200.0), (0.0, 75.0, 150.0), (5.0, 50.0), (0.0, 120.0, 240.0), (1.0, 91.5, 182.0, 273.0)]
    gd = [(4, 1, 70.0), (2, 1, 90.0), (2, 2, 60.0), (3, 1, 110.0)]
    pairs = [s for m in (1, 2) for s in itertools.combinations(bs[:12], m)]
    r.map(given, [(a, d, s, x, ty) for ty in (DN, POP) for a in azs for d in gd for s in (pairs if not q else pairs[::5]) for x in (False, True)]
          + [(a, d, s, x, CN) for a in azs for d in ((1, 1, 70.0), (1, 2, 60.0), (1, 3, 100.0)) for s in (pairs if not q else pairs[::6]) for x in (False, True)], name="given-sectors")
    azs = [s for m in (1, 2, 3) for s in itertools.permutations((0.0, 25.0, 50.0, 110.0, 345.0), m)]
    bazs = [(0.0,), (20.0, -5.0), (-30.0, 14.0, 40.0), (90.0,)]
    brs = [(3.0,), (31.0, 200.0), (40.0, 352.0), (12.4, 97.0)]
    items = list(itertools.product(azs, bazs, brs, ((60.0, 60.0), (120.0, 120.0), (60.0, 120.0), (120.0, 60.0)), (DN, CN)))
    r.map(nearest, items[::5] if q else items, name="nearest-of-overlapping")
    items = []
    for d in ((2, 1, 60.0), (1, 1, 60.0), (3, 1, 90.0)):
        for m in (1, 2, 3):
            items += [(d, tuple((a,) for a in s)) for s in itertools.product((0.0, 20.0, 60.0, 90.0, 150.0, 330.0, 359.999), repeat=m)]
    for d in ((2, 2, 60.0), (2, 2, 90.0)):
        nodes = list(itertools.product((0.0, 30.0, 60.0, 90.0, 180.0, 270.0, 330.0, 60.004, 60.02), repeat=2))
        items += [(d, (x,)) for x in nodes] + [(d, (x, y)) for i, x in enumerate(nodes) for j, y in enumerate(nodes) if not q or (i * 7 + j) % 9 == 0]
    for d in ((1, 3, 60.0), (2, 3, 60.0), (1, 3, 120.0), (1, 4, 90.0)):
        nodes = list(itertools.product((0.0, 60.0, 120.0, 180.0, 240.0, 300.0), repeat=3))
        items += [(d, (x,)) for x in nodes]
        if d[0] > 1:
            items += [(d, (x, y)) for y in ((180.0, 240.0, 300.0), (240.0, 300.0, 0.0), (60.0, 300.0, 0.0)) for x in nodes]
    items += [((1, 4, 90.0), (p,)) for p in itertools.permutations((10.0, 100.0, 190.0, 280.0))] + [((2, 1, 60.0), ((0.0, 60.0),)), ((2, 2, 60.0), ((0.0,),))]
    # the numbers of the nodes are free; one position is used twice in the first or last node
    items = [(*x, None) for x in items] + [(*x, m) for x in items[::5] for m in {0, len(x[1]) - 1} if x[0][1] > 1]
    r.map(site_rule, items, name="site-sector-rules")
    ds = [-180.0, -35.02, -35.005, -34.9, -1.0, 0.0, 20.0, 34.99, 35.005, 35.02, 60.0, 170.0]
    r.map(link_rule, [(ty, a, b, h, f) for ty in (DN, CN) for a in ds for b in ds for h in ((70.0, 70.0), (120.0, 120.0), (70.0, 120.0), (120.0, 70.0)) for f in (False, True)], name="link-sector-rules")
    items = []
    acts = []
    tree = [e for e in EDGES]
    for m in (1, 2, 3, 4, 5):
        for s in itertools.combinations(tree, m):
            cn = [v for e in s for v in e if PLACES[v][0] == CN]
            if len(cn) == len(set(cn)):
                acts.append(s)
    j = 0
    for d in ((4, 1, 90.0), (2, 2, 80.0), (4, 1, 70.0), (3, 1, 120.0)):
        for s in acts:
            for lim, diff, ch, ex in (((2, 15), 25, False, ()), ((9, 15), 0, False, ()), ((1, 3), 45, False, ()), ((2, 15), 0, True, ()), ((2, 2), 25, False, ("a",)), ((2, 15), 25, False, ("p", "b"))):
                j += 1
                if not q or mix(j) % 29 == 0:
                    items.append((d, s, lim[0], lim[1], diff, ch, ex, 15))
                if j % (3001 if q else 41) == 0:
                    items.append((d, s, lim[0], lim[1], diff, ch, ex, 3))
    # two channels at a site: links of one radio have to stay together
    for d in ((2, 2, 80.0), (4, 1, 70.0)):
        for k, s in enumerate(acts):
            if len(s) > 2 and (not q or mix(k) % 3 == 0):
                items.append((d, s, 9, 15, 60, True, (), 15))
    r.map(result, items, name="orientation-of-results")

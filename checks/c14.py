"""C14: link budgets, interference, power control and deployment rules of a plan.

Small networks are enumerated over every set of active links, polarity,
channel and sector status; received power, interference, SINR and the outcome
of transmit power control are recomputed from the definitions in docs/rf_modeling.
"""
import itertools
import math

import tg
from c19 import mix
from c05 import DEF_TABLE, o_backoff, o_est, o_maxtx, o_mcs, o_net
from tg import CANDIDATE, CN, DN, EVEN, EXISTING, ODD, POP, PROPOSED, UNASSIGNED, UNAVAILABLE, Link, Sector, Topology
from terragraph_planner.common.configuration.enums import LinkType, StatusType
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs, find_sector_limit_violations, get_violating_link_ids
from terragraph_planner.optimization.topology_interference import analyze_interference, compute_link_interference, compute_link_net_gain_map, compute_link_rsl_map
from terragraph_planner.optimization.topology_operations import update_link_caps_with_sinr
from terragraph_planner.optimization.topology_preparation import add_link_capacities

ACTIVE = (PROPOSED, EXISTING)
EPS = 1e-9

# ---------------------------------------------------------------- geometry


def bearing(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    d = math.radians(b.longitude - a.longitude)
    return math.degrees(math.atan2(math.cos(lb) * math.sin(d), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(d))) % 360


def ground(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    d = math.radians(b.longitude - a.longitude)
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(d / 2) ** 2
    return 2 * 6371000.0 * math.asin(math.sqrt(h))


def signed(d):
    d = (d + 180) % 360 - 180
    return 180.0 if d == -180 else d


def dist3(l):
    g = ground(l.tx_site, l.rx_site)
    if l.tx_site.altitude is None or l.rx_site.altitude is None:
        return g
    return math.hypot(g, l.tx_site.altitude - l.rx_site.altitude)


def elev(l):
    if l.tx_site.altitude is None or l.rx_site.altitude is None or dist3(l) == 0:
        return 0.0
    return math.degrees(math.asin((l.rx_site.altitude - l.tx_site.altitude) / dist3(l)))


def tdev(l):
    return signed(bearing(l.tx_site, l.rx_site) - l.tx_sector.ant_azimuth)


def rdev(l):
    return signed(bearing(l.tx_site, l.rx_site) + 180 - l.rx_sector.ant_azimuth)


# ---------------------------------------------------------------- devices
# The gain falls with the deviation, differently per direction, so that a wrong
# or swapped or unsigned angle shows; ties between keys do not occur.
def scan_pattern(seed):
    keys = [float(k) for k in range(-180, 181, 7)] + [180.0]
    return {a: {e: -(abs(a - 1.3 * seed) / 9.0) - abs(e - 0.7 * seed) / 3.0 - 0.01 * a for e in keys} for a in keys}


def antenna_pattern(seed):
    return {"ant": [{k: -(min(k, 360 - k) / 8.0) - (0.3 * seed if k > 180 else 0) for k in range(360)}, {k: -(min(k, 360 - k) / 5.0) - (0.4 * seed if k > 180 else 0) for k in range(360)}]}


PATTERNS = {}
# clients may know other modulation levels than distribution nodes
CN_TABLE = [(2, 1.5, 300.0, 0.0), (5, 6.25, 700.0, 1.5), (9, 12.5, 1500.0, 3.0), (14, 19.0, 2100.0, 5.0)]


def device(which):
    """sector parameters (as dict for the oracle) and the real devices."""
    if which in PATTERNS:
        return PATTERNS[which]
    common = dict(carrier_frequency=60000.0, thermal_noise_power=-81.0, noise_figure=7.0, rain_rate=30.0, link_availability_percentage=99.9)
    dn = dict(antenna_boresight_gain=30.0, maximum_tx_power=16.0, tx_diversity_gain=0.0, rx_diversity_gain=0.0, tx_miscellaneous_loss=0.0, rx_miscellaneous_loss=0.0, minimum_tx_power=None)
    cn = dict(dn)
    pats = dict(scan=(None, None), ant=(None, None))
    if which == "plain":
        pass
    if which in ("scan", "both", "floor", "noisy"):
        pats["scan"] = (scan_pattern(1), scan_pattern(2))
    if which in ("ant", "both", "floor", "noisy"):
        pats["ant"] = (antenna_pattern(1), antenna_pattern(2))
    if which in ("both", "floor", "noisy"):
        cn.update(antenna_boresight_gain=28.0, maximum_tx_power=12.0, rx_diversity_gain=1.5, rx_miscellaneous_loss=2.0, tx_miscellaneous_loss=0.5)
        dn.update(tx_diversity_gain=1.0, rx_miscellaneous_loss=0.75)
    if which == "floor":
        dn.update(minimum_tx_power=9.0)
    if which == "noisy":
        common.update(noise_figure=11.3, rain_rate=55.0)
    out = []
    for mk, sku, p, i in ((tg.dn_device, "DN_DEV", dn, 0), (tg.cn_device, "CN_DEV", cn, 1)):
        d = mk(sku, **{k: v for k, v in p.items()})
        sp = d.sector_params
        sp.scan_pattern_data = pats["scan"][i]
        sp.antenna_pattern_data = pats["ant"][i]
        assert [tuple(r) for r in sp.mcs_map] == [r for r in DEF_TABLE if p["minimum_tx_power"] is None or p["maximum_tx_power"] - r[3] >= p["minimum_tx_power"]]
        if which in ("noisy", "scan") and i == 1:
            sp.mcs_map = [MCSMap(*x) for x in CN_TABLE]
        p.update(common)
        out.append((d, p, pats["scan"][i], pats["ant"][i], [tuple(r) for r in sp.mcs_map]))
    PATTERNS[which] = (out[0], out[1], common)
    return PATTERNS[which]


def dev_of(which, s):
    return device(which)[1 if s.site_type == CN else 0]


# ---------------------------------------------------------------- networks
#        type, x, y, altitude, own azimuth offset of the sectors
LAYOUTS = {
    "fan": [(POP, 0, 0, 10.0), (DN, 150, 30, 22.0), (DN, 210, -50, 5.0), (CN, 260, 35, 8.0)],
    "line": [(POP, 0, 0, 10.0), (DN, 0, 160, 10.0), (DN, 10, 320, 30.0), (CN, -15, 460, 12.0)],
    "south": [(POP, 0, 0, 3.0), (DN, -60, -140, 9.0), (CN, -90, -250, 4.0), (CN, 60, -230, 4.0)],
    "wide": [(POP, 0, 0, 10.0), (DN, 150, 30, 22.0), (DN, 210, -50, 5.0), (DN, 60, 170, 12.0), (CN, 260, 35, 8.0)],
    "flat": [(POP, 0, 0, None), (DN, 180, 20, None), (DN, 330, -30, None), (CN, 300, 60, None)],
}


def pairs_of(layout):
    s = LAYOUTS[layout]
    n = len(s)
    return [(i, j) for i in range(n) for j in range(i + 1, n) if not (s[i][0] == CN and s[j][0] == CN)]


def build(layout, active, pols, chan, sect, which, redundant=(), wired=()):
    """active: pairs that are active; sect: 'used' (only sectors of active
    links are active) or 'all' (of active sites); chan: see below."""
    spec = LAYOUTS[layout]
    pairs = pairs_of(layout)
    used = {0} | {i for p in active for i in p}
    dn, cn, _ = device(which)
    sites, sectors = [], {}
    for i, (typ, x, y, alt) in enumerate(spec):
        s = tg.site(typ, x, y, alt, status=PROPOSED if i in used else CANDIDATE, name=f"s{i}", device=(cn if typ == CN else dn)[0])
        sites.append(s)
    links, by_pair = [], {}

    def sector(a, b):
        i = sites.index(a)
        if a.site_type == CN:
            # aimed at one fixed neighbour
            az, k = round(bearing(a, sites[0])) + 11.0, 0
        else:
            off = 17.0 * i
            k = min(range(4), key=lambda q: abs(signed(bearing(a, b) - off - 90 * q)))
            az = (off + 90 * k) % 360
        return sectors.setdefault((i, k), [az, False])

    ends = {}
    for i, j in pairs:
        for a, b in ((i, j), (j, i)):
            if sites[a].site_type == CN:
                continue
            sa, sb = sector(sites[a], sites[b]), sector(sites[b], sites[a])
            ends[(a, b)] = (sa, sb)
            if (i, j) in active:
                sa[1] = sb[1] = True
    objs = {}
    for (i, k), st in sectors.items():
        on = (st[1] or sect == "all") and i in used
        ch = {"one": 0, "none": -1, "split": k % 2, "half": 0 if (i + k) % 2 else -1, "site": 1 if i == 1 else 0}[chan]
        o = Sector(sites[i], k, 0, st[0], PROPOSED if on else CANDIDATE, ch)
        objs[id(st)] = o
    for s, pol in zip([s for s in sites if s.site_type != CN], pols):
        s.polarity = pol
    for (a, b), (sa, sb) in ends.items():
        p = (min(a, b), max(a, b))
        act = p in active
        w = p in wired
        l = Link(sites[a], sites[b], *((None, None) if w else (objs[id(sa)], objs[id(sb)])), status_type=PROPOSED if act else CANDIDATE, is_wireless=not w)
        l.is_redundant = p in redundant
        links.append(l)
    t = Topology(sites=sites, links=links, sectors=list(objs.values()))
    return t


# ---------------------------------------------------------------- oracle
def o_budget(which, l, eirp, deviation, pop_capacity):
    if not l.is_wireless:
        return dict(mcs_level=0, rsl_dbm=-math.inf, snr_dbm=-math.inf, capacity=pop_capacity, tx_power=-math.inf)
    if l.tx_sector is None or l.rx_sector is None:
        return dict(mcs_level=0, rsl_dbm=-math.inf, snr_dbm=-math.inf, capacity=0.0, tx_power=-math.inf)
    t, r = dev_of(which, l.tx_site), dev_of(which, l.rx_site)
    devs = (0.0, 0.0, 0.0, 0.0)
    if deviation:
        devs = (tdev(l), rdev(l), elev(l), 0.0 if l.rx_site.site_type == CN else -elev(l))
    pt, pr = (t[2], r[2]) if deviation else (None, None)
    o = o_est(dist3(l), o_maxtx(t[1], eirp), t[1], r[1], r[4], devs, pt, pr)
    o.pop("sinr_dbm")
    o["net"] = o_net(dist3(l), t[1], r[1], pt, pr, devs)
    return o


def path_gain(which, path, tl, rl):
    """Gain from the transmitter of tl to the receiver of rl over path; beams
    point along tl and rl."""
    t, r = dev_of(which, path.tx_site), dev_of(which, path.rx_site)
    devs = (
        signed(bearing(path.tx_site, path.rx_site) - bearing(tl.tx_site, tl.rx_site)),
        signed(bearing(path.rx_site, path.tx_site) * 0 + bearing(path.tx_site, path.rx_site) - bearing(rl.tx_site, rl.rx_site)),
        elev(path) - elev(tl),
        -(elev(path) - elev(rl)),
    )
    return o_net(dist3(path), t[1], r[1], t[3], r[3], devs)


def rx_polarity(t, s):
    if s.site_type != CN:
        return s.polarity
    got = {l.tx_site.polarity for l in t.links.values() if l.rx_site is s and l.status_type in ACTIVE}
    if len(got) != 1:
        return UNASSIGNED
    return {ODD: EVEN, EVEN: ODD, UNASSIGNED: UNASSIGNED}[got.pop()]


def o_gain_map(which, t):
    """{(path, interfered link, interfering link): gain}"""
    out = {}
    links = [l for l in t.links.values() if l.is_wireless and l.tx_sector is not None]
    for p in links:
        if p.tx_sector.status_type not in ACTIVE or p.rx_sector.status_type not in ACTIVE:
            continue
        a, b = p.tx_site.polarity, rx_polarity(t, p.rx_site)
        if a == b and a != UNASSIGNED:
            continue
        ca, cb = p.tx_sector.channel, p.rx_sector.channel
        if ca != cb and -1 not in (ca, cb):
            continue
        for rl in links:
            if rl.rx_sector is not p.rx_sector or rl.tx_sector is p.tx_sector or rl.status_type not in ACTIVE:
                continue
            for tl in links:
                if tl.tx_sector is not p.tx_sector or tl.rx_sector is p.rx_sector or tl.status_type not in ACTIVE:
                    continue
                if tl.rx_sector is rl.tx_sector or tl.is_redundant:
                    continue
                out[(p.link_id, rl.link_id, tl.link_id)] = path_gain(which, p, tl, rl)
    return out


def lin(x):
    return 0.0 if x == -math.inf else 10 ** (x / 10)


def o_interference(gains, power):
    """mW on each interfered link: sum over paths of the mean over the links
    that the interfering sector serves in turn."""
    acc = {}
    for (p, rl, tl), g in gains.items():
        acc.setdefault(rl, {}).setdefault(p, []).append(lin(power[tl] + g))
    return {rl: sum(sum(v) / len(v) for v in d.values()) for rl, d in acc.items()}


def o_sinr(which, l, rsl, interf):
    if rsl == -math.inf:
        return -math.inf
    r = dev_of(which, l.rx_site)[1]
    return rsl - 10 * math.log10(interf + lin(r["noise_figure"] + r["thermal_noise_power"]))


def close_inf(a, b):
    return a == b or abs(a - b) < 1e-6


def o_tpc(which, t, eirp, pop_capacity, iterations):
    b = {l.link_id: o_budget(which, l, eirp, True, pop_capacity) for l in t.links.values()}
    act = [l for l in t.links.values() if l.status_type in ACTIVE and l.is_wireless]
    gains = o_gain_map(which, t)
    power = {k: v["tx_power"] for k, v in b.items()}
    rsl = {k: v["rsl_dbm"] for k, v in b.items()}
    tie = False

    def sinrs():
        i = o_interference(gains, power)
        return {l.link_id: o_sinr(which, l, rsl[l.link_id], i.get(l.link_id, 0.0)) for l in act}

    def near(s, table):
        return any(1e-12 < abs(s - row[1]) < 1e-7 for row in table)

    it = 0
    for it in range(iterations):
        s = sinrs()
        stable = True
        for l in act:
            k = l.link_id
            tx, rx = dev_of(which, l.tx_site), dev_of(which, l.rx_site)
            if l.tx_sector is None or l.rx_sector is None:
                continue
            m = o_mcs(s[k] + EPS, rx[4])
            ni = rsl[k] - s[k]
            old = power[k]
            if m == 0:
                new = -math.inf
            else:
                _, new = o_backoff(m, rx[4], tx[1]["minimum_tx_power"], o_maxtx(tx[1], eirp) + EPS, b[k]["net"], ni)
            power[k] = new
            rsl[k] = new + b[k]["net"]
            stable = stable and (new == old or abs(new - old) < 1e-6)
        if stable:
            break
    s = sinrs()
    return b, power, rsl, s, gains, it, tie


# ---------------------------------------------------------------- cases
def plan(item, c):
    layout, active, pols, chan, sect, which, eirp, red = item
    t = build(layout, active, pols, chan, sect, which, red)
    params = tg.opt_params(device_list=[device(which)[0][0], device(which)[1][0]], maximum_eirp=eirp, **device(which)[2])
    # budgets after the optimization
    add_link_capacities(t, params, True)
    b = {}
    for l in t.links.values():
        o = b[l.link_id] = o_budget(which, l, eirp, True, params.pop_capacity)
        for f in ("mcs_level", "rsl_dbm", "snr_dbm", "capacity", "tx_power"):
            c.close(getattr(l, f), o[f], "budget", f"{f} of {l.tx_site.name}->{l.rx_site.name}")
    # interference at those powers
    gains = o_gain_map(which, t)
    real = {(p, r, x): g for p, m in compute_link_net_gain_map(t).items() for r, mm in m.items() for x, g in mm.items()}
    names = lambda k: [f"{t.links[i].tx_site.name}->{t.links[i].rx_site.name}" for i in k]
    c.check(set(real) == set(gains), "interfering-links", f"extra {[names(k) for k in set(real) - set(gains)][:2]} missing {[names(k) for k in set(gains) - set(real)][:2]}")
    for k in set(real) & set(gains):
        c.close(real[k], gains[k], "interference-gain", names(k), tol=1e-6)
    interf = o_interference(gains, {k: v["tx_power"] for k, v in b.items()})
    got = compute_link_rsl_map(t)
    for l in t.links.values():
        c.close(math.log10(got.get(l.link_id, 0) + 1e-30), math.log10(interf.get(l.link_id, 0.0) + 1e-30), "interference", names([l.link_id]), tol=1e-6)
    analyze_interference(t)
    for l in t.links.values():
        if l.is_wireless and l.status_type in ACTIVE:
            c.close(l.sinr_dbm, o_sinr(which, l, b[l.link_id]["rsl_dbm"], interf.get(l.link_id, 0.0)), "sinr", names([l.link_id]))
    # power control
    update_link_caps_with_sinr(t, params, 10)
    check_tpc(c, t, params, which, eirp, 10)
    c.state((layout, active, pols, chan, sect, which, eirp, red))
    c.outcome(tuple(sorted(l.mcs_level for l in t.links.values())), len(gains))


def check_tpc(c, t, params, which, eirp, iterations):
    b, power, rsl, s, gains, it, _ = o_tpc(which, t, eirp, params.pop_capacity, iterations)
    final = {l.link_id: l.tx_power for l in t.links.values()}
    interf = o_interference(gains, final)
    for l in t.links.values():
        k = l.link_id
        nm = f"{l.tx_site.name}->{l.rx_site.name} after {it + 1} iterations"
        if not l.is_wireless:
            c.close(l.capacity, params.pop_capacity, "tpc-wired", nm)
            continue
        table = dev_of(which, l.rx_site)[4]
        if l.status_type not in ACTIVE:
            c.close(l.tx_power, b[k]["tx_power"], "tpc-inactive", nm)
            c.close(l.rsl_dbm, b[k]["rsl_dbm"], "tpc-inactive", nm)
            want = o_mcs(l.sinr_dbm, table)
            c.close(l.sinr_dbm, b[k]["snr_dbm"], "tpc-inactive", nm)
        else:
            # what holds whatever the course of the iteration
            o = o_sinr(which, l, l.rsl_dbm, interf.get(k, 0.0))
            c.close(l.sinr_dbm, o, "tpc-sinr", nm)
            c.close(l.snr_dbm, o_sinr(which, l, l.rsl_dbm, 0.0), "tpc-snr", nm)
            if l.tx_sector is not None:
                c.check(l.tx_power == -math.inf or l.tx_power <= o_maxtx(dev_of(which, l.tx_site)[1], eirp) + EPS, "tpc-power-limit", nm)
                if l.tx_power > -math.inf:
                    c.close(l.rsl_dbm, l.tx_power + b[k]["net"], "tpc-rsl", nm)
            # the outcome of the documented iteration
            c.check(close_inf(l.tx_power, power[k]), "tpc-power", f"{nm}: {l.tx_power} want {power[k]}")
            c.check(close_inf(l.sinr_dbm, s[k]), "tpc-outcome", f"{nm}: {l.sinr_dbm} want {s[k]}")
            want = o_mcs(l.sinr_dbm, table)
            want2 = o_mcs(l.sinr_dbm + EPS, table)
            c.check(want == want2, "tpc-threshold", f"{nm}: SINR {l.sinr_dbm!r} is below its threshold by rounding")
        c.eq(l.mcs_level, want, "tpc-mcs", nm)
        c.close(l.capacity, next((r[2] for r in table if r[0] == want), 0.0) / 1000, "tpc-capacity", nm)


def before(item, c):
    """Budgets and worst-case interference of candidates, before optimization."""
    layout, which, eirp, out, wired = item
    pairs = pairs_of(layout)
    t = build(layout, frozenset(pairs), (ODD, EVEN, EVEN, ODD), "one", "used", which, wired=wired)
    for k, l in enumerate(t.links.values()):
        if l.is_wireless and k in out:
            # active links have sectors (validate_topology_status)
            for x in (l, t.get_link_by_site_ids(l.rx_site.site_id, l.tx_site.site_id)):
                if x is not None:
                    x.status_type = CANDIDATE
            l.clear_sectors()
    params = tg.opt_params(device_list=[device(which)[0][0], device(which)[1][0]], maximum_eirp=eirp, pop_capacity=4.0, **device(which)[2])
    for dv in (False, True, False):
        add_link_capacities(t, params, dv)
        for l in t.links.values():
            o = o_budget(which, l, eirp, dv, 4.0)
            for f in ("mcs_level", "rsl_dbm", "snr_dbm", "capacity", "tx_power"):
                c.close(getattr(l, f), o[f], "budget", f"{f} of {l.tx_site.name}->{l.rx_site.name} deviation={dv}")
    got = compute_link_interference(t, eirp)
    c.eq(set(got), {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values()}, "candidate-interference")
    for l in t.links.values():
        g = got[(l.tx_site.site_id, l.rx_site.site_id)]
        if not l.is_wireless or l.tx_sector is None:
            c.eq(g, -math.inf, "candidate-interference")
            continue
        a, r = dev_of(which, l.tx_site), dev_of(which, l.rx_site)
        net = o_net(dist3(l), a[1], r[1], a[3], r[3], (tdev(l), rdev(l), elev(l), -elev(l)))
        c.close(g, o_maxtx(a[1], eirp) + net, "candidate-interference", f"{l.tx_site.name}->{l.rx_site.name}")
    update_link_caps_with_sinr(t, params, 10)
    check_tpc(c, t, params, which, eirp, 10)


def lonely(item, c):
    """An active CN none of whose incoming links is active."""
    status, = item
    p = tg.site(POP, 0, 0, status=status, name="p")
    n = tg.site(CN, 120, 0, status=status, name="c")
    d = tg.site(DN, 60, 90, status=status, name="d")
    ps, ns, ds = Sector(p, 0, 0, 90.0, status, 0), Sector(n, 0, 0, 270.0, status, 0), Sector(d, 0, 0, 180.0, status, 0)
    t = Topology(sites=[p, n, d], sectors=[ps, ns, ds], links=[Link(tx_sector=ps, rx_sector=ns), Link(tx_sector=ps, rx_sector=ds, status_type=status), Link(tx_sector=ds, rx_sector=ps, status_type=status), Link(tx_sector=ds, rx_sector=ns)])
    p.polarity, d.polarity = ODD, EVEN
    update_link_caps_with_sinr(t, tg.opt_params(device_list=[tg.DN_DEV, tg.CN_DEV]), 10)
    for l in t.links.values():
        c.check(l.capacity >= 0, "lonely")


# ---------------------------------------------------------------- rules
RULE_BEARINGS = [0, 14, 15, 16, 28, 44, 45, 46, 90, 180, 266, 345, 346]
RULE_DIST = [50, 100, 150, 151, 310]


def around(lat, lon, brg, d):
    """A point at exactly this bearing and distance on the sphere."""
    a, la, lo, b = d / 6371000.0, math.radians(lat), math.radians(lon), math.radians(brg)
    la2 = math.asin(math.sin(la) * math.cos(a) + math.cos(la) * math.sin(a) * math.cos(b))
    lo2 = lo + math.atan2(math.sin(b) * math.sin(a) * math.cos(la), math.cos(a) - math.sin(la) * math.sin(la2))
    return tg.GeoLocation(latitude=math.degrees(la2), longitude=math.degrees(lo2), altitude=0.0)


def rules(item, c):
    """Star networks: which pairs of links are too close."""
    arms, limits, ratio, active_only, nodes = item  # nodes: (node, position in the node) of each sector of the root
    root = tg.site(DN, status=PROPOSED, name="r", location=tg.GeoLocation(latitude=47.8, longitude=3.0, altitude=0.0))
    sites, sectors, links = [root], {}, []
    for k, (brg, d, sec, act, typ, ch) in enumerate(arms):
        s = tg.site(typ, status=PROPOSED if act else CANDIDATE, name=f"a{k}", location=around(47.8, 3.0, brg, d))
        sites.append(s)
        tx = None
        if sec is not None:
            tx = sectors.setdefault(("r", sec), Sector(root, nodes[sec][0], nodes[sec][1], 90.0 * sec, PROPOSED, ch))
            rx = sectors.setdefault((k, 0), Sector(s, 0, 0, (brg + 180) % 360, PROPOSED if act else CANDIDATE, ch))
            links.append(Link(root, s, tx, rx, PROPOSED if act else CANDIDATE))
            if typ != CN:
                links.append(Link(s, root, rx, tx, PROPOSED if act else CANDIDATE))
        else:
            links.append(Link(root, s, status_type=PROPOSED if act else CANDIDATE, is_wireless=False))
            links.append(Link(s, root, status_type=PROPOSED if act else CANDIDATE, is_wireless=False))
    t = Topology(sites=sites, sectors=list(sectors.values()), links=links)
    got = find_angle_violating_link_pairs(t, limits[0], limits[1], ratio, active_only)
    want = ([], [])
    ids = [s.site_id for s in sites[1:]]
    for i, j in itertools.combinations(range(len(arms)), 2):
        a, b = arms[i], arms[j]
        if a[2] is None or b[2] is None or (active_only and not (a[3] and b[3])):
            continue
        if a[2] == b[2]:
            continue
        if active_only and sectors[("r", a[2])].channel != sectors[("r", b[2])].channel:
            continue
        ang = abs(signed(a[0] - b[0]))
        tri = (root.site_id,) + tuple(sorted((ids[i], ids[j])))
        if ang <= limits[0]:
            want[0].append(tri)
        elif limits[0] < ang <= limits[1] and max(a[1], b[1]) / min(a[1], b[1]) >= ratio:
            want[1].append(tri)
    c.eq(sorted(got.diff_sector_list), sorted(want[0]), "angle-rule", str(item))
    c.eq(sorted(got.near_far_list), sorted(want[1]), "near-far-rule", str(item))
    bad = get_violating_link_ids(t, got.diff_sector_list)
    exp = {l.link_id for l in t.links.values() for (r, a, b) in want[0] if {l.tx_site.site_id, l.rx_site.site_id} in ({r, a}, {r, b})}
    c.eq(bad, exp, "violating-links", str(item))
    c.outcome(len(want[0]), len(want[1]))


def limits(item, c):
    """Sector limits over all sets of active arms of two sectors."""
    arms, status, dn_limit, total, node0 = item
    root = tg.site(DN, 0, 0, status=status, name="r")
    secs = [Sector(root, 0, 0, 0.0, status), Sector(root, 0 if node0 else 1, 1 if node0 else 0, 180.0, status)]
    if status == PROPOSED and not any(a[1] for a in arms):
        secs[1].status_type = CANDIDATE
    sites, sectors, links = [root], list(secs), []
    rx_of = {}
    for k, (typ, act, s) in enumerate(arms):
        # None: the site is active, the link is not
        st = tg.site(typ, 20 * (k + 1), 50, status=CANDIDATE if act is False else PROPOSED, name=f"a{k}")
        rx = Sector(st, 0, 0, 0.0, CANDIDATE if act is False else PROPOSED)
        sites.append(st)
        sectors.append(rx)
        act = bool(act) and secs[s].status_type in ACTIVE
        links.append(Link(root, st, secs[s], rx, PROPOSED if act else CANDIDATE))
        if typ != CN:
            links.append(Link(st, root, rx, secs[s], PROPOSED if act else CANDIDATE))
    t = Topology(sites=sites, sectors=sectors, links=links)
    got = find_sector_limit_violations(t, dn_limit, total)
    want = set()
    for sec in t.sectors.values():
        if sec.site.site_type == CN or sec.status_type not in ACTIVE:
            continue
        act = [l for l in t.links.values() if l.tx_sector is sec and l.status_type in ACTIVE]
        dns = [l for l in act if l.rx_site.site_type != CN]
        if len(dns) > dn_limit or len(act) > total:
            want.add(sec.sector_id)
    c.eq(set(got), want, "sector-limit", str(item))
    for k, v in got.items():
        act = {l.rx_sector.sector_id for l in t.links.values() if l.tx_sector is t.sectors[k] and l.status_type in ACTIVE}
        c.check(act <= set(v), "sector-limit-links", str(item))
    c.outcome(len(want))


def spaces(quick):
    out = []

    def subsets(layout):
        p = pairs_of(layout)
        cns = [i for i, s in enumerate(LAYOUTS[layout]) if s[0] == CN]
        for r in range(len(p) + 1):
            for a in itertools.combinations(p, r):
                out = a
                if all(sum(1 for x in a if k in x) <= 2 for k in cns):
                    yield frozenset(out)

    def ndn(layout):
        return sum(1 for s in LAYOUTS[layout] if s[0] != CN)

    for lay in ("fan", "line", "south", "flat"):
        subs = list(subsets(lay))
        for n, a in enumerate(subs):
            for m, pol in enumerate(itertools.product((ODD, EVEN, UNASSIGNED), repeat=ndn(lay))):
                for k, (ch, sect) in enumerate(itertools.product(("one", "none", "split", "half", "site"), ("used", "all"))):
                    if quick and (n * 7 + m * 3 + k) % 11:
                        continue
                    which = ("both", "plain", "scan", "ant", "floor", "noisy")[(n + m + k) % 6]
                    eirp = (None, 36.0, 43.0, 27.0)[(n + m // 3 + k) % 4]
                    out.append((lay, a, pol, ch, sect, which, eirp, frozenset()))
        # redundant links
        for n, a in enumerate(subs):
            for r in range(1, len(a) + 1):
                for m, red in enumerate(itertools.combinations(sorted(a), r)):
                    if quick and (n + m) % 3:
                        continue
                    pol = (ODD, EVEN, EVEN, ODD)[: ndn(lay)]
                    out.append((lay, a, pol, "one", "used", ("both", "noisy")[(n + m) % 2], None, frozenset(red)))
    subs = list(subsets("wide"))
    for n, a in enumerate(subs):
        for m, pol in enumerate(itertools.product((ODD, EVEN), repeat=4)):
            if quick and (n * 5 + m) % 23:
                continue
            for k, which in enumerate(("both", "plain", "floor", "noisy", "scan", "ant")):
                if (n + m + k) % (6 if quick else 2):
                    continue
                out.append(("wide", a, pol, "one", "used", which, (None, 40.0)[(n + m) % 2], frozenset()))
    return out


def main(r):
    q = r.quick
    r.map(plan, spaces(q), "active-networks")
    bef = []
    for lay in LAYOUTS:
        p = pairs_of(lay)
        nl = len([1 for i, j in p for a in (i, j) if LAYOUTS[lay][a][0] != CN])
        for which in ("plain", "scan", "ant", "both", "floor", "noisy"):
            for eirp in (None, 36.0, 43.0, 27.0):
                for out in [()] + [(k,) for k in range(nl)]:
                    bef.append((lay, which, eirp, out, ()))
                for w in p:
                    if LAYOUTS[lay][w[1]][0] != CN:
                        bef.append((lay, which, eirp, (), (w,)))
    r.map(before, bef[::3] if q else bef, "candidate-budgets")
    r.map(lonely, [(PROPOSED,), (EXISTING,)], "active-cn-without-link")
    arms = []
    one = [(b, d, s, a, ty, 0) for b in RULE_BEARINGS for d in RULE_DIST for s in (0, 1) for a in (True, False) for ty in (DN, CN)]
    base = [(b, 100, 0, True, DN, 0) for b in (0, 352)]
    for b0 in base:
        for o in one:
            for lim in ((14.5, 44.5), (25, 45.5), (44.5, 45.5)):
                for ratio in (1.45, 3.05):
                    for act in (True, False):
                        arms.append(((b0, o), lim, ratio, act))
    small = [(b, d, s, True, DN, 0) for b in (0, 10, 40, 350) for d in (100, 310) for s in (0, 1)] + [(10, 100, None, True, DN, 0), (20, 100, 1, False, DN, 0), (30, 100, 1, True, CN, 1), (20, 100, 2, True, DN, 1)]
    for n, tri in enumerate(itertools.combinations(small, 3)):
        for act in (True, False):
            arms.append((tri, (15, 45), 3.05, act))
    many = [(b, 100 + 55 * (q % 2), q % 2, True, (DN, CN)[q // 2 % 2], 0) for q, b in enumerate(range(-18, 19, 4))]
    for n in (4, 6, 8, 10):  # more close links than any small number
        for act in (True, False):
            arms.append((tuple(many[:n]), (15, 45), 1.2, act))
    # a sector has one channel
    arms = [a for a in arms if all(x[5] == y[5] for x in a[0] for y in a[0] if x[2] == y[2])]
    arms = [a for a in arms if len({x[:2] for x in a[0]}) == len(a[0])]  # no two sites at one place
    layouts = [((0, 0), (1, 0), (2, 0)), ((0, 0), (0, 1), (1, 0)), ((1, 0), (0, 0), (0, 1))]
    arms = [a + (n,) for a in arms for n in layouts]
    r.map(rules, [a for k, a in enumerate(arms) if not q or mix(k) % 3 == 0], "angle-rules")
    kinds = [(ty, act, s) for ty in (DN, CN, POP) for act in (True, False, None) for s in (0, 1)]
    lims = []
    for k in range(0, 4 if q else 5):
        for combo in itertools.combinations_with_replacement(kinds, k):
            for st in (PROPOSED, EXISTING):
                for d, tot in ((1, 1), (1, 2), (2, 2), (0, 3)):
                    for node0 in (False, True):
                        lims.append((combo, st, d, tot, node0))
    r.map(limits, [a for k, a in enumerate(lims) if not q or mix(k) % 12 == 0], "sector-limits")
    r.assumptions += ["links with SINR within 1e-9 dB of an MCS threshold are taken to reach it"]

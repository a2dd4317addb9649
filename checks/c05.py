"""C05: radio link budget: received power, modulation level, transmit power, capacity.

Every combination of a parameter alphabet (one- and two-parameter deviations
from the base device at every distance of a ladder, three-parameter ones in
thorough) is pushed through the real estimation and compared with a formula
written from the RF documentation; every modulation table over a small level
alphabet x every signal level on a lattice decides the table look-ups.
"""
import itertools
import math

from tg import *  # noqa
from terragraph_planner.common.exceptions import ConfigException
from terragraph_planner.common.rf.link_budget_calculator import (
    adjust_tx_power_with_backoff,
    compute_oxygen_loss,
    compute_rain_loss,
    fspl_based_estimation,
    get_fspl_based_net_gain,
    get_max_tx_power,
    get_mcs_from_snr,
    get_snr_from_mcs,
)
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.los.helper import (
    get_max_los_dist_for_device_pairs,
    search_max_los_dist_based_on_capacity,
)

DEF_TABLE = [
    (3, 3, 0, 0), (4, 4.5, 67.5, 0), (5, 5, 115, 0), (6, 5.5, 260, 0),
    (7, 7.5, 452.5, 0), (8, 9, 645, 0), (9, 12, 741.25, 0), (10, 14, 1030, 2),
    (11, 16, 1415, 4), (12, 18, 1800, 6),
]
OXY = {52: 0, 53: 1, 54: 2.2, 55: 4, 56: 6.6, 57: 9.7, 58: 12.6, 59: 14.6, 60: 15,
       61: 14.6, 62: 14.3, 63: 10.5, 64: 6.8, 65: 3.9, 66: 1.9, 67: 1, 68: 0}
BASE = dict(
    antenna_boresight_gain=30.0, maximum_tx_power=16.0, carrier_frequency=60000.0,
    thermal_noise_power=-81.0, noise_figure=7.0, rain_rate=30.0,
    link_availability_percentage=99.9, tx_diversity_gain=0.0, rx_diversity_gain=0.0,
    tx_miscellaneous_loss=0.0, rx_miscellaneous_loss=0.0, minimum_tx_power=None,
)
ALT = dict(
    antenna_boresight_gain=[0.0, 28.5, 36.0],
    maximum_tx_power=[0.0, 10.0, 23.0],
    carrier_frequency=[52000.0, 58320.0, 66500.0, 70000.0],
    thermal_noise_power=[-90.0, -70.0],
    noise_figure=[0.0, 9.5],
    rain_rate=[0.0, 55.0],
    link_availability_percentage=[90.0, 99.0, 99.99],
    tx_diversity_gain=[3.0],
    rx_diversity_gain=[2.0],
    tx_miscellaneous_loss=[1.5],
    rx_miscellaneous_loss=[2.5],
    minimum_tx_power=[-5.0, 10.0, "max"],
)
DIST = [0, 1, 10, 50, 100, 137, 180, 200, 231, 260, 300, 350, 420, 600, 1000, 5000]
AZ = {None: None}


# ---------------------------------------------------------------- oracle
def o_fspl(d, f):
    return max(0.0, 20 * math.log10(d) + 20 * math.log10(f) + 92.45) if d > 0 else 0.0


def o_oxy(d, f):
    if f < 52 or f > 68:
        return 0.0
    lo = min(int(math.floor(f)), 67)
    return (OXY[lo] + (OXY[lo + 1] - OXY[lo]) * (f - lo)) * d


def o_rain(d, R, avail, f):
    if d <= 0:
        return 0.0
    p = 100 - avail
    spec = 0.8515 * R**0.7486
    r = 1 / (
        0.477 * d**0.633 * R ** (0.073 * 0.7486) * f**0.123
        - 10.579 * (1 - math.exp(-0.024 * d))
    )
    a = spec * d * min(r, 2.5)
    c0 = 0.12 + 0.4 * math.log10((f / 10) ** 0.8)
    c1 = 0.07**c0 * 0.12 ** (1 - c0)
    c2 = 0.855 * c0 + 0.546 * (1 - c0)
    c3 = 0.139 * c0 + 0.043 * (1 - c0)
    return max(0.0, a * c1 * p ** (-(c2 + c3 * math.log10(p))))


def near(keys, x):
    return min(keys, key=lambda k: abs(k - x))


def o_gain(bore, div, pattern, az, el):
    g = bore + div
    if pattern is None:
        return g
    first = next(iter(pattern))
    if isinstance(first, float):
        top = max(v for row in pattern.values() for v in row.values())
        row = pattern[near(pattern, az)]
        return g + row[near(row, el)] - top
    return g + pattern[first][0][round(az) % 360] + pattern[first][1][round(el) % 360]


def o_net(dist, tx, rx, txp, rxp, devs):
    if rx is None:
        rx, rxp = tx, txp
    d, f = dist / 1000, tx["carrier_frequency"] / 1000
    return (
        o_gain(tx["antenna_boresight_gain"], tx["tx_diversity_gain"], txp, devs[0], devs[2])
        - tx["tx_miscellaneous_loss"]
        + o_gain(rx["antenna_boresight_gain"], rx["rx_diversity_gain"], rxp, devs[1], devs[3])
        - rx["rx_miscellaneous_loss"]
        - o_fspl(d, f)
        - o_rain(d, tx["rain_rate"], tx["link_availability_percentage"], f)
        - o_oxy(d, f)
    )


def o_maxtx(tx, eirp):
    p = tx["maximum_tx_power"]
    if eirp is not None:
        p = min(p, eirp - tx["antenna_boresight_gain"] - tx["tx_diversity_gain"])
    if tx["minimum_tx_power"] is not None:
        p = max(p, tx["minimum_tx_power"])
    return p


def o_mcs(snr, table):
    ok = [m for m, s, _, _ in table if not math.isnan(snr) and snr >= s]
    return max(ok, default=0)


def o_backoff(mcs, table, mintx, maxtx, net, npow):
    """Highest level not above mcs whose needed power fits; (0, -inf) if none."""
    for m, s, _, b in sorted(table, reverse=True):
        if 0 < m <= mcs:
            need = s + npow - net
            if mintx is not None:
                need = max(need, mintx)
            if need <= maxtx - b:
                return m, need
    return 0, -math.inf


def o_est(dist, maxtx, tx, rx, table, devs, txp, rxp):
    net = o_net(dist, tx, rx, txp, rxp, devs)
    npow = rx["noise_figure"] + rx["thermal_noise_power"]
    mcs = o_mcs(maxtx + net - npow, table)
    mcs, _ = o_backoff(mcs, table, tx["minimum_tx_power"], maxtx, net, npow)
    row = [t for t in table if t[0] == mcs]
    cap = row[0][2] / 1000 if row else 0.0
    power = maxtx - (row[0][3] if row else 0.0)
    return dict(
        mcs_level=mcs, capacity=cap, tx_power=power, rsl_dbm=power + net,
        snr_dbm=power + net - npow, sinr_dbm=power + net - npow,
    )


def tab(t):
    return [MCSMap(*r) for r in t]


def fill(delta):
    p = dict(BASE)
    p.update(delta)
    if p["minimum_tx_power"] == "max":
        p["minimum_tx_power"] = p["maximum_tx_power"]
    if p["minimum_tx_power"] is not None and p["minimum_tx_power"] > p["maximum_tx_power"]:
        p["minimum_tx_power"] = p["maximum_tx_power"]
    return p


def margin_ok(dist, maxtx, tx, rx, table, devs, txp, rxp):
    """No threshold within rounding noise (either side may then be reported)."""
    net = o_net(dist, tx, rx, txp, rxp, devs)
    npow = rx["noise_figure"] + rx["thermal_noise_power"]
    for m, s, _, b in table:
        if abs(maxtx + net - npow - s) < 1e-9 or abs(s + npow - net - maxtx + b) < 1e-9:
            return False
    return True


def params(p):
    return SectorParams(**p)


EIRPS = [None, 20.0, 40.0, 43.0]


def budget(item, c):
    """One pair of (tx, rx) parameter sets over all distances and power caps."""
    dtx, drx = item
    tx, rx = fill(dtx), fill(drx)
    ptx, prx = params(tx), params(rx)
    table = DEF_TABLE
    for eirp in EIRPS:
        mt = get_max_tx_power(ptx, eirp)
        want_mt = o_maxtx(tx, eirp)
        c.close(mt, want_mt, "max-tx-power", f"{item} eirp={eirp}")
        prev = None
        for d in DIST:
            net = get_fspl_based_net_gain(d, ptx, None, prx, None, 0, 0, 0, 0)
            c.close(net, o_net(d, tx, rx, None, None, (0, 0, 0, 0)), "net-gain", f"{item} d={d}")
            if not margin_ok(d, want_mt, tx, rx, table, (0,) * 4, None, None):
                continue
            m = fspl_based_estimation(d, mt, ptx, prx, tab(table), 0, 0, 0, 0, None, None)
            w = o_est(d, want_mt, tx, rx, table, (0,) * 4, None, None)
            for k, v in w.items():
                c.close(getattr(m, k), v, f"budget-{k}", f"{item} d={d} eirp={eirp}")
            c.outcome(m.mcs_level, eirp is None)
            if d and prev is not None:
                c.check(m.capacity <= prev + 1e-12, "capacity-grows-with-distance", f"{item} d={d}")
            if d:
                prev = m.capacity
    # the two link directions share distance only: asymmetric losses stay put
    sym = get_fspl_based_net_gain(137, ptx, None, None, None, 0, 0, 0, 0)
    c.close(sym, o_net(137, tx, None, None, None, (0,) * 4), "net-gain-symmetric", str(item))


# ------------------------------------------------------------- patterns
def scan_pattern(keys_h, keys_v):
    return {float(h): {float(v): 30.0 - abs(h) / 7 - abs(v - 2) / 3 - h / 90 for v in keys_v} for h in keys_h}


def antenna_pattern(n):
    return {
        f"ant{i}": [
            [-(a % 360) / 10.0 - 100 * i for a in range(360)],
            [-(a % 360) / 20.0 - 50 * i - 0.25 for a in range(360)],
        ]
        for i in range(n)
    }


PATTERNS = {
    "none": None,
    "scan": scan_pattern(range(-45, 46, 15), range(-20, 21, 5)),
    "scanside": {float(h): {float(v): 20.0 + h / 7 - abs(v - 3) / 2 for v in range(-8, 9, 4)} for h in range(-28, 29, 14)},  # strongest at the edge
    "scan0": scan_pattern([0, 3, 10], [0, 1]),
    "scanneg": {float(h): {float(v): -abs(h) - abs(v) / 2 for v in (-10, 0, 10)} for h in (-30, 0, 30)},
    "ant": antenna_pattern(1),
    "ant2": antenna_pattern(2),
}
DEVS = [0, 0.3, -0.3, 0.7, 1, -1, 4.9, 5.1, 14.9, -15, 44.6, -44.6, 90, -90, 179.4, -179.4, 180, 179.7]
ELS = [0, 0.4, -0.4, 0.6, 2, -2, 7.3, -7.6, 20, -20, 88.8, -89.2]


def patterns(item, c):
    pt, pr, az = item
    tx = fill(dict(tx_diversity_gain=1.0, tx_miscellaneous_loss=0.5))
    rx = fill(dict(antenna_boresight_gain=25.0, rx_diversity_gain=0.5, noise_figure=6.0))
    ptx, prx = params(tx), params(rx)
    for raz in DEVS[::3] if pr != "none" else [0]:
        for el in ELS:
            devs = (az, raz, el, -el)
            tp, rp = PATTERNS[pt], PATTERNS[pr]
            net = get_fspl_based_net_gain(150, ptx, tp, prx, rp, *devs)
            c.close(net, o_net(150, tx, rx, tp, rp, devs), "net-gain-pattern", f"{item} {devs}")
            if (isinstance(tp, dict) and not pt.startswith("scan")) or pr.startswith("ant"):
                continue
            if not margin_ok(150, 16.0, tx, rx, DEF_TABLE, devs, tp, rp):
                continue
            m = fspl_based_estimation(150, 16.0, ptx, prx, tab(DEF_TABLE), *devs, tp, rp)
            w = o_est(150, 16.0, tx, rx, DEF_TABLE, devs, tp, rp)
            for k, v in w.items():
                c.close(getattr(m, k), v, f"budget-pattern-{k}", f"{item} {devs}")
            c.outcome(m.mcs_level)
    sym = get_fspl_based_net_gain(150, ptx, PATTERNS[pt], None, None, az, -az, 2, -2)
    c.close(sym, o_net(150, tx, None, PATTERNS[pt], None, (az, -az, 2, -2)), "net-gain-pattern-sym", str(item))


# ------------------------------------------------- modulation table look-up
def tables(quick):
    """Every table over levels 1..5 with increasing thresholds and backoffs."""
    out = []
    for n in range(1, 4 if quick else 5):
        for ms in itertools.combinations(range(1, 6), n):
            for sn in itertools.combinations([2.0, 3.0, 5.5, 6.0, 9.0] if not quick else [2.0, 3.0, 5.5, 9.0], n):
                for bo in itertools.combinations_with_replacement([0, 2.0, 5.0], n):
                    out.append(tuple((m, s, 100.0 * m, b) for m, s, b in zip(ms, sn, bo)))
    return out


def lookup(item, c):
    t = item
    orders = [t, tuple(reversed(t))]
    for tt in orders:
        T = tab(tt)
        for q in range(-4, 44):
            snr = q / 4.0
            c.eq(get_mcs_from_snr(snr, T), o_mcs(snr, tt), "mcs-from-snr", f"{tt} {snr}")
        c.eq(get_mcs_from_snr(float("nan"), T), 0, "mcs-from-nan", str(tt))
        for m in range(0, 8):
            want = max((s for mm, s, _, _ in tt if mm <= m), default=0)
            c.eq(get_snr_from_mcs(m, T), want, "snr-from-mcs", f"{tt} {m}")
        for start in [0] + [r[0] for r in tt]:
            for mintx in (None, 3.0):
                for maxtx in (2.0, 6.0, 10.0):
                    if mintx is not None and mintx > maxtx:
                        continue
                    for net in (-3.0, 0.25, 3.0):
                        got = adjust_tx_power_with_backoff(start, T, mintx, maxtx, net, 0.0)
                        want = o_backoff(start, tt, mintx, maxtx, net, 0.0)
                        c.close(list(got), list(want), "tx-power-backoff", f"{tt} {start} {mintx} {maxtx} {net}")
                        c.outcome(got[0])


# -------------------------------------------------------- propagation models
def propagation(item, c):
    f, R = item
    for d in (0.0, 1e-7, 0.001, 0.05, 0.2, 0.2001, 1.0, 4.0, 20.0):
        c.close(compute_oxygen_loss(d, f * 1000), o_oxy(d, f), "oxygen", f"{item} {d}")
        prev = None
        for av in (0, 50, 90, 99, 99.5, 99.9, 99.99):
            got = compute_rain_loss(d, R, av, f * 1000)
            c.close(got, o_rain(d, R, av, f), "rain", f"{item} d={d} av={av}")
            c.check(got >= 0, "rain-negative", f"{item} {d}")
            if prev is not None and av >= 90:
                c.check(got >= prev - 1e-9, "rain-less-with-more-availability", f"{item} {d} {av}")
            prev = got


def certain(item, c):
    """A link that must be live 100 % of the time is a legal configuration."""
    try:
        v = compute_rain_loss(0.1, item, 100, 60000.0)
        c.check(v >= 0, "availability-100", str(v))
    except ValueError as e:
        c.fail("availability-100", f"rain rate {item}: {e}")


# -------------------------------------------------------------- reach limits
def o_reach(maxtx, tx, rx, table, hi):
    z = dict(antenna_boresight_gain=0)
    for d in range(0, hi + 1):
        if o_est(d, maxtx, tx, rx, table, (0,) * 4, None, None)["capacity"] <= 0:
            return d
    return None


def reach(item, c):
    dtx, drx, lo_mcs = item
    tx, rx = fill(dtx), fill(drx)
    table = [r for r in DEF_TABLE if lo_mcs is None or r[0] >= lo_mcs]
    mt = o_maxtx(tx, None)
    got = search_max_los_dist_based_on_capacity(0, 1500, mt, params(tx), params(rx), tab(table))
    want = o_reach(mt, tx, rx, table, 1500)
    c.eq(got, want, "reach", str(item))
    c.outcome(got)


def pairs(item, c):
    devs, eirp, mdd, mdc, ub = item
    L = [
        DeviceData(device_sku=f"D{i}", sector_params=params(fill(d)), device_type=DeviceType.DN if t == "DN" else DeviceType.CN,
                   number_of_nodes_per_site=None if t == "DN" else 1)
        for i, (t, d) in enumerate(devs)
    ]
    top = max(r[0] for r in DEF_TABLE)
    kinds = {t for t, _ in devs}
    if "DN" in kinds and ((mdd or 0) > top or "CN" in kinds and (mdc or 0) > top):
        # no level of the table is high enough
        c.raises(lambda: get_max_los_dist_for_device_pairs(L, eirp, mdd, mdc, ub), ConfigException, "reach-no-level", str(item))
        c.outcome("rejected")
        return
    got = get_max_los_dist_for_device_pairs(L, eirp, mdd, mdc, ub)
    want = {}
    cache = {}

    def one(i, j):
        if (i, j) not in cache:
            lim = mdd if devs[j][0] == "DN" else mdc
            table = [r for r in DEF_TABLE if lim is None or r[0] >= lim]
            tx, rx = fill(devs[i][1]), fill(devs[j][1])
            cache[i, j] = o_reach(o_maxtx(tx, eirp), tx, rx, table, 1500)
        return cache[i, j]

    for i, (ti, _) in enumerate(devs):
        if ti == "CN":
            continue
        for j, (tj, _) in enumerate(devs):
            v = one(i, j)
            if tj == "DN":
                v = max(v, one(j, i))  # a two way link reaches as far as its better direction
            want[f"D{i}", f"D{j}"] = v if ub is None else min(v, ub)
    c.eq(got, want, "reach-pairs", str(item))
    c.outcome(tuple(sorted(got.values())))


def main(r):
    r.assumptions += [
        "double precision, tolerance 1e-6 relative; points within 1e-9 dB of a modulation threshold are not judged",
        "transmit and receive parameters use the same carrier frequency (the transmitter's is used)",
    ]
    singles = [{}] + [{k: v} for k, vs in ALT.items() for v in vs]
    ks = list(ALT)
    doubles = [
        {a: x, b: y} for a, b in itertools.combinations(ks, 2) for x in ALT[a] for y in ALT[b]
    ]
    items = [(a, b) for a in singles for b in ([{}, {"noise_figure": 9.5, "rx_miscellaneous_loss": 2.5, "antenna_boresight_gain": 28.5}] if r.quick else singles)]
    if r.quick:
        items += [({}, b) for b in singles] + [(a, {}) for a in doubles[::2]]
    else:
        items += [(a, {}) for a in doubles] + [({}, a) for a in doubles]
        items += [
            ({a: x, b: y, d: z}, {})
            for a, b, d in itertools.combinations(ks, 3)
            for x in ALT[a] for y in ALT[b] for z in ALT[d]
        ]
    r.map(budget, items)
    r.map(patterns, [(a, b, d) for a in PATTERNS for b in PATTERNS for d in DEVS])
    r.map(lookup, tables(r.quick))
    fs = [20.0, 51.9, 52.0, 52.5, 57.3, 58.32, 60.0, 60.48, 62.64, 64.8, 66.96, 67.5, 68.0, 68.1, 80.0]
    r.map(propagation, [(f, R) for f in fs for R in (0.0, 0.25, 5.0, 30.0, 55.0, 120.0)])
    r.map(certain, [30.0, 0.0])
    small = [{}, {"maximum_tx_power": 10.0}, {"antenna_boresight_gain": 28.5}, {"noise_figure": 9.5}]
    r.map(reach, [(a, b, m) for a in (singles if not r.quick else singles[::2] + small) for b in small for m in (None, 7, 9, 12)
                  if a.get("antenna_boresight_gain") != 36.0 and a.get("maximum_tx_power") != 23.0])
    dl = []
    for n in (1, 2, 3):
        for combo in itertools.product([("DN", {}), ("DN", {"maximum_tx_power": 10.0}), ("CN", {"antenna_boresight_gain": 25.0}), ("CN", {"noise_figure": 9.5})], repeat=n):
            if len({repr(x) for x in combo}) == n:
                dl.append(combo)
    r.map(pairs, [(d, e, a, b, u) for d in dl for e in (None, 38.0) for a, b in ((None, None), (9, None), (None, 9), (7, 10), (13, None), (None, 13), (13, 12)) for u in (None, 190)
                  if not (r.quick and len(d) == 3 and (e or u is None and a))])

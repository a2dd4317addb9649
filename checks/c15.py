"""C15: demand sites: where demand is placed and which sites can serve it."""
import itertools
import math

import tg
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, DemandSite, GeoLocation, LocationType, Topology
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.topology_demand import add_demand_to_topology

R = 6371000.0
M = math.degrees(1 / R)  # degrees of latitude per meter

# name: (type, x, y, altitude, device sku suffix, building, subscribers)
CATALOGUE = {
    "cA": (CN, 0, 0, 5.0, "", None, None),
    "cA2": (CN, 0, 0, 9.0, "", None, 3),  # above cA
    "cAx": (CN, 0, 0, 5.0, "X", None, 2),  # other device, same place as cA
    "dA": (DN, 0, 0, 5.0, "", None, None),  # same place as cA
    "dA9": (DN, 0, 0, 9.0, "", None, 7),  # same place as cA2 (subscribers mean nothing)
    "cA1": (CN, 0.6, 0.3, 5.0, "", None, 2),  # another place, close to cA
    "dA1": (DN, 0.6, -0.4, 5.0, "", None, None),
    "pA": (POP, 0, 0, 5.0, "", None, None),
    "cB": (CN, 40, 0, 5.0, "", 1, 5),
    "dB": (DN, 46, 3, 6.0, "", 1, None),  # on the building of cB
    "pB": (POP, 34, 3, 6.0, "", 1, None),
    "cC": (CN, 80, 10, 5.0, "", -1, None),  # unknown building
    "dC": (DN, 84, 14, 5.0, "", -1, None),
    "cD": (CN, 41, 33, 5.0, "", 0, None),
    "dD": (DN, 44, 30, 7.0, "", 0, None),
    "cU": (CN, 100, -20, 3.0, "", None, None),
    "dZ": (DN, 33, -70, None, "", None, None),
}
CROWD = {  # more sites on the building of cB
    "dB2": (DN, 43, -5, 6.0, "", 1, None),
    "dB3": (DN, 37, -6, 6.0, "", 1, None),
    "pB2": (POP, 40, 0, 5.0, "", 1, None),  # at cB
    "cB2": (CN, 47, 6, 4.0, "", 1, 2),
}
CATALOGUE.update(CROWD)
DEVICES = {(t, x): (tg.cn_device if t == CN else tg.dn_device)(("CN" if t == CN else "DN") + x) for t in (CN, DN) for x in ("", "X")}
CENTRES = {"n": (47.8, 3.0), "s": (-33.0, 151.0), "anti": (-17.0, 179.9997), "eq": (0.0002, -78.0)}


def at(centre, x, y, alt=None):
    lat0, lon0 = CENTRES[centre]
    lat = lat0 + y * M
    lon = lon0 + x * M / math.cos(math.radians(lat0))
    if lon > 180:
        lon -= 360
    return GeoLocation(latitude=lat, longitude=lon, altitude=alt)


def ground(a, b):
    la, lb = math.radians(a.latitude), math.radians(b.latitude)
    d = math.radians(b.longitude - a.longitude)
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(d / 2) ** 2
    return 2 * R * math.asin(math.sqrt(h))


def mk(centre, name, status=CANDIDATE):
    t, x, y, alt, dev, b, subs = CATALOGUE[name]
    return tg.site(t, name=name, status=status, device=DEVICES[(CN if t == CN else DN, dev)], location=at(centre, x, y, alt), loc=LocationType.ROOFTOP if b is not None else LocationType.UNKNOWN, building=b, subs=subs)


def place(o):
    return (round(o.latitude, 9), round(o.longitude, 9))


def demand(item, c):
    centre, names, statuses, manual, models, radius, spacing, amount = item
    sites = [mk(centre, n, s) for n, s in zip(names, statuses)]
    man = [DemandSite(at(centre, x, y), demand=3.0 if k % 2 else None, connected_sites=sites[:1]) for k, (x, y) in enumerate(manual)]
    t = Topology(sites=sites, demand_sites=man)
    use_cn, use_uni, use_man = models
    p = tg.opt_params(device_list=list(DEVICES.values()), enable_cn_demand=use_cn, enable_uniform_demand=use_uni, enable_manual_demand=use_man, demand=amount, demand_spacing=spacing, demand_connection_radius=radius)
    # expected: list of (place, number, names of the connected sites)
    near = lambda o: frozenset(s.name for s in sites if ground(o, s) <= radius)
    want = {}
    if use_man:
        for d in man:
            want[place(d)] = [1, set(near(d)), None]
    if use_uni:
        for d in grid(sites, spacing, centre == "anti"):
            n = near(d)
            if n:
                want.setdefault(place(d), [1, set(n), None])
    if use_cn:
        for s in sites:
            if s.site_type != CN:
                continue
            w = want.get(place(s))
            if w is not None and w[2] is None:
                c.outcome("manual-on-cn")
                return  # see KNOWN_FINDINGS: demand of both models at one place
            if w is None:
                n = 1 if CATALOGUE[s.name][6] is None else CATALOGUE[s.name][6]
                want[place(s)] = [n, {s.name}, "cn"]
            else:
                w[1].add(s.name)
    # DNs and POPs that can serve in place of a CN
    for w in want.values():
        for a in list(w[1]):
            sa = next(s for s in sites if s.name == a)
            if sa.site_type != CN:
                continue
            for s in sites:
                if s.site_type == CN:
                    continue
                same = CATALOGUE[s.name][1:4] == CATALOGUE[a][1:4]
                b = CATALOGUE[s.name][5]
                if same or (b is not None and b >= 0 and b == CATALOGUE[a][5]):
                    w[1].add(s.name)
    if not want:
        c.raises(lambda: add_demand_to_topology(t, p), OptimizerException, "no-demand")
        return
    add_demand_to_topology(t, p)
    got = {}
    for k, d in t.demand_sites.items():
        c.check(place(d) not in got, "demand-place", "two demand sites at one place")
        c.eq(k, d.demand_id, "demand-id")
        c.check(d.altitude is None, "demand-altitude")
        names_ = [s.name for s in d.connected_sites]
        c.eq(len(names_), len(set(names_)), "connected-twice", str(names_))
        c.check(all(t.sites[s.site_id] is s for s in d.connected_sites), "connected-object")
        c.eq(d.demand, amount, "demand-amount")
        got[place(d)] = [d.num_sites, set(names_)]
    c.check(set(got) == set(want), "demand-sites", f"extra {sorted(set(got) - set(want))[:3]} missing {sorted(set(want) - set(got))[:3]}")
    for k in set(got) & set(want):
        c.eq(got[k][0], want[k][0], "demand-number", f"{k}")
        c.eq(sorted(got[k][1]), sorted(want[k][1]), "demand-connections", f"{k}")
    c.outcome(len(want), tuple(sorted(len(w[1]) for w in want.values())))
    # a second preparation changes nothing
    before = {k: (d.num_sites, sorted(s.name for s in d.connected_sites)) for k, d in t.demand_sites.items()}
    if not use_man:
        add_demand_to_topology(t, p)
        c.eq({k: (d.num_sites, sorted(s.name for s in d.connected_sites)) for k, d in t.demand_sites.items()}, before, "demand-repeat")


def east(lat, d):
    a = d / R
    lat = math.radians(lat)
    la2 = math.asin(math.sin(lat) * math.cos(a))
    return math.degrees(math.atan2(math.sin(a) * math.cos(lat), math.cos(a) - math.sin(lat) * math.sin(la2)))


def grid(sites, spacing, anti):
    """Points spaced evenly from one spacing before the first to (at most) one
    spacing after the last site."""
    wrap = anti and any(s.longitude > 0 for s in sites) and any(s.longitude < 0 for s in sites)
    lons = [s.longitude + (360 if wrap and s.longitude < 0 else 0) for s in sites]
    lats = [s.latitude for s in sites]
    # the distance of a degree of longitude at the lowest latitude
    dx, dy = east(min(lats), spacing), spacing * M
    out = []
    nx = math.floor((max(lons) - min(lons) + 2 * dx) / dx + 1e-6)
    ny = math.floor((max(lats) - min(lats) + 2 * dy) / dy + 1e-6)
    for i in range(nx + 1):
        for j in range(ny + 1):
            lon = min(lons) - dx + i * dx
            out.append(GeoLocation(latitude=min(lats) - dy + j * dy, longitude=lon - 360 if lon > 180 else lon + 360 if lon < -180 else lon))
    return out


def main(r):
    q = r.quick
    items = []
    names = [n for n in CATALOGUE if n not in CROWD]
    groups = [g for k in range(1, 5) for g in itertools.combinations(names, k)]
    if q:
        groups = [g for n, g in enumerate(groups) if len(g) < 3 or n % 3 == 0]
    # CN demand over every group
    for n, g in enumerate(groups):
        for order in (g, g[::-1]):
            if len(g) == 1 and order is not g:
                continue
            items.append((("n", "s", "anti", "eq")[n % 4], order, (CANDIDATE,) * len(g), (), (True, False, False), 25.0, 50.0, 0.025))
    crowd = [n for n in CATALOGUE if CATALOGUE[n][5] == 1] + ["cD"]
    for k in range(3, len(crowd) + 1):
        for n, g in enumerate(itertools.combinations(crowd, k)):
            for order in (g, g[::-1]):
                items.append((("n", "s", "anti", "eq")[n % 4], order, (CANDIDATE,) * k, (), (True, False, False), 25.0, 50.0, 0.025))
    # manual demand
    points = [(3, 4), (0, 24), (43, 1), (43, 40), (0, 0), (200, 200), (20, -60)]
    small = [g for k in range(1, 4) for g in itertools.combinations(names, k)]
    for n, g in enumerate(small):
        for m, ps in enumerate([ps for k in range(0, 3) for ps in itertools.combinations(points, k)]):
            if (n + m) % (7 if q else 2):
                continue
            for models in ((False, False, True), (True, False, True), (True, False, False)):
                for radius in (10.5, 25.0, 100.5):
                    if radius != 25.0 and (n + m) % 2:
                        continue
                    items.append((("n", "s", "anti", "eq")[m % 4], g, ((CANDIDATE, PROPOSED, EXISTING, UNAVAILABLE)[(n + m) % 4],) * len(g), ps, models, radius, 50.0, 1.5))
    r.map(demand, items, "cn-and-manual-demand")
    uni = []
    for n, g in enumerate(small):
        for m, (spacing, radius) in enumerate(((20.3, 15.0), (33.7, 25.0), (33.7, 50.2), (150.1, 120.4))):
            if (n + m) % (5 if q else 1):
                continue
            for centre in CENTRES:
                for models in ((False, True, False), (True, True, False), (False, True, True)):
                    uni.append((centre, g, (CANDIDATE,) * len(g), ((3, 4),) if models[2] else (), models, radius, spacing, 0.05))
    r.map(demand, uni, "uniform-demand")
    r.map(collide, [0], "two-models-at-one-place")
    r.assumptions.append("sites no closer to the connection radius than rounding")


def collide(item, c):
    """A manual demand site exactly on a CN, with both models enabled."""
    c1, d1 = mk("n", "cA"), tg.site(DN, name="d", location=at("n", 10, 0, 5.0), device=DEVICES[(DN, "")])
    t = Topology(sites=[c1, d1], demand_sites=[DemandSite(at("n", 0, 0))])
    p = tg.opt_params(device_list=list(DEVICES.values()), enable_cn_demand=True, enable_manual_demand=True, demand_connection_radius=25.0)
    add_demand_to_topology(t, p)
    total = sum(d.num_sites for d in t.demand_sites.values())
    served = {s.name for d in t.demand_sites.values() for s in d.connected_sites}
    c.check(total == 2 and "d" in served, "manual-demand-on-cn", f"total={total} connected={served}")

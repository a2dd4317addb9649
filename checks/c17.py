"""C17: resilience of a plan: failures, adversarial links, disjoint paths, routing, availability."""
import itertools
import math
import types as pytypes

import networkx as nx
import numpy as np
import tg
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, DemandSite, Link, Sector, Topology
from terragraph_planner.common.configuration.enums import LinkType, StatusType, TopologyRouting
from terragraph_planner.optimization import topology_availability as ta
from terragraph_planner.optimization import topology_networkx as tn
from terragraph_planner.optimization.constants import DEMAND, SUPERSOURCE
from terragraph_planner.optimization.topology_operations import _find_colocated_sites_to_remove, compute_max_pop_capacity_of_topology, get_adversarial_links

XY = [(0, 0), (150, 10), (40, 160), (200, 190), (330, 60), (-80, 120)]
ACTIVE = (PROPOSED, EXISTING)
FILTERS = {"active": set(ACTIVE), "reachable": set(ACTIVE) | {CANDIDATE}}
COST = {**{k: 15 for k in (2, 3)}, **{k: 3 for k in range(4, 9)}, **{k: 1 for k in range(9, 20)}}
MCS = (9, 3, 12, 6, 16, 2, 8, 4, 13, 5)


DN2 = tg.dn_device("DN_TWO")
CN2 = tg.cn_device("CN_TWO")
DNS = (DN2, None, tg.dn_device("DN_THREE"))
CNS = (CN2, None, tg.cn_device("CN_THREE"))


class Net:
    """choice per pair: None, (wired?, status) ; status per site; demands: tuples of site indices."""

    def __init__(self, types, choice, demands, statuses=None, mcs=0, caps=None, flip=False, xy=None, zero=()):
        n = len(types)
        self.types, self.n = types, n
        self.statuses = statuses or (PROPOSED,) * n
        self.pairs = [p for p in itertools.combinations(range(n), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
        # names decide the order of the identifiers
        self.sites = [tg.site(t, *(xy or XY)[i], alt=5.0, status=s, name=f"s{(7 * i + 3) % 10 if flip else i}", device=CN2 if t == CN and i == 2 else DN2 if xy and i == n - 1 and t != CN else None) for i, (t, s) in enumerate(zip(types, self.statuses))]
        self.id = [s.site_id for s in self.sites]
        secs = {i: Sector(s, 0, 0, 90.0 * i, PROPOSED if s.status_type in ACTIVE else s.status_type) for i, s in enumerate(self.sites)}
        self.links = {}  # (i, j) -> (wired, status, mcs, capacity)
        objs = []
        for k, (p, ch) in enumerate(zip(self.pairs, choice)):
            if not ch:
                continue
            for d, (i, j) in enumerate((p, p[::-1])):
                if types[i] == CN:
                    continue
                m = MCS[(3 * k + d * mcs + mcs) % len(MCS)]
                cap = 0.0 if (i, j) in zero else 1.0 + 0.25 * ((5 * k + 3 * d) % 7)
                l = Link(self.sites[i], self.sites[j], None if ch[0] else secs[i], None if ch[0] else secs[j], ch[1], is_wireless=not ch[0])
                l.mcs_level, l.capacity = m, cap
                self.links[i, j] = (ch[0], ch[1], m, cap)
                objs.append(l)
        self.dsites = [DemandSite(tg.utm(500.0 + 10 * k, 500.0), demand=1.0, connected_sites=[self.sites[i] for i in d]) for k, d in enumerate(demands)]
        self.demands = demands
        self.did = [d.demand_id for d in self.dsites]
        self.t = Topology(sites=self.sites, links=objs, sectors=list(secs.values()), demand_sites=self.dsites)

    def graph(self, flt):
        """adjacency of the active network: edges between site indices, "S" and ("d", k)."""
        e = set()
        for i, s in enumerate(self.statuses):
            if s in flt and self.types[i] == POP:
                e.add(("S", i))
        for (i, j), l in self.links.items():
            if l[1] in flt and self.statuses[i] in flt and self.statuses[j] in flt:
                e.add((i, j))
        for k, d in enumerate(self.demands):
            for i in d:
                if self.statuses[i] in flt:
                    e.add((i, ("d", k)))
        return e

    def name(self, x):
        return SUPERSOURCE if x == "S" else self.did[x[1]] if isinstance(x, tuple) else self.id[x]

    def __repr__(self):
        return f"{[t.name for t in self.types]} {[s.name for s in self.statuses]} links={ {k: ('wired ' if v[0] else '') + v[1].name + f' mcs={v[2]} cap={v[3]}' for k, v in self.links.items()} } demands={self.demands}"


def reach(edges, gone=()):
    """Nodes that the source reaches without the given edges."""
    adj = {}
    for a, b in edges:
        if (a, b) not in gone:
            adj.setdefault(a, []).append(b)
    seen, todo = {"S"}, ["S"]
    while todo:
        for b in adj.get(todo.pop(), ()):
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def dem(nodes):
    return {x[1] for x in nodes if isinstance(x, tuple)}


def paths(edges, cost):
    """Cost of the best path to each node and its predecessors on best paths."""
    dist = {"S": 0}
    nodes = {x for e in edges for x in e}
    for _ in nodes:
        for (a, b) in edges:
            if a in dist and dist[a] + cost(a, b) < dist.get(b, math.inf) - 1e-9:
                dist[b] = dist[a] + cost(a, b)
    pred = {b: [a for a, x in edges if x == b and a in dist and abs(dist[a] + cost(a, b) - dist[b]) < 1e-9] for b in dist if b != "S"}
    return dist, pred


def best_links(pred, node):
    """Site links on any best path to the node, and the set of best paths."""
    out = []

    def walk(x, path):
        if x == "S":
            out.append(frozenset(e for e in zip(path, path[1:]) if not isinstance(e[0], str) and not isinstance(e[1], tuple)))
            return
        for p in pred[x]:
            walk(p, [p] + path)

    walk(node, [node])
    return out


def cost_of(net):
    return lambda a, b: COST[net.links[a, b][2]] if (a, b) in net.links else 1


def used_ok(net, dist_pred, used, c, key, msg):
    """used: reported links; every demand has a best path among them, and each
    belongs to one of these."""
    _, pred = dist_pred
    cover = set()
    for k in range(len(net.demands)):
        if ("d", k) not in pred:
            continue
        ok = [p for p in best_links(pred, ("d", k)) if p <= used]
        c.check(ok, key, f"no shortest path of demand {k} among {sorted(used)}: {msg}")
        for p in ok:
            cover |= p
    c.check(used <= cover, key, f"links on no shortest path: {sorted(used - cover)}: {msg}")


def resilience(item, c):
    types, demands, chunk, kinds, statuses, opt = item
    n = len(types)
    pairs = [p for p in itertools.combinations(range(n), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
    opts = [[None] + [(w, s) for w in (False, True) for s in ACTIVE[:1] + (CANDIDATE,) if (w, s) in kinds and not (w and CN in (types[i], types[j]))] for i, j in pairs]
    total = math.prod(len(o) for o in opts)
    for x in range(chunk[0], total, chunk[1]):
        choice, y = [], x
        for o in opts:
            y, k = divmod(y, len(o))
            choice.append(o[k])
        if statuses:
            choice = [ch and (ch[0], CANDIDATE if CANDIDATE in (statuses[i], statuses[j]) else ch[1]) for (i, j), ch in zip(pairs, choice)]
        one(Net(types, choice, demands, statuses, opt.get("mcs", 0), flip=opt.get("flip", False)), c, opt)
        c.step()
    c.state(item)


def one(net, c, opt):
    t = net.t
    for fname, flt in FILTERS.items():
        e = net.graph(flt)
        G = tn.build_digraph(t, flt)
        want = {}
        for a, b in e:
            k = (net.name(a), net.name(b))
            if a == "S":
                want[k] = (SUPERSOURCE, 1)
            elif isinstance(b, tuple):
                want[k] = (DEMAND, 1)
            else:
                l = net.links[a, b]
                want[k] = (LinkType.ETHERNET if l[0] else LinkType.WIRELESS_ACCESS if net.types[b] == CN else LinkType.WIRELESS_BACKHAUL, COST[l[2]])
        c.eq({(a, b): (d.get("link_type"), d.get("link_cost")) for a, b, d in G.edges(data=True)}, want, "graph", f"{fname} {net}")
        nt = {**{net.id[i]: x for i, x in enumerate(net.types)}, SUPERSOURCE: SUPERSOURCE, **{d: DEMAND for d in net.did}}
        # sites without an active link may stay untyped
        have = {x for a, b in e if not isinstance(b, tuple) for x in (net.name(a), net.name(b))} | set(net.did)
        c.eq({v: d.get("site_type") for v, d in G.nodes(data=True) if v in have}, {v: nt[v] for v in G.nodes if v in have}, "graph-nodes", f"{fname} {net}")
        if not any(a == "S" for a, b in e):
            continue
        base = dem(reach(e))
        c.eq(tn.find_connected_demands(G), {net.did[k] for k in base}, "connected-demands", f"{fname} {net}")
        # link failures
        want = {}
        for (i, j), l in net.links.items():
            if (i, j) in e and i < j and not l[0] and CN not in (net.types[i], net.types[j]):
                lost = base - dem(reach(e, {(i, j), (j, i)}))
                want[tuple(sorted((net.id[i], net.id[j])))] = {net.did[k] for k in lost}
        before = sorted((a, b, sorted(map(str, d.items()))) for a, b, d in G.edges(data=True))
        c.eq(tn.single_edge_failures(G), want, "link-failures", f"{fname} {net}")
        # site failures
        wp, wd = {}, {}
        for i in range(net.n):
            if net.types[i] == CN or net.statuses[i] not in flt:
                continue
            lost = base - dem(reach(e, {x for x in e if x[0] == i}))
            if lost:
                (wp if net.types[i] == POP else wd)[net.id[i]] = {net.did[k] for k in lost}
        c.eq(tn.single_site_failures(G), (wp, wd), "site-failures", f"{fname} {net}")
        if fname != "active":
            continue
        # two paths without a common backhaul or wired link
        top, two, off = set(), set(), set()
        for k, d in enumerate(net.demands):
            if k not in base:
                off.add(net.did[k])
            elif any(net.types[i] == POP and net.statuses[i] in flt for i in d):
                top.add(net.did[k])
            elif all(k in dem(reach(e, {(i, j), (j, i)})) for i, j in net.links if (i, j) in e and CN not in (net.types[i], net.types[j])):
                two.add(net.did[k])
        got = tn.disjoint_paths(t, G)
        c.eq(got.disconnected_demand_locations, off, "disconnected", f"{net}")
        c.eq(got.demand_connected_to_pop, top, "demand-at-pop", f"{net}")
        c.eq(got.demand_with_disjoint_paths, two, "disjoint-paths", f"{net}")
        c.eq(sorted((a, b, sorted(map(str, d.items()))) for a, b, d in G.edges(data=True)), before, "graph-changed", f"{net}")
        # routing
        idx = {f"{net.id[i]}-{net.id[j]}": (i, j) for i, j in net.links}
        unit = paths(e, lambda a, b: 1)
        res = {x: {idx[l] for l in tn.get_topology_routing_results(t, G, x)} for x in TopologyRouting}
        used_ok(net, unit, res[TopologyRouting.SHORTEST_PATH], c, "route-shortest", f"{net}")
        used_ok(net, paths(e, cost_of(net)), res[TopologyRouting.MCS_COST_PATH], c, "route-mcs", f"{net}")
        zone = zones(unit)
        if zone is not None:
            ez = {(a, b) for a, b in e if b in zone and (zone[b] == a if a == "S" else a in zone and zone[a] == zone[b]) or (a == "S" and zone.get(b) == b)}
            used_ok(net, paths(ez, cost_of(net)), res[TopologyRouting.DPA_PATH], c, "route-dpa", f"{net}")
        c.outcome(len(base), len(two), tuple(len(v) for v in res.values()), zone is None)


def zones(unit):
    """The POP of each node on its shortest paths, None if not unique."""
    dist, pred = unit
    out = {}
    for x in sorted((k for k in dist if k != "S"), key=lambda k: dist[k]):
        z = {x if p == "S" else out[p] for p in pred[x]}
        if len(z) != 1:
            return None
        out[x] = z.pop()
    return out


# ---------------------------------------------------------------- adversarial links
def adversarial(item, c):
    types, choice, demands, statuses, zero, where, ratio = item
    xy = [XY[w] for w in where] if where else None
    pairs = [p for p in itertools.combinations(range(len(types)), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
    if xy:
        # sites at the same place have no wireless link
        choice = [None if xy[i] == xy[j] else ch for (i, j), ch in zip(pairs, choice)]
    choice = [ch and (ch[0], CANDIDATE if CANDIDATE in (statuses[i], statuses[j]) else ch[1]) for (i, j), ch in zip(pairs, choice)]
    net = Net(types, choice, demands, statuses, xy=xy, zero=zero)
    msg = f"ratio={ratio} zero={zero} where={where} {net}"
    # co-located sites that can no longer be selected
    gone = set()
    for w in set(where or range(net.n)):
        here = [i for i in range(net.n) if (where or range(net.n))[i] == w]
        act = [net.types[i] for i in here if statuses[i] in ACTIVE]
        if act:
            top = POP if POP in act else DN if DN in act else CN
            for i in here:
                if top == CN:
                    if types[i] == CN and statuses[i] not in ACTIVE:
                        gone.add(i)
                elif types[i] != top or statuses[i] not in ACTIVE:
                    gone.add(i)
    c.eq(_find_colocated_sites_to_remove(net.t), {net.id[i] for i in gone}, "colocated", msg)
    got = get_adversarial_links(net.t, ratio)
    nback = sum(1 for (i, j), l in net.links.items() if l[1] in ACTIVE and not l[0] and CN not in (types[i], types[j]))
    if not nback or not ratio:
        c.eq(got, set(), "adversarial", msg)
        return
    limit = math.ceil(nback * ratio)
    ix = {s: i for i, s in enumerate(net.id)}
    sel = {(ix[a], ix[b]) for a, b in got}
    ea = net.graph(FILTERS["active"])
    ec = {(a, b) for a, b in net.graph(FILTERS["reachable"]) if not ((a, b) in net.links and net.links[a, b][3] <= 0) and not {a, b} & gone}
    base_a, base_c = dem(reach(ea)), dem(reach(ec))

    def harm(i, j):
        return len(base_a - dem(reach(ea, {(i, j), (j, i)})))

    cand = {(i, j) for (i, j), l in net.links.items() if i < j and (i, j) in ea and not l[0] and CN not in (types[i], types[j])}
    c.check(all((j, i) in sel for i, j in sel), "adversarial-oneway", msg)
    und = {(min(e), max(e)) for e in sel}
    c.check(und <= cand, "adversarial-unknown", f"{und} {msg}")
    c.check(all(harm(*e) > 0 for e in und), "adversarial-harmless", f"{und} {msg}")
    c.check(len(und) <= (limit + 1) // 2, "adversarial-count", f"{und} {msg}")
    both = lambda es: {x for i, j in es for x in ((i, j), (j, i))}
    c.check(base_c <= dem(reach(ec, both(und))), "adversarial-cut", f"{und} {msg}")
    for e in cand - und:
        if harm(*e) > 0:
            above = {x for x in und if harm(*x) >= harm(*e)}
            full = len(above) >= (limit + 1) // 2
            c.check(full or not base_c <= dem(reach(ec, both(above | {e}))), "adversarial-missed", f"{e} {und} {msg}")
    c.outcome(len(und), len(cand))
    c.state(item)


def colocated(item, c):
    """Sites at the place of a selected one that can no longer be selected."""
    types, place = item
    for st in itertools.product(tg.STATUSES, repeat=len(types)):
        sites = [tg.site(t, *XY[p], alt=5.0, status=s, device=(CNS if t == CN else DNS)[i], name=f"n{i}") for i, (t, p, s) in enumerate(zip(types, place, st))]
        gone = set()
        for w in set(place):
            here = [i for i in range(len(types)) if place[i] == w]
            act = {types[i] for i in here if st[i] in ACTIVE}
            if not act:
                continue
            # only client nodes may be upgraded
            keep = {POP} if POP in act else {DN} if DN in act else {DN, POP}
            gone |= {i for i in here if not (st[i] in ACTIVE and (types[i] in keep or act == {CN})) and not (act == {CN} and types[i] != CN)}
        c.eq(_find_colocated_sites_to_remove(Topology(sites=sites, links=[], sectors=[])), {sites[i].site_id for i in gone}, "colocated", f"{types} {place} {st}")
        c.step()
    c.state(item)


def capacity(item, c):
    """Largest flow the POPs can send."""
    types, statuses, choice = item
    pairs = [p for p in itertools.combinations(range(len(types)), 2)]
    for flt in FILTERS.values():
        for secs_of in range(4):
            sites = [tg.site(t, *XY[i], alt=5.0, status=s) for i, (t, s) in enumerate(zip(types, statuses))]
            secs = {(i, a): Sector(s, a, 0, 90.0 * a, s.status_type) for i, s in enumerate(sites) for a in range(2)}
            links, want = [], {}
            for k, (p, ch) in enumerate(zip(pairs, choice)):
                for i, j in (p, p[::-1]):
                    if not ch or types[i] == CN or CN in (types[i], types[j]) and ch == "e":
                        continue
                    a = (k + i + secs_of) % 2
                    a = None if ch == "o" else a
                    st = CANDIDATE if CANDIDATE in (statuses[i], statuses[j]) or k == secs_of else PROPOSED
                    l = Link(sites[i], sites[j], None if ch == "e" or a is None else secs[i, a], None if ch == "e" or a is None else secs[j, 0], st, is_wireless=ch != "e")
                    l.capacity = 0.3 + 0.4 * ((k * 3 + i) % 5)
                    links.append(l)
                    if types[i] == POP and {st, statuses[i], statuses[j]} <= flt and (ch == "e" or a is not None):
                        d = want.setdefault(i, {"e": 0.0})
                        if ch == "e":
                            d["e"] += l.capacity
                        else:
                            d[a] = max(d.get(a, 0.0), l.capacity)
            # a POP may serve a demand itself
            serving = (None, 0, len(types) - 1, 1)[(secs_of + len(links)) % 4]
            ds = [] if serving is None else [DemandSite(tg.utm(500.0, 500.0), connected_sites=[sites[serving]])]
            t = Topology(sites=sites, links=links, sectors=list(secs.values()), demand_sites=ds)
            for cap in (1.0, 2.0, 100.0):
                if serving is not None and types[serving] == POP and statuses[serving] in flt:
                    want[serving] = {"e": cap}
                c.close(compute_max_pop_capacity_of_topology(t, cap, flt), sum(min(cap, sum(d.values())) for d in want.values()), "pop-capacity", f"{item} {cap} {secs_of} {flt}", tol=1e-9)
            c.step()
    c.state(item)


# ---------------------------------------------------------------- availability
class Scripted(np.random.Generator):
    """Standard exponential draws taken from a script."""

    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, script):
        super().__init__(np.random.PCG64(0))
        self.script, self.log = list(script), []

    def exponential(self, scale=1.0, size=None):
        z = self.script.pop(0) if self.script else 4.0 + 0.01 * len(self.log)
        self.log.append(scale * z)
        return self.log[-1]


class Clock:
    """Time passes by one second per reading."""

    def __init__(self):
        self.now = 0.0

    def time(self):
        self.now += 1.0
        return self.now


NETS = {
    "line": ((POP, DN, DN, CN), {(0, 1): 0, (1, 2): 0, (2, 3): 0}, ((1,), (2,), (3,))),
    "ring": ((POP, DN, DN, CN), {(0, 1): 0, (0, 2): 0, (1, 2): 0, (1, 3): 0}, ((1,), (2,), (3, 2))),
    "two": ((POP, DN, POP, CN), {(0, 1): 0, (1, 2): 0, (1, 3): 0}, ((1,), (0, 2), (3,))),
    "wire": ((POP, DN, DN, CN), {(0, 1): 1, (1, 2): 0, (0, 2): 0, (2, 3): 0}, ((1,), (2,), (3,))),
    "off": ((POP, DN, DN, DN), {(0, 1): 0, (2, 3): 0}, ((1,), (2,), (3, 1))),
}


def availability(item, c):
    name, pct, sim, zs, rest = item
    types, ls, demands = NETS[name]
    pairs = [p for p in itertools.combinations(range(4), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
    net = Net(types, [(bool(ls[p]), PROPOSED) if p in ls else None for p in pairs], demands)
    e = net.graph(FILTERS["active"])
    base = dem(reach(e))
    links = [p for p in ls if not ls[p] and CN not in (types[p[0]], types[p[1]])]
    G = tn.build_digraph(net.t, FILTERS["active"])
    edges = sorted(G.edges)
    for script in itertools.product(zs, repeat=rest):
        for limit in (None, 1, 2, 3, 5) if pct else (None,):
            rng = Scripted(script)
            ta.time = Clock() if limit else pytypes.SimpleNamespace(time=lambda: 0.0)
            got, glink = ta.compute_availability(G, pct, sim, limit - 0.5 if limit else None, rng)
            c.eq(sorted(G.edges), edges, "availability-graph", f"{item}")
            # the failures of each link, one block of draws per link
            blocks, k, log = [], 0, rng.log
            for _ in links:
                now, down = 0.0, []
                while now < sim and k + 1 < len(log):
                    f = now + log[k]
                    now = f + log[k + 1]
                    k += 2
                    down.append((f, now))
                c.check(now >= sim, "availability-link", f"{item} {script}: a link without failures until {sim}")
                blocks.append(down)
            c.eq(k, len(log), "availability-draws", f"{item} {script}")
            ok = None
            for perm in itertools.permutations(blocks):
                want, wl = integrate(net, e, dict(zip(links, perm)), sim, limit)
                g = {net.did.index(d): v for d, v in got.items()}
                gl = {next(p for p in links if {net.id[p[0]], net.id[p[1]]} == set(k)): v for k, v in glink.items()}
                same = set(g) == base and all(abs(g[x] - want[x]) < 1e-9 for x in base) and all(abs(gl[p] - wl[p]) < 1e-9 for p in links)
                if same:
                    ok = True
                    break
            c.check(ok, "availability", f"{item} script={script} limit={limit} got={g} links={gl} e.g. want={want} {wl}")
            if limit is None:
                c.outcome(name, pct, tuple(round(v, 6) for v in g.values()))
            c.step()
    c.state(item)


def integrate(net, e, down, sim, limit):
    ev = sorted(x for d in down.values() for f, r in d for x in (f, r) if x < sim)
    end = sim
    if limit and limit <= len(ev):
        end = ev[limit - 1]
    cuts = sorted({0.0, end, *(x for x in ev if x < end)})
    up, lup = {k: 0.0 for k in range(len(net.demands))}, {p: 0.0 for p in down}
    for a, b in zip(cuts, cuts[1:]):
        mid = (a + b) / 2
        bad = {p for p, d in down.items() if any(f <= mid < r for f, r in d)}
        for p in down:
            lup[p] += (b - a) * (p not in bad)
        for k in dem(reach(e, bad | {p[::-1] for p in bad})):
            up[k] += b - a
    if end <= 0:
        return up, lup
    return {k: v / end for k, v in up.items()}, {p: v / end for p, v in lup.items()}


def main(r):
    q = r.quick
    W, E, C = (False, PROPOSED), (True, PROPOSED), (False, CANDIDATE)
    items = []
    D4 = [((1,), (2,), (3,)), ((0,), (1, 2), (3, 1))]
    for types in ((POP, DN, DN, CN), (POP, DN, POP, DN), (DN, POP, CN, DN)):
        for nd, d in enumerate(D4):
            for m in (0, 1) if q else range(4):
                items += [(types, d, (k, 8), (W, E, C), None, dict(mcs=m + nd, flip=bool(m))) for k in range(8) if not q or (k + m + nd) % 4 == 0]
    for types in ((POP, DN, DN, CN), (POP, DN, POP, DN)):
        for st in itertools.product((PROPOSED, EXISTING, CANDIDATE), repeat=4):
            items.append((types, D4[1], (0, 1), (W,), st, dict(mcs=2)))
    for types, d in (((POP, DN, DN, DN, CN), ((1,), (2, 3), (4,), (3,))), ((POP, POP, DN, DN, CN), ((2,), (3,), (4,), (1, 2))), ((DN, DN, POP, DN, DN), ((0,), (1,), (3,), (4,)))):
        for m in (1, 2):
            items += [(types, d, (k, 32), (W,), None, dict(mcs=m, flip=m == 2)) for k in range(32) if not q or (k + m) % 2 == 0]
    if not q:
        items += [((POP, POP, DN, DN, DN, CN), ((2,), (3,), (4,), (5,)), (k, 256), (W,), None, dict(mcs=1)) for k in range(256)]
        items += [((POP, DN, DN, DN, DN, CN), ((1,), (2,), (3,), (4,), (5,)), (k, 256), (W,), None, dict(mcs=3)) for k in range(256)]
    r.map(resilience, items, "networks")

    items = []
    k = 0
    for types, where in (((POP, DN, DN, DN), None), ((POP, DN, DN, CN), None), ((POP, DN, DN, DN, CN), None), ((POP, DN, DN, CN, DN), (0, 1, 2, 3, 2)), ((POP, DN, DN, CN, DN), (0, 1, 2, 3, 3)), ((POP, DN, POP, DN, DN), (0, 1, 2, 3, 2)), ((POP, CN, CN, DN, POP), (0, 1, 1, 1, 3)), ((POP, DN, POP, CN, DN), (0, 1, 1, 1, 3))):
        n = len(types)
        pairs = [p for p in itertools.combinations(range(n), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
        for ch in itertools.product((None, W, C), repeat=len(pairs)) if n == 4 else itertools.product((None, W, C)[:: 2 if q else 1], repeat=len(pairs)):
            k += 1
            if k % ((5 if n == 4 else 3) if q else 1 if n == 4 else 11):
                continue
            ds = ((1,), (2,), (n - 1,), (2, 3))
            for v, (st, zero) in enumerate((((PROPOSED,) * n, ()), ((PROPOSED,) * 2 + (CANDIDATE,) + (PROPOSED,) * (n - 3), ()), ((PROPOSED, EXISTING) + (PROPOSED,) * (n - 3) + (CANDIDATE,), ((0, 1),)), ((PROPOSED,) * n, ((1, 0), (1, 2), (2, 1))))):
                for ratio in (0.1, 0.5, 1.0):
                    if q and (k + v + int(ratio * 10)) % 3:
                        continue
                    if n > 4 and q:
                        ch = tuple(W if x and (k + y) % 4 else x for y, x in enumerate(ch))
                    # wired links fail neither by themselves nor count as backhaul
                    wch = ch
                    if (k // 3 + v) % 3 == 0:
                        ps = [p for p in itertools.combinations(range(n), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
                        wch = tuple(E if x == W and CN not in (types[p[0]], types[p[1]]) and (k // 7 + y) % 3 == 0 else x for y, (x, p) in enumerate(zip(ch, ps)))
                    items.append((types, wch, ds, st, zero, where, ratio))
    r.map(adversarial, items, "adversarial-links")
    items = [(ty, pl) for n in (2, 3) for ty in itertools.product((CN, DN, POP), repeat=n) for pl in ((0,) * n, (0,) * (n - 1) + (1,))]
    r.map(colocated, items, "co-located")
    items = [(ty, st, ch) for ty in ((POP, POP, DN, CN), (POP, DN, DN, POP)) for st in ((PROPOSED,) * 4, (PROPOSED, CANDIDATE, PROPOSED, PROPOSED), (CANDIDATE, PROPOSED, PROPOSED, CANDIDATE)) for n, ch in enumerate(itertools.product((None, "w", "e", "o"), repeat=6)) if not n % (13 if q else 1)]
    r.map(capacity, items, "pop-capacity")
    items = []
    zs = (0.3, 1.1, 2.7)
    for name in NETS:
        for pct in (50.0, 90.0, 0.0, 100.0, 99.9):
            for sim in (0.8, 2.0):
                items.append((name, pct, sim, zs if pct in (50.0, 90.0) else (0.7,), (4 if q else 6) if pct in (50.0, 90.0) else 3))
    r.map(availability, items, "availability", limit=600)

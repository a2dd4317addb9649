"""Small site-selection instances and a reference for them: plans are enumerated
(sets of sites x polarities) and each is judged by a flow problem written down
independently of the planner's models."""
import itertools
import math

import numpy as np
import tg
from scipy.optimize import linprog
from terragraph_planner.common.geos import GeoLocation
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE, DemandSite, Link, Sector, Topology

ACTIVE = (PROPOSED, EXISTING)
INACTIVE = (UNAVAILABLE, UNREACHABLE)
XY = [(0, 0), (150, 10), (40, 160), (200, 190), (330, 60), (-80, 120), (25, 210), (-25, 210)]
DEV = {
    (DN, 0): tg.dn_device("DN_DEV", nodes=2, sectors=1, hsr=60.0, capex=70.0),
    (DN, 1): tg.dn_device("DN_ALT", nodes=1, sectors=2, hsr=60.0, capex=110.0),
    (CN, 0): tg.cn_device("CN_DEV", capex=17.0),
    (CN, 1): tg.cn_device("CN_ALT", capex=13.0),
}
CAPEX = {POP: 500.0, DN: 300.0, CN: 50.0}


class Inst:
    """links: {(i, j): (kind "w"/"e", status, capacity i->j, capacity j->i, sector at i, sector at j)};
    demands: [(sites, demand, copies)]; places: position index of each site; skus: device choice."""

    def __init__(self, types, links, demands, statuses=None, places=None, skus=None, reverse=False, line=False):
        n = self.n = len(types)
        self.types, self.inlinks, self.demands = types, links, demands
        self.statuses = statuses or (CANDIDATE,) * n
        self.places = places or tuple(range(n))
        self.skus = skus or (0,) * n
        self.sites = [tg.site(t, *XY[p], alt=5.0, status=s, name=f"s{9 - i if reverse else i}", device=self.dev(i), location=GeoLocation(latitude=48.0, longitude=2.0 + 0.002 * p, altitude=5.0) if line else None) for i, (t, p, s) in enumerate(zip(types, self.places, self.statuses))]
        self.id = [s.site_id for s in self.sites]
        self.idx = {s: i for i, s in enumerate(self.id)}
        used = {}
        for (i, j), l in links.items():
            if l[0] == "w" and l[1] in ACTIVE:
                for k in ((i, l[4]), (j, l[5])):
                    used[k] = EXISTING if EXISTING in (l[1], used.get(k)) else PROPOSED
        self.sectors = {}
        for i, s in enumerate(self.sites):
            for k in range(1 if types[i] == CN else 2):
                node, pos = (0, k) if self.skus[i] or types[i] == CN else (k, 0)
                st = s.status_type
                if st in ACTIVE:
                    mates = [used.get((i, x)) for x in range(2)] if self.skus[i] else [used.get((i, k))]
                    st = EXISTING if EXISTING in mates else PROPOSED if PROPOSED in mates else CANDIDATE
                self.sectors[i, k] = Sector(s, node, pos, 90.0 * k, st)
        self.dlinks = {}  # (i, j) -> (kind, status, capacity, tx sector, rx sector)
        objs = []
        for (i, j), (kind, st, c1, c2, a, b) in links.items():
            for x, y, cap, sx, sy in ((i, j, c1, a, b), (j, i, c2, b, a)):
                if types[x] == CN:
                    continue
                l = Link(self.sites[x], self.sites[y], self.sectors[x, sx] if kind == "w" else None, self.sectors[y, sy] if kind == "w" else None, st, is_wireless=kind == "w")
                l.capacity = cap
                self.dlinks[x, y] = (kind, st, cap, sx, sy)
                objs.append(l)
        self.dsites = [DemandSite(tg.utm(500.0 + 10 * k, 500.0), demand=d, num_sites=m, connected_sites=[self.sites[i] for i in c]) for k, (c, d, m) in enumerate(demands)]
        self.did = [x.demand_id + (f"_{q}" if q else "") for x, d in zip(self.dsites, demands) for q in range(d[2])]
        self.dem = [(c, d) for c, d, m in demands for _ in range(m)]
        self.topo = Topology(sites=self.sites, links=objs, sectors=list(self.sectors.values()), demand_sites=self.dsites)

    def dev(self, i):
        return DEV[CN if self.types[i] == CN else DN, self.skus[i]]

    def cost(self, i):
        if self.statuses[i] == EXISTING:
            return 0.0
        return CAPEX[self.types[i]] + self.dev(i).node_capex * self.dev(i).number_of_nodes_per_site

    def fixed(self):
        """Links which the input fixes as active."""
        return {k for k, l in self.dlinks.items() if l[1] in ACTIVE}

    def groups(self):
        g = {}
        for i, p in enumerate(self.places):
            g.setdefault(p, []).append(i)
        return list(g.values())

    def choices(self, always_pops):
        """All sets of sites that the rules for given and co-located sites allow."""
        active = {i for i in range(self.n) if self.statuses[i] in ACTIVE or always_pops and self.types[i] == POP and self.statuses[i] not in INACTIVE}
        rank = {CN: 0, DN: 1, POP: 2}
        opts = []
        for g in self.groups():
            free = [i for i in g if self.statuses[i] not in INACTIVE]
            act = [i for i in g if i in active]
            if not act:
                opts.append([()] + [(i,) for i in free])
            else:
                top = max(rank[self.types[i]] for i in act)
                ok = [i for i in free if i in active and rank[self.types[i]] == top]
                if top == 0:  # a client node may give way to a distribution node
                    ok += [i for i in free if rank[self.types[i]] > 0]
                opts.append([(i,) for i in ok])
        for c in itertools.product(*opts):
            yield frozenset(i for x in c for i in x)

    def polarities(self, sites, ignore=False):
        """Assignments under which the wireless links fixed by the input work."""
        d = sorted(i for i in sites if self.types[i] != CN)
        if ignore or not d:
            yield {}
            return
        for bits in itertools.product((0, 1), repeat=len(d) - 1):
            pol = dict(zip(d, (0,) + bits))
            if not any(i in pol and j in pol and pol[i] == pol[j] and self.dlinks[i, j][0] == "w" for i, j in self.fixed()):
                yield pol

    def usable(self, sites, pol, blocked=()):
        """Directed links that a plan with these sites and polarities may use."""
        out = {}
        for k, l in self.dlinks.items():
            i, j = k
            if i not in sites or j not in sites or l[1] in INACTIVE or l[2] <= 0 or k in blocked:
                continue
            if i in pol and j in pol and pol[i] == pol[j] and l[0] == "w":
                continue
            out[k] = l
        return out

    def reach(self, sites, use):
        seen = {i for i in sites if self.types[i] == POP}
        while True:
            new = {j for i, j in use if i in seen} - seen
            if not new:
                return seen
            seen |= new

    def flow(self, sites, use, pop_cap, over, goal, connected=None, cap_scale=None):
        """goal "total": most demand served. goal "common": largest amount that every
        connected demand receives. Returns the value."""
        seen = self.reach(sites, use)
        dems = [(k, [i for i in c if i in seen], d / over) for k, (c, d) in enumerate(self.dem)]
        if goal != "total" and any(not c for k, c, _ in dems if k in connected):
            return 0.0
        use = {k: l for k, l in use.items() if k[0] in seen}
        maxcap = max([l[2] for l in self.dlinks.values()], default=pop_cap)
        var = [("l", k) for k in use] + [("s", i) for i in seen if self.types[i] == POP] + [("d", i, k) for k, c, _ in dems for i in c] + [("z",)]
        at = {v: x for x, v in enumerate(var)}
        N = len(var)
        ub = [l[2] for l in use.values()] + [pop_cap for i in seen if self.types[i] == POP] + [maxcap for k, c, _ in dems for i in c] + [None]
        A, b, E, e = [], [], [], []

        def row(terms):
            r = np.zeros(N)
            for v, x in terms:
                r[at[v]] += x
            return r

        for i in sorted(seen):
            inc = [(("l", k), 1.0) for k in use if k[1] == i] + [(("s", i), 1.0)] * (self.types[i] == POP)
            out = [(("l", k), 1.0) for k in use if k[0] == i] + [(("d", i, k), 1.0) for k, c, _ in dems if i in c]
            E.append(row(inc + [(v, -x) for v, x in out]))
            e.append(0.0)
            if self.types[i] == POP:
                A.append(row(out))
                b.append(pop_cap)
            for s in (0, 1):
                for d, sec in ((0, 3), (1, 4)):  # a sector divides its time among its links
                    t = [(("l", k), 1.0 / l[2]) for k, l in use.items() if k[d] == i and l[0] == "w" and l[sec] == s]
                    if t:
                        A.append(row(t))
                        b.append(1.0)
        obj = np.zeros(N)
        for k, c, d in dems:
            got = [(("d", i, k), 1.0) for i in c]
            if goal != "buffer":
                A.append(row(got))
                b.append(d)
            if goal == "total":
                for v, x in got:
                    obj[at[v]] -= x
            elif k in connected:
                A.append(row([(("z",), 1.0)] + [(v, -x) for v, x in got]))
                b.append(0.0)
        if goal == "buffer":
            obj[at[("z",)]] = -1.0
            ub[-1] = None
        elif goal == "common":
            obj[at[("z",)]] = -1.0
            ub[-1] = min((self.dem[k][1] / over for k in connected), default=0.0)
        else:
            ub[-1] = 0.0
        r = linprog(obj, np.array(A) if A else None, b or None, np.array(E) if E else None, e or None, [(0.0, u) for u in ub], method="highs")
        assert r.status == 0, r.message
        return -float(r.fun)

    def connectable(self, always_pops, blocked=(), ignore=False):
        """The largest sets of demand copies that some polarities connect at once."""
        active = {i for i in range(self.n) if self.statuses[i] in ACTIVE or always_pops and self.types[i] == POP and self.statuses[i] not in INACTIVE}
        rank = {CN: 0, DN: 1, POP: 2}
        sites = set()
        for g in self.groups():
            act = [i for i in g if i in active]
            top = max((rank[self.types[i]] for i in act), default=-1)
            for i in g:
                r = rank[self.types[i]]
                if self.statuses[i] in INACTIVE:
                    continue
                if act and not (i in active and r == top or top == 0 and r > 0):
                    continue
                sites.add(i)
        best, sets = -1, []
        for pol in self.polarities(sites, ignore):
            use = self.usable(sites, pol, blocked)
            seen = self.reach(sites, use)
            s = frozenset(k for k, (c, _) in enumerate(self.dem) if any(i in seen for i in c))
            if len(s) > best:
                best, sets = len(s), []
            if len(s) == best and s not in sets:
                sets.append(s)
        return sets

    def __repr__(self):
        return f"{[t.name for t in self.types]} at {self.places} sku={self.skus} {[s.name for s in self.statuses]} links={ {k: (l[0], l[1].name) + tuple(l[2:]) for k, l in self.inlinks.items()} } demands={self.demands}"


def check_flow(c, ins, prm, flows, tdms, S, L, blocked, pre, msg):
    """Flow over the selected links stays within capacity, time and POP capacity, balances
    and has no loops."""
    from terragraph_planner.optimization.constants import SUPERSOURCE

    tol = 1e-5
    # flow
    f = {}
    for (a, b), v in flows.items():
        c.check(v >= -tol, f"{pre}-flow-sign", f"{a}->{b} {v}: {msg}")
        if v > tol:
            f[a, b] = v
    t = {}
    for (a, b), v in tdms.items():
        c.check(-tol <= v <= 1 + tol, f"{pre}-tdm", f"{a}->{b} {v}: {msg}")
        if v > tol:
            t[ins.idx[a], ins.idx[b]] = v
    load = {}
    for (a, b), v in f.items():
        if a in ins.idx and b in ins.idx:
            i, j = ins.idx[a], ins.idx[b]
            c.check((i, j) in L and (i, j) not in blocked, f"{pre}-flow-link", f"flow {v} on {i}->{j}, links {sorted(L)}: {msg}")
            if (i, j) not in ins.dlinks:
                continue
            l = ins.dlinks[i, j]
            if l[0] == "w":
                c.check(v <= l[2] * t.get((i, j), 0.0) + tol, f"{pre}-flow-cap", f"flow {v} on {i}->{j} with tdm {t.get((i, j))} of {l[2]}: {msg}")
            else:
                c.check(v <= l[2] + tol, f"{pre}-flow-cap", f"flow {v} on wired {i}->{j} of {l[2]}: {msg}")
        elif a in ins.idx:
            c.check(ins.idx[a] in S, f"{pre}-flow-site", f"site {ins.idx[a]} serves a demand: {msg}")
        else:
            c.check(a == SUPERSOURCE and ins.types[ins.idx[b]] == POP and ins.idx[b] in S, f"{pre}-flow-source", f"{a}->{b}: {msg}")
    for (i, j), v in t.items():
        l = ins.dlinks[i, j]
        for k in ((i, l[3], "out"), (j, l[4], "in")):
            load[k] = load.get(k, 0.0) + v
    for k, v in load.items():
        c.check(v <= 1 + tol, f"{pre}-airtime", f"sector {k} has {v}: {msg}")
    for i in range(ins.n):
        x = ins.id[i]
        fin = sum(v for (a, b), v in f.items() if b == x)
        fout = sum(v for (a, b), v in f.items() if a == x)
        c.close(fin, fout, f"{pre}-flow-balance", f"site {i}: {msg}", tol=1e-4)
        if ins.types[i] == POP:
            c.check(fout <= prm.pop_capacity + tol, f"{pre}-pop-capacity", f"POP {i} sends {fout}: {msg}")
    # no loops
    adj = {}
    for a, b in f:
        adj.setdefault(a, []).append(b)
    done, stack = set(), set()

    def loop(x):
        stack.add(x)
        for y in adj.get(x, ()):
            if y in stack or y not in done and loop(y):
                return True
        stack.discard(x)
        done.add(x)
        return False

    c.check(not any(loop(x) for x in list(adj) if x not in done), f"{pre}-loop", f"flow {f}: {msg}")
    return f


def check_plan(c, ins, prm, sol, pre, blocked=(), msg="", channels=False):
    """The parts of a solution fit together and keep the rules of the network."""
    S = {i for i in range(ins.n) if sol.site_decisions[ins.id[i]] == 1}
    c.check(set(sol.site_decisions) == set(ins.id) and set(sol.site_decisions.values()) <= {0, 1}, f"{pre}-sites", f"decisions {sol.site_decisions}: {msg}")
    c.check(not any(ins.statuses[i] in INACTIVE for i in S), f"{pre}-inactive-site", f"selects {sorted(S)}: {msg}")
    allowed = list(ins.choices(prm.always_active_pops))
    c.check(any(S <= a for a in allowed), f"{pre}-colocated", f"selects {sorted(S)}: {msg}")
    pol = {}
    if not prm.ignore_polarities:
        for i in range(ins.n):
            o, e = sol.odd_site_decisions.get(ins.id[i], 0), sol.even_site_decisions.get(ins.id[i], 0)
            c.eq(o + e, int(i in S and ins.types[i] != CN), f"{pre}-polarity-assigned", f"site {i} odd={o} even={e}, selected {sorted(S)}: {msg}")
            if o + e:
                pol[i] = o
    L = set()
    for (a, b), d in sol.link_decisions.items():
        if d == 1:
            if a not in ins.idx or b not in ins.idx:
                c.fail(f"{pre}-links", f"link {a}-{b}: {msg}")
                continue
            L.add((ins.idx[a], ins.idx[b]))
    want = set(ins.usable(S, pol))
    c.eq(sorted(L), sorted(want), f"{pre}-links", f"sites {sorted(S)} polarities {pol}: {msg}")
    nodes = set()
    for i, j in L & set(ins.dlinks):
        l = ins.dlinks[i, j]
        if l[0] == "w":
            nodes |= {(i, ins.sectors[i, l[3]].node_id), (j, ins.sectors[j, l[4]].node_id)}
    for k, s in ins.sectors.items():
        d = sol.sector_decisions[s.site.site_id, s.sector_id]
        on = int((k[0], s.node_id) in nodes)
        c.eq(d, on, f"{pre}-sectors", f"sector {k}, links {sorted(L)}: {msg}")
    touched = {x for k in L for x in k} | {i for d in ins.dem for i in d[0]}
    for i in S:
        c.check(i in touched, f"{pre}-idle-site", f"site {i} is selected without links: {msg}")
    f = check_flow(c, ins, prm, sol.flow_decisions, sol.tdm_decisions, S, L, blocked, pre, msg)
    got = []
    for k, (con, d) in enumerate(ins.dem):
        x = ins.did[k]
        v = sum(y for (a, b), y in f.items() if b == x)
        c.check(all(ins.idx.get(a) in con for (a, b) in f if b == x), f"{pre}-demand-links", f"demand {k} is served by {[a for a, b in f if b == x]}: {msg}")
        c.close(v, d / prm.oversubscription - sol.shortage_decisions[x], f"{pre}-shortage", f"demand {k} gets {v} of {d}: {msg}", tol=1e-4)
        got.append(v)
    act_nodes = {k: s for k, s in ((k, ins.sectors[k]) for k in ins.sectors) if sol.sector_decisions[s.site.site_id, s.sector_id] == 1}
    cost = sum(CAPEX[ins.types[i]] for i in S if ins.statuses[i] != EXISTING) + sum(ins.dev(i).node_capex for i, _ in {(k[0], s.node_id) for k, s in act_nodes.items()} if ins.statuses[i] != EXISTING)
    c.close(sol.cost, cost, f"{pre}-cost", f"sites {sorted(S)} nodes {sorted(nodes)}: {msg}", tol=1e-6)
    return S, pol, L, f, got

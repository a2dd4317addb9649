"""C23: the interference step picks the best links, polarities and channels for the selected sites."""
import itertools
import math

import numpy as np
import site_ref
import tg
from tie import KINDS, tied
from c19 import CAPS, E, W, mix, usable_input
from scipy.optimize import linprog
from site_ref import ACTIVE, CAPEX, INACTIVE, Inst, check_flow
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork
from terragraph_planner.optimization.topology_interference import compute_link_interference

NOISE = -74.0
ROWS = {
    0: [(3, 3.0, 0.0), (9, 12.0, 741.25), (12, 18.0, 1800.0)],
    1: [(8, 9.0, 645.0), (12, 16.0, 1415.0)],  # no row without throughput
}
DEV = {}
for (t, k), d in site_ref.DEV.items():
    sp = dict(hsr=d.sector_params.horizontal_scan_range, capex=d.node_capex, thermal_noise_power=NOISE - 7.0 - 6 * k, noise_figure=7.0 + 6 * k)
    if t == DN:
        DEV[t, k] = tg.dn_device(d.device_sku, nodes=d.number_of_nodes_per_site, sectors=d.sector_params.number_sectors_per_node, **{**sp, "hsr": 180.0})
    else:
        DEV[t, k] = tg.cn_device(d.device_sku, **{**sp, "hsr": 360.0 if k else 60.0})
    DEV[t, k].sector_params.mcs_map = [MCSMap(mcs=m, snr=s, mbps=b, tx_backoff=0) for m, s, b in ROWS[k]]


class Net(Inst):
    """snr: {(i, j): SNR in dB without interference}; heard: {(i, j): interfering power above noise in dB}."""

    def __init__(self, snr=None, heard=None, **kw):
        super().__init__(**kw)
        self.snr, self.heard = snr or {}, heard or {}
        for i, j in self.dlinks:
            l = self.link(i, j)
            l.rsl_dbm = NOISE + self.snr.get((i, j), 25.0)
            l.snr_dbm = self.snr.get((i, j), 25.0)
        top = max((l.distance for l in self.topo.links.values()), default=0)
        self.weight = {k: 1 + (top - self.link(*k).distance) / (top or 1) for k in self.dlinks}

    def link(self, i, j):
        return self.topo.get_link_by_site_ids(self.id[i], self.id[j])

    def dev(self, i):
        return DEV[CN if self.types[i] == CN else DN, self.skus[i]]

    def rsl(self):
        return {(self.id[i], self.id[j]): NOISE + v for (i, j), v in self.heard.items()}

    def __repr__(self):
        return f"{super().__repr__()} snr={self.snr} heard={self.heard}"


def prm_of(**kw):
    kw.setdefault("pop_capacity", 3.0)
    ignore = kw.pop("ignore_polarities", False)
    prm = tg.opt_params(device_list=list(DEV.values()), pop_site_capex=CAPEX[POP], dn_site_capex=CAPEX[DN], cn_site_capex=CAPEX[CN], interference_rel_stop=-1, min_cost_rel_stop=-1, redundancy_rel_stop=-1, **kw)
    prm.ignore_polarities = ignore
    return prm


class Ref:
    """The plans for the interference step, enumerated."""

    def __init__(self, ins, prm, pairs, rsl):
        self.ins, self.prm = ins, prm
        rank = {CN: 0, DN: 1, POP: 2}
        A = set()
        for g in ins.groups():
            act = [i for i in g if ins.statuses[i] in ACTIVE]
            top = max((rank[ins.types[i]] for i in act), default=-1)
            A |= {i for i in act if rank[ins.types[i]] == top}
        self.A = A
        self.radio = {k: l for k, l in ins.dlinks.items() if l[0] == "w" and l[2] > 0}
        self.cand = {k for k, l in self.radio.items() if k[0] in A and k[1] in A and l[1] not in INACTIVE}
        self.wires = {k: l for k, l in ins.dlinks.items() if l[0] == "e" and k[0] in A and k[1] in A and l[1] not in INACTIVE}
        self.units = sorted({tuple(sorted(k)) for k in self.cand})
        self.forced = {tuple(sorted(k)) for k in self.cand if self.radio[k][1] == EXISTING}
        self.pairs = [(ins.idx[a], ins.idx[b], ins.idx[d]) for a, b, d in pairs]
        self.total = sum(d for _, d in ins.dem) / prm.oversubscription
        lin = lambda x: 10 ** (x / 10)
        self.lin = lin
        self.heard = {(ins.idx[a], ins.idx[b]): lin(v) for (a, b), v in rsl.items()}
        self.power = {k: lin(ins.link(*k).rsl_dbm) for k in self.radio}
        self.noise = {i: lin(ins.dev(i).sector_params.thermal_noise_power + ins.dev(i).sector_params.noise_figure) for i in range(ins.n)}

    def directed(self, L):
        return {k for k in self.cand if tuple(sorted(k)) in L}

    # -- rules on the set of links
    def rules(self, L):
        """The rules on links that do not depend on polarities and channels, as broken rules."""
        ins, bad = self.ins, []
        D = self.directed(L)
        for i in self.A:
            if ins.types[i] == CN:
                if sum(k[1] == i for k in D) > 1:
                    bad.append(("parents", i))
                continue
            for s in (0, 1):
                out = [k for k in D if k[0] == i and self.radio[k][3] == s]
                if sum(ins.types[k[1]] != CN for k in out) > self.prm.dn_dn_sector_limit:
                    bad.append(("dn-limit", i, s))
                if len(out) > self.prm.dn_total_sector_limit:
                    bad.append(("total-limit", i, s))
        return bad

    def close_pairs(self, L):
        D = self.directed(L)
        return [((i, j), (i, k)) for i, j, k in self.pairs if (i, j) in D and (i, k) in D and not (self.radio[i, j][1] == self.radio[i, k][1] == EXISTING)]

    def sectors(self, k):
        """The DN sectors of a link."""
        i, j = k
        l = self.radio[k]
        return [(i, l[3])] + ([(j, l[4])] if self.ins.types[j] != CN else [])

    def polarities(self, L):
        """All polarities under which the links work."""
        d = sorted(i for i in self.A if self.ins.types[i] != CN)
        if self.prm.ignore_polarities:
            yield {}
            return
        back = [u for u in L if CN not in (self.ins.types[u[0]], self.ins.types[u[1]])]
        for bits in itertools.product((0, 1), repeat=max(0, len(d) - 1)):
            pol = dict(zip(d, (0,) + bits))
            if all(pol[i] != pol[j] for i, j in back):
                yield pol

    def channels(self, L):
        """All channels of the sectors under which the links work."""
        D, C = self.directed(L), self.prm.number_of_channels
        secs = sorted({s for k in D for s in self.sectors(k)})
        root = {s: s for s in secs}

        def find(s):
            while root[s] != s:
                s = root[s]
            return s

        for k in D:
            s = self.sectors(k)
            if len(s) == 2:
                root[find(s[0])] = find(s[1])
        roots = sorted({find(s) for s in secs})
        near = [(find((a[0], self.radio[a][3])), find((b[0], self.radio[b][3]))) for a, b in self.close_pairs(L)]
        for ch in itertools.product(range(C), repeat=len(roots)):
            if ch and ch[0]:
                break  # the numbering of the channels does not matter
            of = dict(zip(roots, ch))
            if all(of[a] != of[b] for a, b in near):
                yield {s: of[find(s)] for s in secs}

    def feasible(self, L):
        return self.forced <= L and not self.rules(L) and next(self.polarities(L), None) is not None and next(self.channels(L), None) is not None

    def maximal(self):
        """The sets of links to which no link can be added."""
        free = [u for u in self.units if u not in self.forced]
        found = []
        for n in range(len(free), -1, -1):
            for x in itertools.combinations(free, n):
                L = frozenset(x) | self.forced
                if not any(L <= m for m in found) and self.feasible(L):
                    found.append(L)
        return found

    def shadowed(self, found):
        """For plans with interference, where a smaller set may have other polarities and channels."""
        out = {}
        free = [u for u in self.units if u not in self.forced]
        for n in range(len(free), -1, -1):
            for x in itertools.combinations(free, n):
                L = frozenset(x) | self.forced
                if not (self.forced <= L) or self.rules(L):
                    continue
                chans = list(self.channels(L))
                for pol in self.polarities(L):
                    for ch in chans:
                        sig = self.interferers(L, pol, ch)
                        if any(L <= m and sig == {k: [t for t in v if t[1] in self.directed(L)] for k, v in s.items() if k in self.directed(L)} for m, s in out):
                            continue
                        out[L, frozendict(sig)] = 1
        return list(out)

    # -- interference
    def interferers(self, L, pol, chan):
        """(i, j) -> [(power, (k, m))]: transmissions k -> m heard at j while it listens to i."""
        ins, D = self.ins, self.directed(L)
        out = {}
        for i, j in D:
            ls = self.radio[i, j]
            for k in self.A:
                if k == i or (k, j) not in self.radio or (k, j) not in self.heard:
                    continue
                lk = self.radio[k, j]
                if ins.types[j] != CN:
                    if lk[4] != ls[4]:
                        continue
                elif ins.dev(j).sector_params.horizontal_scan_range < 360:
                    d = abs(ins.link(k, j).rx_beam_azimuth - ins.link(i, j).rx_beam_azimuth) % 360
                    if min(d, 360 - d) >= ins.dev(j).sector_params.horizontal_scan_range / 2 + 0.01:
                        continue
                if pol and pol.get(k) != pol.get(i):
                    continue
                for m in self.A:
                    if m != j and (k, m) in D and self.radio[k, m][3] == lk[3] and chan[k, lk[3]] == chan[i, ls[3]]:
                        out.setdefault((i, j), []).append((self.heard[k, j], (k, m)))
        return {k: sorted(v) for k, v in out.items()}

    def classes(self, k):
        """(smallest SINR, throughput) with the signal of the link, best first."""
        rows = [(self.lin(r.snr), r.mbps / 1000) for r in self.ins.dev(k[1]).sector_params.mcs_map]
        snr = self.power[k] / self.noise[k[1]]
        rows = sorted([r for r in rows if r[1] > 0 and snr >= r[0] * (1 - 1e-12)], key=lambda r: -r[1])
        return rows + [(0.0, 0.0)]

    def rate(self, k, noise):
        return max((b for s, b in self.classes(k) if s == 0 or noise / self.power[k] <= 1 / s + 1e-5), default=0.0)

    def serve(self, L, sig, goal, connected=()):
        """Best coverage with these links: over all choices of rates of the links."""
        D = self.directed(L)
        hit = [k for k in sorted(D) if k in sig]
        base = {k: self.classes(k)[0][1] for k in D if k not in sig}
        best = None
        opts = []
        for k in hit:  # a slower rate that stands the full interference needs no faster ones below it
            full = self.noise[k[1]] + self.worst(sig[k])
            o = []
            for s, b in self.classes(k):
                o.append((s, b))
                if s == 0 or self.power[k] / full >= s:
                    break
            opts.append(o)
        top = None
        for ch in itertools.product(*opts):
            rate = {**base, **{k: b for k, (s, b) in zip(hit, ch)}}
            lim = {k: self.power[k] / s - self.noise[k[1]] for k, (s, b) in zip(hit, ch) if s > 0}
            v = self.lp(D, rate, lim, sig, goal, connected)
            if top is None:
                top = self.lp(D, rate, {}, sig, goal, connected)
            best = v if best is None else max(best, v)
            if best >= top - 1e-9:
                break
        return best

    def worst(self, heard):
        by = {}
        for p, (k, m) in heard:
            by[k, self.radio[k, m][3]] = p  # the transmissions of a sector take turns
        return sum(by.values())

    def lp(self, D, rate, lim, sig, goal, connected):
        ins, prm = self.ins, self.prm
        use = {**{k: self.radio[k] for k in D}, **self.wires}
        seen = ins.reach(self.A, use)
        use = {k: l for k, l in use.items() if k[0] in seen}
        dems = [(k, [i for i in c if i in seen], d / prm.oversubscription) for k, (c, d) in enumerate(ins.dem)]
        if goal == "common" and any(not c for k, c, _ in dems if k in connected):
            return 0.0
        caps = [l[2] for l in ins.dlinks.values()]
        ends = max(caps) if caps else prm.pop_capacity
        var = [("f", k) for k in use] + [("t", k) for k in use if k in D] + [("s", i) for i in seen if ins.types[i] == POP] + [("d", i, k) for k, c, _ in dems for i in c] + [("z",)]
        at = {v: x for x, v in enumerate(var)}
        hi = {"f": None, "t": 1.0, "s": prm.pop_capacity, "d": ends, "z": None}
        ub = [min(use[v[1]][2], rate[v[1]]) if v[0] == "f" and v[1] in D else use[v[1]][2] if v[0] == "f" else hi[v[0]] for v in var]
        A, b, Eq = [], [], []

        def row(terms):
            r = np.zeros(len(var))
            for v, x in terms:
                r[at[v]] += x
            return r

        for k in use:
            if k in D:
                A.append(row([(("f", k), 1.0), (("t", k), -use[k][2])]))
                b.append(0.0)
        for i in sorted(seen):
            inc = [(("f", k), 1.0) for k in use if k[1] == i] + [(("s", i), 1.0)] * (ins.types[i] == POP)
            out = [(("f", k), 1.0) for k in use if k[0] == i] + [(("d", i, k), 1.0) for k, c, _ in dems if i in c]
            Eq.append(row(inc + [(v, -x) for v, x in out]))
            if ins.types[i] == POP:
                A.append(row(out))
                b.append(prm.pop_capacity)
            for s in (0, 1):
                for d, x in ((0, 3), (1, 4)):
                    t = [(("t", k), 1.0) for k in use if k in D and k[d] == i and use[k][x] == s]
                    if len(t) > 1:
                        A.append(row(t))
                        b.append(1.0)
        for k, room in lim.items():
            for p, q in sig[k]:
                if ("t", q) in at and p > room * 1e6:  # as good as never
                    ub[at["t", q]] = 0.0
            t = [(("t", q), p / room) for p, q in sig[k] if ("t", q) in at and p <= room * 1e6]
            if t:
                A.append(row(t))
                b.append(1.0)
        obj = np.zeros(len(var))
        for k, c, d in dems:
            got = [(("d", i, k), 1.0) for i in c]
            A.append(row(got))
            b.append(d)
            if goal == "total":
                for v, x in got:
                    obj[at[v]] -= x
            elif k in connected:
                A.append(row([(("z",), 1.0)] + [(v, -x) for v, x in got]))
                b.append(0.0)
        if goal == "common":
            obj[at[("z",)]] = -1.0
            ub[-1] = min(ins.dem[k][1] / prm.oversubscription for k in connected)
        else:
            ub[-1] = 0.0
        r = linprog(obj, np.array(A) if A else None, b or None, np.array(Eq) if Eq else None, [0.0] * len(Eq) if Eq else None, [(0.0, u) for u in ub], method="highs")
        assert r.status == 0, r.message
        return -float(r.fun)

    def weight(self, L):
        return sum(self.ins.weight[k] for k in self.directed(L))

    def plans(self):
        """(links, interference) of the plans that need to be compared."""
        m = self.maximal()
        if not self.heard:
            return [(L, {}) for L in m]
        return self.shadowed(m)

    def connectable(self):
        """The largest sets of demands that some links connect at once."""
        best, sets = -1, []
        for L in self.maximal():
            seen = self.ins.reach(self.A, self.directed(L) | {k for k, l in self.wires.items() if l[2] > 0})
            s = frozenset(k for k, (c, _) in enumerate(self.ins.dem) if any(i in seen for i in c))
            if len(s) > best:
                best, sets = len(s), []
            if len(s) == best and s not in sets:
                sets.append(s)
        return sets


class frozendict(dict):
    def __hash__(self):
        return hash(str(sorted(self.items())))


def judge(c, ins, prm, ref, sol, connected, pre, msg):
    """A solution keeps all rules and no plan is better."""
    goal = "total" if connected is None else "common"
    plans = ref.plans()
    c.step(len(plans))
    served = [(ref.serve(L, sig, "total"), L, sig) for L, sig in plans]
    if goal == "common":
        com = [(ref.serve(L, sig, "common", connected) if connected else 0.0, L) for _, L, sig in served]
        if max((v for v, _ in com), default=0.0) <= 1e-9:  # no common bandwidth: the total counts
            goal = "total"
    if sol is None:
        c.check(not plans or max(v for v, _, _ in served) <= 1e-5, f"{pre}-missed", f"no plan, although {max((v for v, _, _ in served), default=None)} can be served: {msg}")
        c.outcome("none", bool(plans))
        return None
    if not plans:
        c.fail(f"{pre}-infeasible", msg)
        return None
    # sites
    S = {i for i in range(ins.n) if sol.site_decisions[ins.id[i]] == 1}
    L, wired = set(), set()
    for (a, b), v in sol.link_decisions.items():
        if v != 1:
            continue
        k = (ins.idx.get(a), ins.idx.get(b))
        if None in k or k not in ins.dlinks:
            c.fail(f"{pre}-links", f"link {a}-{b}: {msg}")
            continue
        (wired if ins.dlinks[k][0] == "e" else L).add(k)
    c.eq(sorted(wired), sorted(ref.wires), f"{pre}-wired", msg)
    c.check(L <= ref.cand, f"{pre}-links", f"links {sorted(L)} of {sorted(ref.cand)}: {msg}")
    units = frozenset(tuple(sorted(k)) for k in L)
    c.eq(sorted(L), sorted(ref.directed(units)), f"{pre}-symmetric", msg)
    L = ref.directed(units)
    c.check(ref.forced <= units, f"{pre}-existing-link", f"links {sorted(units)} without {sorted(ref.forced - units)}: {msg}")
    c.eq(ref.rules(units), [], f"{pre}-rules", f"links {sorted(L)}: {msg}")
    touched = {x for k in L | wired for x in k} | {i for d in ins.dem for i in d[0]}
    c.eq(sorted(S), sorted(ref.A & touched), f"{pre}-sites", msg)
    # sectors and channels
    nodes = {x for i, j in L for x in ((i, ins.sectors[i, ins.dlinks[i, j][3]].node_id), (j, ins.sectors[j, ins.dlinks[i, j][4]].node_id))}
    chan = {}
    for key, s in ins.sectors.items():
        d = sol.sector_decisions[s.site.site_id, s.sector_id]
        ch = sol.channel_decisions[s.site.site_id, s.sector_id]
        c.eq(d, int((key[0], s.node_id) in nodes), f"{pre}-sectors", f"sector {key}, links {sorted(L)}: {msg}")
        c.check(0 <= ch < prm.number_of_channels if d else ch == -1, f"{pre}-channel", f"sector {key} has {ch}: {msg}")
        chan[key] = ch
    for i, j in L:
        l = ins.dlinks[i, j]
        c.eq(chan[j, l[4]], chan[i, l[3]], f"{pre}-link-channel", f"link {i}->{j}: {msg}")
    for a, b in ref.close_pairs(units):
        c.check(chan[a[0], ins.dlinks[a][3]] != chan[b[0], ins.dlinks[b][3]], f"{pre}-angle", f"links {a} {b}: {msg}")
    # polarities
    pol = {}
    if not prm.ignore_polarities:
        for i in range(ins.n):
            o, e = sol.odd_site_decisions.get(ins.id[i], 0), sol.even_site_decisions.get(ins.id[i], 0)
            c.eq(o + e, int(i in S and ins.types[i] != CN), f"{pre}-polarity", f"site {i} odd {o} even {e}: {msg}")
            if o + e:
                pol[i] = o
        for i, j in L:
            if i in pol and j in pol:
                c.check(pol[i] != pol[j], f"{pre}-polarity", f"link {i}->{j}: {msg}")
    # flow
    tdm = {k: v for k, v in sol.tdm_decisions.items() if (ins.idx[k[0]], ins.idx[k[1]]) in L}
    f = check_flow(c, ins, prm, sol.flow_decisions, tdm, S, L | wired, (), pre, msg)
    t = {(ins.idx[a], ins.idx[b]): v for (a, b), v in tdm.items() if v > 1e-7}
    sig = ref.interferers(units, pol, chan)
    for (a, b), v in f.items():
        k = (ins.idx.get(a), ins.idx.get(b))
        if k in L:
            n = ref.noise[k[1]] + sum(p * t.get(q, 0.0) for p, q in sig.get(k, ()))
            c.check(v <= ref.rate(k, n) + 1e-4, f"{pre}-interference", f"flow {v} on {k}, rate {ref.rate(k, n)}, noise {n}, airtimes {t}: {msg}")
    got = []
    for k, (con, d) in enumerate(ins.dem):
        x = ins.did[k]
        v = sum(y for (a, b), y in f.items() if b == x)
        c.check(all(ins.idx.get(a) in con for (a, b) in f if b == x), f"{pre}-demand-links", f"demand {k}: {msg}")
        c.close(v, d / prm.oversubscription - sol.shortage_decisions[x], f"{pre}-shortage", f"demand {k} gets {v} of {d}: {msg}", tol=1e-4)
        got.append(v)
    # best: the most demand is served, and no plan that serves as much has better links
    mine = sum(got) if goal == "total" else min(got[k] for k in connected)
    all_ = [(v, ref.weight(M)) for v, M, _ in served] if goal == "total" else [(v, ref.weight(M)) for v, M in com]
    scale = ref.total / (1 if goal == "total" else len(ins.dem))
    top = max(v for v, _ in all_)
    c.check(mine >= top - 0.01 * scale - 1e-4, f"{pre}-coverage", f"{goal} {mine} of {top}, links {sorted(units)} serving {got}: {msg}")
    same = max((w for v, w in all_ if v >= mine - 1e-6), default=None)
    if same is None:
        c.fail(f"{pre}-impossible", f"{goal} {mine} of {top}, links {sorted(units)} serving {got}: {msg}")
    else:
        c.check(ref.weight(units) >= same - 1e-3, f"{pre}-links-best", f"links {sorted(units)} of {ref.weight(units)}, {same} is possible with {goal} {mine}: {msg}")
    cost = sum(CAPEX[ins.types[i]] for i in S if ins.statuses[i] != EXISTING) + sum(ins.dev(i).node_capex for i, _ in nodes if ins.statuses[i] != EXISTING)
    c.close(sol.cost, cost, f"{pre}-cost", msg, tol=1e-6)
    c.outcome(goal, len(units), len(plans), round(sum(got), 3), bool(sig))
    return units


def one(item, c):
    kw, pk, pairs = item
    ins, prm = Net(**kw), prm_of(**pk)
    msg = f"close {pairs} {pk} on {ins}"
    if not usable_input(ins) or not any(s in ACTIVE for s in ins.statuses):
        return
    ids = [(ins.id[i], ins.id[j], ins.id[k]) for i, j, k in pairs]
    m = MinInterferenceNetwork(ins.topo, prm, ids, ins.rsl())
    ref = Ref(ins, prm, ids, ins.rsl())
    connected = None
    if prm.maximize_common_bandwidth:
        did = {d: k for k, d in enumerate(ins.did)}
        connected = frozenset(did[d] for d in m.connected_demand_sites)
        sets = ref.connectable()
        c.check(not sets or connected in sets, "connected-demands", f"connected {sorted(connected)} of {[sorted(s) for s in sets]}: {msg}")
    sol = m.solve()
    c.state(msg)
    judge(c, ins, prm, ref, sol, connected, "one", msg)
    if connected is not None:
        c.eq(prm.maximize_common_bandwidth, True, "params-changed", msg)


# ---- spaces -----------------------------------------------------------------

SHAPES = [
    # types, pairs, places
    ((POP, DN, DN, CN, CN), [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (1, 4), (2, 4), (2, 3)], None),
    ((POP, POP, DN, DN, CN), [(0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (3, 4), (2, 4), (0, 1)], None),
    ((POP, DN, DN, DN, CN), [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3), (3, 4), (1, 4), (1, 3)], None),
    ((POP, DN, CN, DN, CN), [(0, 1), (1, 2), (1, 3), (0, 3), (0, 4), (3, 4), (0, 2)], (0, 1, 2, 2, 3)),
    ((POP, DN, POP, DN, CN), [(0, 1), (1, 2), (1, 3), (0, 3), (2, 4), (3, 4), (1, 4), (0, 4)], (0, 1, 2, 2, 3)),
]


TRIPLES = [  # three sites in one place
    ((POP, DN, CN, DN, POP), [(0, 1), (1, 2), (1, 3), (0, 3), (0, 4), (1, 4), (0, 2)], (0, 1, 2, 2, 2)),
    ((POP, CN, POP, DN, DN), [(0, 1), (0, 2), (0, 3), (3, 4), (2, 4), (4, 1)], (0, 1, 1, 1, 2)),
]


def statuses(k, n, places):
    mode = mix(k * 61) % 8
    st = [PROPOSED] * n
    if mode in (1, 2):
        st = [(PROPOSED, EXISTING)[mix(k + i) % 2] for i in range(n)]
    if mode >= 3:
        st[mix(k * 3) % n] = (CANDIDATE, UNAVAILABLE, EXISTING, CANDIDATE, UNREACHABLE)[mode - 3]
    if mode == 7:
        st[mix(k * 5 + 1) % n] = CANDIDATE
    if places and mode < 6:  # only one of two co-located sites but for upgrades
        st[2] = (EXISTING if mode % 2 else CANDIDATE) if n == 5 and places == (0, 1, 2, 2, 3) else st[2]
    return st


def link_for(types, st, k, q, p):
    i, j = p
    r = mix(k * 11 + q) % 24
    s = CANDIDATE
    if UNAVAILABLE in (st[i], st[j]):
        s = UNAVAILABLE
    elif UNREACHABLE in (st[i], st[j]):
        s = UNREACHABLE
    elif r < 4 and st[i] == st[j] == EXISTING:
        s = EXISTING
    elif r < 8 and st[i] in ACTIVE and st[j] in ACTIVE:
        s = PROPOSED
    elif r in (9, 14):
        s = UNAVAILABLE
    if CN not in (types[i], types[j]) and r in (10, 11, 1, 14):
        return E(s)
    c1, c2 = CAPS[mix(k + q) % 4], CAPS[mix(k + q + 1) % 4]
    if r == 12:
        c2 = 0.0
    elif r == 13:
        c1 = c2 = 0.0
    if s in ACTIVE:
        c1, c2 = c1 or 1.0, c2 or 1.0
    return W(s, c1, c2, mix(k * 2 + q) % 2 if types[i] != CN else 0, mix(k * 2 + q + 5) % 2 if types[j] != CN else 0)


def items(quick):
    out, k = [], 0
    for types, pairs, places in SHAPES:
        n = len(types)
        for on in range(1 << len(pairs)):
            for rep in range(1 if quick else 12):
                k += 1
                if quick and mix(k) % 4:
                    continue
                st = statuses(k, n, places)
                ls = {p: link_for(types, st, k, q, p) for q, p in enumerate(pairs) if on >> q & 1}
                dems = [((4,), 0.4, 1), ((3,), 0.9, 1)] + ([((1, 2), 0.3, 2)] if mix(k) // 8 % 3 == 0 else []) + ([((0,), 0.2, 1)] if mix(k) // 32 % 5 == 0 else [])
                near = {(a, b) for a, b in ls if ls[a, b][0] == "w"} | {(b, a) for a, b in ls if ls[a, b][0] == "w" and types[b] != CN}
                tri = [(i, a, b) for i in range(n) for a, b in itertools.combinations(sorted(j for x, j in near if x == i), 2)]
                close = [x for y, x in enumerate(tri) if mix(k * 13 + y) % 3 == 0] if mix(k) // 64 % 2 else []
                tot = 1 + mix(k * 17) % 3
                lim = dict(dn_total_sector_limit=tot, dn_dn_sector_limit=1 + mix(k * 19) % tot) if mix(k) // 128 % 2 else {}
                ch = (2, 1, 1, 3, 1, 2, 1)[mix(k * 29) % 7]
                pk = dict(number_of_channels=ch, maximize_common_bandwidth=mix(k * 31) % 4 == 0, **lim)
                if mix(k * 37) % 7 == 0:
                    pk["ignore_polarities"] = True
                if mix(k * 41) % 5 == 0:
                    pk["oversubscription"] = 2.0
                if mix(k * 43) % 5 == 0:
                    pk["pop_capacity"] = 0.7
                skus = tuple(0 if places and places.count(places[i]) > 1 else mix(k * 47 + i) % 2 for i in range(n))
                snr = {(a, b): (25.0, 14.0, 12.0, 17.0, 8.0, 1.0)[mix(k * 53 + a * 7 + b) % 6] for a in range(n) for b in range(n)} if mix(k) // 256 % 2 else {}
                out.append((dict(types=types, links=ls, demands=dems, statuses=tuple(st), places=places, skus=skus, reverse=bool(mix(k * 59) % 2), snr=snr), pk, close))
    return out


def rival_items(quick):
    """Networks with links that exist already, some of which break rules with others."""
    out, k = [], 0
    for types, pairs, places in SHAPES + TRIPLES:
        n = len(types)
        for rep in range(240 if quick else 3000):
            k += 1
            st = [EXISTING] * n
            m = mix(k * 67) % 6
            if m < 2:
                st[mix(k * 3) % n] = (PROPOSED, CANDIDATE)[m]
            elif m == 2:
                st = [(EXISTING, PROPOSED)[mix(k * 71 + i) % 3 == 0] for i in range(n)]
            for g in ([i for i in range(n) if places and places[i] == p] for p in (2, 1)):
                g = [i for i in g if types[i] != CN and st[i] in ACTIVE]
                for i in g:  # only client nodes are upgraded
                    if i != g[mix(k * 97) % len(g)]:
                        st[i] = CANDIDATE
            on = mix(k * 73) % (1 << len(pairs)) | mix(k * 89) % (1 << len(pairs))
            ls = {}
            for q, (i, j) in enumerate(pairs):
                if not on >> q & 1:
                    continue
                r = mix(k * 11 + q * 101) % 12
                s = EXISTING if r < 3 and st[i] == st[j] == EXISTING else PROPOSED if r < 5 and {st[i], st[j]} <= set(ACTIVE) else UNAVAILABLE if r == 5 else CANDIDATE
                if r == 6 and CN not in (types[i], types[j]):
                    ls[i, j] = E(s)
                else:
                    ls[i, j] = W(s, CAPS[mix(k + q) % 3], CAPS[mix(k + q + 1) % 3], mix(k * 2 + q * 7) % 2 if types[i] != CN else 0, mix(k * 2 + q * 7 + 5) % 2 if types[j] != CN else 0)
            near = {(a, b) for a, b in ls if ls[a, b][0] == "w"} | {(b, a) for a, b in ls if ls[a, b][0] == "w" and types[b] != CN}
            tri = [(i, a, b) for i in range(n) for a, b in itertools.combinations(sorted(j for x, j in near if x == i), 2)]
            close = [x for y, x in enumerate(tri) if mix(k * 13 + y * 7) % 2]
            dems = [((n - 1,), 0.4, 1), ((mix(k * 5) % n,), 0.9, 1)]
            pk = dict(number_of_channels=1 + mix(k * 29) % 3, maximize_common_bandwidth=mix(k * 31) % 3 == 0)
            if mix(k * 83) % 3 == 0:
                pk.update(dn_total_sector_limit=2, dn_dn_sector_limit=1)
            skus = tuple(0 if places and places.count(places[i]) > 1 else mix(k * 47 + i) % 2 for i in range(n))
            out.append((dict(types=types, links=ls, demands=dems, statuses=tuple(st), places=places, skus=skus, reverse=bool(mix(k * 59) % 2)), pk, close))
    return out


def loud_items(quick):
    """Networks whose links disturb each other."""
    out, k = [], 0
    shapes = [
        # two POPs with two CNs each hears
        ((POP, POP, CN, CN), [(0, 2), (0, 3), (1, 2), (1, 3)]),
        ((POP, DN, CN, CN), [(0, 1), (0, 2), (1, 2), (1, 3)]),
        ((POP, DN, DN, CN), [(0, 1), (1, 2), (2, 3), (0, 3)]),
        ((POP, POP, DN, CN), [(0, 2), (1, 2), (0, 3), (1, 3)]),
        ((POP, POP, DN, DN), [(0, 2), (1, 2), (0, 3), (1, 3)]),
        ((POP, DN, DN, CN, CN), [(0, 1), (0, 2), (1, 3), (2, 4), (1, 4)]),
    ]
    for types, pairs in shapes:
        n = len(types)
        for secs in itertools.product((0, 1), repeat=min(4, len(pairs))):
            for lev in itertools.product((None, 3.0, 14.0), (6.0, 20.0)):
                for ch in (1, 2):
                    for pl in range(1 if quick else 12):
                        k += 1
                        if quick and mix(k) % 4:
                            continue
                        ls = {}
                        for q, (i, j) in enumerate(pairs):
                            a = secs[q % 4] if types[i] != CN else 0
                            b = mix(k * 3 + q) % 4 // 3 if types[j] != CN else 0
                            ls[i, j] = W(CANDIDATE, 1.8, 1.8, a, b)
                        heard = {(i, j): lev[mix(k + i * 5 + j) % 2] for i, j in [x for p in pairs for x in (p, p[::-1])] if types[i] != CN}
                        heard = {x: v for x, v in heard.items() if v is not None}
                        snr = {(i, j): (25.0, 20.0, 13.6)[mix(k * 7 + i + 3 * j) % 3] for i in range(n) for j in range(n)}
                        served = [i for i in range(n) if types[i] == CN] or [2, 3]
                        dems = [((i,), (0.9, 1.6)[mix(k + i) % 2], 1) for i in served]
                        places = [tuple(range(n)), (0, 4, 1, 3, 2)[:n], (3, 1, 0, 2, 5)[:n]][mix(k * 23) % 3]
                        pk = dict(number_of_channels=ch, maximize_common_bandwidth=mix(k * 5) % 4 == 0, ignore_polarities=mix(k * 11) % 4 == 0)
                        skus = tuple((mix(k * 13 + i) % 3 == 0) * 1 for i in range(n))
                        kw = dict(types=types, links=ls, demands=dems, statuses=(PROPOSED,) * n, places=places, skus=skus, snr=snr, heard=heard)
                        out.append((kw, pk, []))
                        if CN in types and n == 4 and ch == 1:
                            # the first CN is served and disturbed from both sides of north
                            cn = types.index(CN)
                            rest = iter((6, 7, 2, 1))
                            out.append((dict(kw, places=tuple(0 if i == cn else next(rest) for i in range(n)), skus=tuple(0 if t == CN else x for t, x in zip(types, skus))), pk, []))
    return out


def step(item, c):
    """The step as the planner runs it."""
    kw, pk = item
    ins, prm = Net(**kw), prm_of(**pk)
    msg = f"{pk} on {ins}"
    if not usable_input(ins) or not any(s in ACTIVE for s in ins.statuses):
        return
    v = find_angle_violating_link_pairs(ins.topo, prm.diff_sector_angle_limit, prm.near_far_angle_limit, prm.near_far_length_ratio, active_components=False)
    ref = Ref(ins, prm, v.diff_sector_list + v.near_far_list, compute_link_interference(ins.topo, prm.maximum_eirp))
    old = {"site": {s.site_id: s.status_type for s in ins.sites}, "link": {k: ins.link(*k).status_type for k in ins.dlinks}}
    c.state(msg)
    try:
        sol = to._run_interference_step(ins.topo, prm)
    except OptimizerException as e:
        judge(c, ins, prm, ref, None, None, "step", f"{e}: {msg}")
        return
    units = judge(c, ins, prm, ref, sol, None, "step", msg)
    if units is None:
        return
    D = ref.directed(units) | set(ref.wires)
    pops = [i for i in ref.A if ins.types[i] == POP and sol.site_decisions[ins.id[i]]]
    # topology: what the plan selects and connects is proposed
    links = D | {k for k, s in old["link"].items() if s == EXISTING}
    live = {i for i in range(ins.n) if sol.site_decisions[ins.id[i]] == 1 or ins.statuses[i] == EXISTING}
    seen = {i for i in live if ins.types[i] == POP}
    while True:
        new = {j for i, j in links if i in seen and j in live} - seen
        if not new:
            break
        seen |= new
    for i, s in enumerate(ins.sites):
        o = old["site"][s.site_id]
        want = o if o in INACTIVE + (EXISTING,) else PROPOSED if i in live and i in seen else CANDIDATE
        c.eq(s.status_type, want, "step-site", f"site {i}: {msg}")
    for k, o in old["link"].items():
        want = o if o in INACTIVE + (EXISTING,) else PROPOSED if k in D and k[0] in seen and k[1] in seen else CANDIDATE
        c.eq(ins.link(*k).status_type, want, "step-link", f"link {k}: {msg}")
    for key, s in ins.sectors.items():
        c.eq(s.channel, sol.channel_decisions[s.site.site_id, s.sector_id], "step-channel", f"sector {key}: {msg}")


def step_items(quick):
    out, k = [], 0
    for kw, pk, _ in items(quick):
        k += 1
        if mix(k) % (3 if quick else 2):
            continue
        pk = {a: b for a, b in pk.items() if a != "maximize_common_bandwidth"}
        pk.update(diff_sector_angle_limit=(25.0, 60.0, 0.0)[mix(k * 3) % 3], near_far_angle_limit=(45.0, 90.0)[mix(k * 5) % 2], near_far_length_ratio=(3.0, 1.5)[mix(k * 7) % 2])
        out.append((kw, pk))
    return out


one_tie = tied(one, "one_tie")
step_tie = tied(step, "step_tie")


def main(r):
    r.map(one, items(r.quick), name="links")
    r.map(one, rival_items(r.quick), name="existing-links")
    r.map(one, loud_items(r.quick), name="interference")
    r.map(step, step_items(r.quick), name="step")
    for fn, its, name in ((one_tie, items(r.quick) + rival_items(r.quick) + loud_items(r.quick), "links-ties"), (step_tie, step_items(r.quick), "step-ties")):
        r.map(fn, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (12 if r.quick else 1) == 0], name=name)

"""C19: the minimum cost network is feasible and no cheaper network reaches the coverage."""
import itertools

import tg
from tie import KINDS, tied
from site_ref import ACTIVE, CAPEX, DEV, INACTIVE, Inst, check_plan
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork

EPS = 1e-6


def prm_of(**kw):
    kw.setdefault("pop_capacity", 3.0)
    kw.setdefault("always_active_pops", True)
    ignore = kw.pop("ignore_polarities", False)
    prm = tg.opt_params(device_list=list(DEV.values()), pop_site_capex=CAPEX[POP], dn_site_capex=CAPEX[DN], cn_site_capex=CAPEX[CN], min_cost_rel_stop=-1, **kw)
    prm.ignore_polarities = ignore
    return prm


def usable_input(ins):
    """The planner refuses inputs without any link at the POPs or at the sites of demands."""
    served = {i for d in ins.demands for i in d[0]}
    direct = any(ins.types[i] == POP for i in served)  # a POP may serve demand itself
    pop = direct and (not ins.dlinks or any(l[2] > 0 for l in ins.dlinks.values())) or any(l[2] > 0 for (i, j), l in ins.dlinks.items() if ins.types[i] == POP)
    dem = direct or any(l[2] > 0 for (i, j), l in ins.dlinks.items() if j in served)
    return pop and dem


def best_cost(ins, prm, cov, connected=None):
    """Cost of the cheapest set of sites that reaches the coverage, None without any."""
    total = sum(d for _, d in ins.dem) / prm.oversubscription
    need = cov * total if connected is None else cov * min(ins.dem[k][1] for k in connected) / prm.oversubscription if connected else 0.0
    todo = sorted((sum(ins.cost(i) for i in s), sorted(s)) for s in ins.choices(prm.always_active_pops))
    for cost, s in todo:
        s = frozenset(s)
        for pol in ins.polarities(s, prm.ignore_polarities):
            use = ins.usable(s, pol)
            v = ins.flow(s, use, prm.pop_capacity, prm.oversubscription, "total" if connected is None else "common", connected)
            if v >= need - EPS:
                return cost
    return None


def solve(ins, prm, cov, c, msg):
    m = MinCostNetwork(ins.topo, prm)
    sol = m.solve(cov)
    connected = None
    if prm.maximize_common_bandwidth:
        did = {d: k for k, d in enumerate(ins.did)}
        connected = frozenset(did[d] for d in m.connected_demand_sites)
        sets = ins.connectable(prm.always_active_pops, ignore=prm.ignore_polarities)
        c.check(not sets or connected in sets, "connected-demands", f"connected {sorted(connected)}, of {[sorted(s) for s in sets]}: {msg}")
    return sol, connected


def one(item, c):
    kw, pk, cov = item
    ins, prm = Inst(**kw), prm_of(**pk)
    msg = f"coverage {cov} {pk} on {ins}"
    if not usable_input(ins):
        c.outcome("refused")
        c.raises(lambda: MinCostNetwork(ins.topo, prm), OptimizerException, "refuse", msg)
        return
    sol, connected = solve(ins, prm, cov, c, msg)
    c.state((sorted(ins.inlinks.items(), key=str), ins.statuses, cov, str(pk)))
    want = best_cost(ins, prm, cov, connected)
    c.step(len(ins.inlinks))
    if sol is None:
        # plans without any flow count as none
        c.check(want is None or not _serves(ins, prm, cov, want, connected), "missed", f"a network of cost {want} covers the demand: {msg}")
        c.outcome("none", want is None)
        return
    c.check(want is not None, "infeasible", f"a plan although no network reaches the coverage: {msg}")
    S, pol, L, f, got = check_plan(c, ins, prm, sol, "plan", (), msg)
    if want is not None:
        c.close(sol.objective_value, want, "cheapest", f"sites {sorted(S)}: {msg}", tol=1e-6)
        c.check(sol.cost <= want + 1e-6, "cost-above", f"cost {sol.cost}, cheapest {want}: {msg}")
    total = sum(d for _, d in ins.dem) / prm.oversubscription
    if connected is None:
        c.check(sum(got) >= cov * total - 1e-4, "coverage", f"serves {got} of {total}: {msg}")
    else:
        need = cov * min(ins.dem[k][1] for k in connected) / prm.oversubscription
        c.check(all(got[k] >= need - 1e-4 for k in connected), "coverage", f"serves {got}, needs {need} at {sorted(connected)}: {msg}")
    forced = {i for i in range(ins.n) if ins.statuses[i] in ACTIVE}
    for i in S - forced:
        c.check(any(ins.id[i] in k for k in f), "useless-site", f"site {i} carries no flow {f}: {msg}")
    c.outcome(tuple(sorted(S)), round(sol.objective_value, 3), tuple(round(x, 2) for x in got))


def _serves(ins, prm, cov, want, connected):
    """Whether the cheapest plans carry any flow."""
    if cov * sum(d for _, d in ins.dem) > 0 and connected is None:
        return True
    return bool(connected) and cov * min(ins.dem[k][1] for k in connected) > 0


def step(item, c):
    """The planning step takes the highest coverage of 100%, 90%, ... 50% and
    transfers the plan to the topology."""
    kw, pk = item
    ins, prm = Inst(**kw), prm_of(**pk)
    msg = f"{pk} on {ins}"
    if not usable_input(ins):
        return
    want = None
    for k in range(6):
        want = best_cost(ins, prm, 1 - k / 10)
        if want is not None:
            break
    before = {s.site_id: s.status_type for s in ins.sites}
    try:
        sol = to._run_min_cost_step(ins.topo, prm)
    except OptimizerException as e:
        c.check(want is None, "step-missed", f"{e}, although coverage {1 - k / 10} costs {want}: {msg}")
        c.outcome("none")
        return
    c.outcome(k, want)
    if want is None:
        c.fail("step-infeasible", msg)
        return
    c.close(sol.objective_value, want, "step-coverage", f"coverage {1 - k / 10}: {msg}", tol=1e-6)
    on = {i for i in range(ins.n) if ins.sites[i].status_type in ACTIVE}
    links = {k for k, l in ins.dlinks.items() if ins.topo.get_link_by_site_ids(ins.id[k[0]], ins.id[k[1]]).status_type in ACTIVE}
    seen = {i for i in on if ins.types[i] == POP}
    while True:
        new = {j for i, j in links if i in seen} - seen
        if not new:
            break
        seen |= new
    for i, s in enumerate(ins.sites):
        st, old = s.status_type, before[s.site_id]
        dec = sol.site_decisions[s.site_id]
        if old in (EXISTING, UNAVAILABLE, UNREACHABLE):
            c.eq(st, old, "step-immutable", f"site {i}: {msg}")
        elif dec and i in seen:
            c.eq(st, PROPOSED, "step-site", f"site {i}: {msg}")
        else:
            c.eq(st, CANDIDATE, "step-site", f"site {i} decision {dec} connected {i in seen}: {msg}")
        if old in (CANDIDATE, PROPOSED):
            c.check(dec or st == CANDIDATE, "step-site", f"site {i}: {msg}")
    for k, l in ins.dlinks.items():
        st = ins.topo.get_link_by_site_ids(ins.id[k[0]], ins.id[k[1]]).status_type
        dec = sol.link_decisions[ins.id[k[0]], ins.id[k[1]]]
        if l[1] in (EXISTING, UNAVAILABLE, UNREACHABLE):
            c.eq(st, l[1], "step-immutable", f"link {k}: {msg}")
        else:
            c.eq(st, PROPOSED if dec and k[0] in seen and k[1] in seen else CANDIDATE, "step-link", f"link {k} decision {dec}: {msg}")


one_tie = tied(one, "one_tie")


# ---- spaces -----------------------------------------------------------------

def W(st=CANDIDATE, c1=1.8, c2=1.8, a=0, b=0):
    return ("w", st, c1, c2, a, b)


def E(st=CANDIDATE, c1=2.5, c2=2.5):
    return ("e", st, c1, c2, 0, 0)


CAPS = (1.8, 1.2, 2.4, 0.7)


def link_sets(types, kinds, pairs=None, turn=0):
    """Every choice of a kind (or none) for every pair."""
    n = len(types)
    pairs = pairs or [p for p in itertools.combinations(range(n), 2) if not (types[p[0]] == CN and types[p[1]] == CN)]
    for ch in itertools.product((None,) + kinds, repeat=len(pairs)):
        out = {}
        for q, (p, k) in enumerate(zip(pairs, ch)):
            if not k or (k == "e" and CN in (types[p[0]], types[p[1]])):
                continue
            c1, c2 = CAPS[(q + p[0] + turn) % 4], CAPS[(q + p[1] + 1) % 4]
            if k == "0":
                out[p] = W(c1=0.0, c2=0.0, a=q % 2)
            elif k == "e":
                out[p] = E()
            else:
                a, b = (q + (k == "x")) % 2, (p[0] + q) % 2
                out[p] = W(c1=c1, c2=c2, a=a if types[p[0]] != CN else 0, b=b if types[p[1]] != CN else 0)
        if any((k == "e" and CN in (types[p[0]], types[p[1]])) for p, k in zip(pairs, ch)):
            continue
        yield out


def mix(k):
    return (k * 2654435761 & 0xFFFFFFFF) >> 12


def items(quick, turn=0):
    out = []

    def add(types, links, demands, pk=None, cov=1.0, **kw):
        # a POP is no client: links to CNs are listed from the distribution side
        ln = {}
        for (i, j), l in links.items():
            ln[(j, i) if types[i] == CN else (i, j)] = (l[0], l[1], l[3], l[2], l[5], l[4]) if types[i] == CN else l
        out.append((dict(types=types, links=ln, demands=demands, **kw), pk or {}, cov))

    k = turn * 7919
    # topologies
    for types, kinds in (((POP, DN, DN, CN), ("w",)), ((POP, DN, CN, CN), ("w", "x")), ((POP, POP, DN, CN), ("w",)), ((POP, DN, DN, DN), ("w",))):
        dem = [((3,), 1.1, 1), ((2,), 0.6, 1)]
        for ls in link_sets(types, kinds, None, turn):
            k += 1
            if quick and mix(k) % 2 == 1:
                continue
            add(types, ls, dem, dict(always_active_pops=bool(k % 3)), (1.0, 0.6)[k % 2], reverse=bool(k % 5 == 0))
    # more sites: two disjoint chains of different costs and capacities
    types = (POP, DN, DN, DN, CN)
    pairs = [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2), (3, 4), (2, 4), (1, 4)]
    for ls in link_sets(types, ("w",), pairs, turn):
        k += 1
        if quick and mix(k) % 2 == 1:
            continue
        add(types, ls, [((4,), 1.0, 1), ((3,), 0.4, 1)], dict(maximize_common_bandwidth=bool(k % 8 == 0)), (1.0, 0.5)[k % 3 == 0], skus=(0, k % 2, 0, k // 2 % 2, 0))
    # statuses of sites
    types = (POP, DN, DN, CN, POP)
    for st in itertools.product((CANDIDATE, PROPOSED, EXISTING, UNAVAILABLE), repeat=5):
        k += 1
        if quick and mix(k) % 2 == 1:
            continue
        ls = {}
        for q, p in enumerate([(0, 1), (1, 2), (2, 3), (1, 3), (4, 2), (0, 2)]):
            a, b = st[p[0]], st[p[1]]
            x = UNAVAILABLE if UNAVAILABLE in (a, b) else CANDIDATE if CANDIDATE in (a, b) else EXISTING if a == b == EXISTING and (k + q) % 2 else PROPOSED if (k + q) % 3 == 0 else CANDIDATE
            ls[p] = W(x, CAPS[q % 4], CAPS[(q + 1) % 4], q % 2, (q // 2) % 2 if p[1] != 3 else 0)
        # the three links 0-1, 1-2, 0-2 make an odd cycle when all are fixed
        add(types, ls, [((3,), 0.9, 1), ((2,), 0.3, 1)], dict(always_active_pops=bool(k % 2)), 1.0, statuses=st)
    # statuses of links, wired links
    for st in itertools.product((CANDIDATE, EXISTING, UNAVAILABLE), repeat=4):
        for kinds in itertools.product("we", repeat=3):
            k += 1
            if quick and mix(k) % 2 == 1:
                continue
            types = (POP, DN, DN, CN)
            ls = {p: (W(s, a=q % 2, b=q // 2) if kd == "w" else E(s, 1.0 + 0.5 * q, 2.0)) for q, (p, s, kd) in enumerate(zip([(0, 1), (0, 2), (1, 2)], st, kinds))}
            ls[2, 3] = W(st[3], 1.3, 1.3, 0, 0)
            ls[1, 3] = W(CANDIDATE, 0.4, 0.4, 1, 0)
            add(types, ls, [((3,), 1.2, 1), ((1,), 0.5, 1)], {}, (1.0, 0.7)[k % 2], statuses=(EXISTING,) * 4)
    # co-located sites: choice of hardware, upgrades
    for types, places in (((POP, DN, DN, CN, CN), (0, 1, 1, 2, 2)), ((POP, DN, CN, DN, CN), (0, 1, 1, 2, 2)), ((POP, POP, DN, CN, DN), (0, 1, 1, 2, 2)), ((POP, POP, POP, DN, CN), (0, 0, 1, 1, 2))):
        skus = tuple(int(p in places[:i] and types[i] == types[places.index(p)]) for i, p in enumerate(places))
        pairs = [p for p in itertools.combinations(range(5), 2) if places[p[0]] != places[p[1]] and not (types[p[0]] == types[p[1]] == CN)]
        for st in itertools.product((CANDIDATE, EXISTING, UNAVAILABLE), repeat=5):
            if any(st[i] == st[j] == EXISTING for i, j in itertools.combinations(range(5), 2) if places[i] == places[j]):
                continue
            k += 1
            if quick and mix(k) % 4 == 1:
                continue
            ls = {p: W(UNAVAILABLE if UNAVAILABLE in (st[p[0]], st[p[1]]) else CANDIDATE, CAPS[q % 4], CAPS[q % 3], q % 2, 0 if types[p[1]] == CN else (q // 2) % 2) for q, p in enumerate(pairs) if mix(k * 67 + q) % 4}
            last = tuple(i for i in range(5) if places[i] == 2)
            add(types, ls, [(last, 1.0, 1)] + ([((1 + k // 2 % 2,), 0.4, 1)] if k % 2 else []), dict(always_active_pops=bool(k % 3), maximize_common_bandwidth=bool(k % 4 == 1)), 1.0, statuses=st, places=places, skus=skus)
    # amounts: time of sectors, capacity of POPs, oversubscription, copies
    types = (POP, DN, DN, CN, CN)
    for sec, cap, d, pc, cov in itertools.product(range(4), (0.9, 1.6), (0.4, 0.75, 1.3), (1.0, 2.0), (1.0, 0.8, 0.5)):
        for over, m, common in ((1.0, 1, False), (2.0, 2, False), (1.0, 1, True), (1.0, 2, True)):
            k += 1
            if quick and mix(k) % 2 == 1:
                continue
            ls = {(0, 1): W(c1=cap * 2, a=0), (0, 2): W(c1=cap, a=sec % 2), (1, 2): W(c1=cap, a=1, b=1), (1, 3): W(c1=cap, a=sec // 2), (2, 3): W(c1=cap, a=0), (2, 4): W(c1=cap * 1.5, a=sec % 2), (1, 4): W(c1=cap / 2, a=sec // 2)}
            add(types, ls, [((3,), d, m), ((4,), d * 1.2, 1), ((1,), 0.2, 1)], dict(pop_capacity=pc, oversubscription=over, maximize_common_bandwidth=common), cov)
    # demands served by POPs themselves and by several sites
    types = (POP, POP, DN, CN)
    for d0, d1, dem, pc, apop in itertools.product((None, (0,), (0, 1)), (None, (1, 2), (2,)), (0.8, 3.0), (1.5, 4.0), (False, True)):
        for st in ((CANDIDATE,) * 4, (UNAVAILABLE, CANDIDATE, CANDIDATE, CANDIDATE), (CANDIDATE, EXISTING, CANDIDATE, CANDIDATE)):
            k += 1
            if quick and mix(k) % 2 == 1:
                continue
            x = lambda a, b: UNAVAILABLE if UNAVAILABLE in (st[a], st[b]) else CANDIDATE
            ls = {(0, 2): W(x(0, 2), 1.0), (1, 2): W(x(1, 2), 1.4, a=1, b=1), (2, 3): W(c1=1.2, a=0), (1, 3): W(x(1, 3), c1=0.6, a=0)}
            add(types, ls, [(s, dem, 1) for s in (d0, d1) if s] + [((3,), 0.5, 1)], dict(pop_capacity=pc, always_active_pops=apop, maximize_common_bandwidth=mix(k) // 8 % 4 == 0), (1.0, 0.9, 0.5)[mix(k) // 32 % 3], statuses=st)
    # POPs whose only link is stronger than what they can feed into it
    types = (POP, POP, DN, CN)
    for dem, pc, apop, common, cov, sec in itertools.product((0.4, 0.9, 1.5), (0.5, 0.8, 1.4), (False, True), (False, True), (1.0, 0.6), (0, 1)):
        k += 1
        if quick and mix(k * 61) % 2 == 1:
            continue
        ls = {(0, 2): W(c1=2.4, c2=1.2, b=0), (1, 2): W(c1=1.8, c2=1.8, b=sec), (2, 3): W(c1=2.1, a=1)}
        add(types, ls, [((3,), dem, 1)], dict(pop_capacity=pc, always_active_pops=apop, maximize_common_bandwidth=common), cov)
    # demands of many subscribers, demands that no site can serve, no polarities
    types = (POP, DN, DN, CN)
    for demands in (
        [((3,), 0.4, 3)],
        [((3,), 0.3, 3), ((1,), 0.2, 4)],
        [((3,), 0.6, 1), ((), 0.5, 1)],
        [((3,), 0.9, 1), ((), 0.1, 1)],
        [((3,), 0.5, 2), ((), 0.1, 3), ((2,), 0.4, 3)],
        [((3,), 0.02, 1), ((1,), 0.03, 1)],
        [((3,), 0.0004, 1)],
    ):
        for pairs in itertools.combinations([(0, 1), (0, 2), (1, 2), (2, 3), (1, 3)], 4):
            for cov, common, ignore in itertools.product((1.0, 0.9, 0.5), (False, True), (False, True)):
                k += 1
                if quick and mix(k) % 3 == 1:
                    continue
                z = mix(k * 61) % 8  # a link without any capacity
                ls = {p: W(c1=CAPS[(q + turn) % 4] * (q != z), c2=1.8 * (q != z), a=q % 2, b=0) for q, p in enumerate(pairs)}
                add(types, ls, demands, dict(maximize_common_bandwidth=common, ignore_polarities=ignore, oversubscription=(1.0, 1.5)[k % 2]), cov)
    return out


def main(r):
    its = [x for turn in range(1 if r.quick else 5) for x in items(r.quick, turn)]
    r.map(one, its, name="min-cost")
    r.map(step, [(a, {k: v for k, v in b.items() if k != "maximize_common_bandwidth"}) for n, (a, b, cv) in enumerate(its) if n % (6 if r.quick else 2) == 0], name="step")
    r.map(one_tie, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (12 if r.quick else 1) == 0], name="min-cost-ties")

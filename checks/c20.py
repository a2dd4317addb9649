"""C20: the coverage step serves as much demand as the budget allows, without the blocked links."""
import itertools

import c19
import tg
from tie import KINDS, tied
from c19 import CAPS, E, EPS, W, mix, prm_of, usable_input
from site_ref import ACTIVE, CAPEX, DEV, INACTIVE, Inst, check_plan
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
from terragraph_planner.optimization.topology_operations import compute_capex, get_adversarial_links


def best_value(ins, prm, blocked, connected):
    """Most demand (or common bandwidth) within the budget; None if no choice of sites
    respects the budget and the given sites and links."""
    best = None
    for s in ins.choices(prm.always_active_pops):
        if sum(ins.cost(i) for i in s) > prm.budget + EPS:
            continue
        for pol in ins.polarities(s, prm.ignore_polarities):
            use = ins.usable(s, pol, blocked)
            v = ins.flow(s, use, prm.pop_capacity, prm.oversubscription, "total" if connected is None else "common", connected)
            best = v if best is None else max(best, v)
    return best


def one(item, c):
    kw, pk, blk = item
    ins, prm = Inst(**kw), prm_of(**pk)
    blocked = {d for p in blk for d in (p, p[::-1]) if d in ins.dlinks}
    msg = f"{pk} blocked={sorted(blocked)} on {ins}"
    if not usable_input(ins):
        return
    m = MaxCoverageNetwork(ins.topo, prm, {(ins.id[i], ins.id[j]) for i, j in blocked})
    connected = None
    if prm.maximize_common_bandwidth:
        did = {d: k for k, d in enumerate(ins.did)}
        connected = frozenset(did[d] for d in m.connected_demand_sites)
        sets = ins.connectable(prm.always_active_pops, blocked, prm.ignore_polarities)
        c.check(not sets or connected in sets, "connected-demands", f"connected {sorted(connected)}, of {[sorted(s) for s in sets]}: {msg}")
    sol = m.solve()
    c.state((sorted(ins.inlinks.items(), key=str), ins.statuses, sorted(blocked), str(pk)))
    c.step(len(ins.inlinks))
    want = best_value(ins, prm, blocked, connected) if prm.budget > 0 else None
    if sol is None:
        c.check(want is None or want < 1e-2, "missed", f"{want} can be served: {msg}")
        c.outcome("none", want is None)
        return
    if want is None:
        c.fail("infeasible", f"a plan although no choice of sites respects the budget: {msg}")
        return
    S, pol, L, f, got = check_plan(c, ins, prm, sol, "plan", blocked, msg)
    c.check(sol.cost <= prm.budget + 1e-6, "budget", f"cost {sol.cost}, sites {sorted(S)}: {msg}")
    value = sum(got) if connected is None else min((got[k] for k in connected), default=0.0)
    c.check(value >= want - 1e-4, "not-most", f"serves {got}, {want} is possible: {msg}")
    c.check(value <= want + 1e-4 or connected is not None, "too-much", f"serves {got}, at most {want} is possible: {msg}")
    if connected is None:
        c.close(sol.objective_value, sum(d for _, d in ins.dem) / prm.oversubscription - want, "objective", msg, tol=1e-5)
    else:
        c.close(sol.objective_value, -want, "objective", msg, tol=1e-5)
    forced = {i for i in range(ins.n) if ins.statuses[i] in ACTIVE}
    for i in S - forced:
        c.check(any(ins.id[i] in k for k in f), "useless-site", f"site {i} carries no flow {f}: {msg}")
    c.outcome(tuple(sorted(S)), tuple(round(x, 2) for x in got))


def steps(item, c):
    """Minimum cost step followed by the coverage step on the same topology."""
    kw, pk = item
    ins, prm = Inst(**kw), prm_of(**pk)
    msg = f"{pk} on {ins}"
    if not usable_input(ins):
        return
    try:
        to._run_min_cost_step(ins.topo, prm)
    except OptimizerException:
        c.outcome("none")
        return
    before = {i for i in range(ins.n) if ins.sites[i].status_type in ACTIVE}
    base = compute_capex(ins.topo, prm).proposed_capex
    adv = get_adversarial_links(ins.topo, prm.backhaul_link_redundancy_ratio)
    snap = ([s.status_type for s in ins.topo.sites.values()], [l.status_type for l in ins.topo.links.values()], [s.status_type for s in ins.topo.sectors.values()])
    want = None
    if base < prm.budget:
        at = lambda i, j: ins.topo.get_link_by_site_ids(ins.id[i], ins.id[j]).status_type
        now = {}
        for (i, j), l in ins.inlinks.items():
            two = {at(*d) for d in ((i, j), (j, i)) if d in ins.dlinks}
            now[i, j] = (l[0], two.pop() if len(two) == 1 else None) + tuple(l[2:])
        if all(l[1] is not None for l in now.values()):
            mid = Inst(**dict(kw, links=now, statuses=tuple(s.status_type for s in ins.sites)))
            want = best_value(mid, prm, {(ins.idx[a], ins.idx[b]) for a, b in adv}, None)
    sol = to._run_max_coverage_step(ins.topo, prm)
    if want is not None and want > 1e-2:
        c.check(sol is not None, "step-skipped", f"{want} can be served within the budget, base costs {base}: {msg}")
        if sol is not None:
            total = sum(d for _, d in ins.dem) / prm.oversubscription
            c.close(total - sum(sol.shortage_decisions.values()), want, "step-not-most", msg, tol=1e-4)
    after = {i for i in range(ins.n) if ins.sites[i].status_type in ACTIVE}
    # nodes added to existing sites are free for the optimizer
    cap = compute_capex(ins.topo, prm).proposed_capex - sum(ins.dev(i).node_capex for i, _ in {(k[0], s.node_id) for k, s in ins.sectors.items() if s.status_type == PROPOSED and ins.statuses[k[0]] == EXISTING})
    c.outcome(tuple(sorted(before)), tuple(sorted(after)), sol is None)
    if base >= prm.budget:
        c.check(sol is None, "step-no-budget", f"base costs {base}: {msg}")
    if sol is None:
        now = ([s.status_type for s in ins.topo.sites.values()], [l.status_type for l in ins.topo.links.values()], [s.status_type for s in ins.topo.sectors.values()])
        c.eq(now, snap, "step-changed", f"no solution: {msg}")
        return
    c.check(cap <= prm.budget + 1e-6, "step-budget", f"costs {cap}: {msg}")
    for i in before - after:
        c.check(any(ins.places[j] == ins.places[i] and j in after for j in range(ins.n)), "step-lost-site", f"site {i} is lost, {sorted(before)} -> {sorted(after)}: {msg}")
    for (a, b), v in sol.flow_decisions.items():
        c.check((a, b) not in adv or v < 1e-6, "step-adversarial", f"flow {v} on {a}->{b}: {msg}")


def items(quick, turn=0):
    out = []

    def add(types, links, demands, pk, blk=(), **kw):
        out.append((dict(types=types, links=links, demands=demands, **kw), pk, blk))

    k = turn * 7919
    costs = (400.0, 700.0, 1000.0, 1400.0, 1800.0, 9000.0)
    for types in ((POP, DN, DN, CN), (POP, POP, DN, CN), (POP, DN, CN, CN)):
        for ls in c19.link_sets(types, ("w",), None, turn):
            for b in range(2):
                k += 1
                h = mix(k)
                if quick and mix(k * 61) % 2 == 1:
                    continue
                pairs = sorted(ls)
                blk = [p for x, p in enumerate(pairs) if h >> (4 + x) & 3 == 0] if b else []
                add(types, ls, [((3,), 1.1, 1), ((2,), 0.6, 1 + h // 256 % 2)], dict(budget=costs[h // 16 % 6], always_active_pops=bool(h % 5), maximize_common_bandwidth=h // 4096 % 3 == 0), tuple(blk))
    types = (POP, DN, DN, DN, CN)
    pairs = [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2), (3, 4), (2, 4), (1, 4)]
    for ls in c19.link_sets(types, ("w",), pairs, turn):
        k += 1
        h = mix(k)
        if quick and mix(k * 61) % 2:
            continue
        blk = [p for x, p in enumerate(sorted(ls)) if h >> (4 + x) & 3 == 0]
        add(types, ls, [((4,), 1.0, 1), ((3,), 0.4, 1)], dict(budget=costs[h // 64 % 6], maximize_common_bandwidth=h // 512 % 3 == 0), tuple(blk), skus=(0, h % 2, 0, h // 2 % 2, 0))
    # statuses
    types = (POP, DN, DN, CN, POP)
    for st in itertools.product((CANDIDATE, PROPOSED, EXISTING, UNAVAILABLE), repeat=5):
        k += 1
        h = mix(k)
        if quick and mix(k * 61) % 2:
            continue
        ls = {}
        for q, p in enumerate([(0, 1), (1, 2), (2, 3), (1, 3), (4, 2), (0, 2)]):
            a, b = st[p[0]], st[p[1]]
            x = UNAVAILABLE if UNAVAILABLE in (a, b) else CANDIDATE if CANDIDATE in (a, b) else EXISTING if a == b == EXISTING and h >> q & 1 else PROPOSED if (h >> q) % 3 == 0 else CANDIDATE
            ls[p] = W(x, CAPS[(q + turn) % 4], CAPS[(q + 1) % 4], q % 2, (q // 2) % 2 if p[1] != 3 else 0)
        add(types, ls, [((3,), 0.9, 1), ((2,), 0.3, 1), ((1, 0), 0.5, 1)], dict(budget=costs[h // 64 % 6] + 500.0, always_active_pops=bool(h // 8 % 2), maximize_common_bandwidth=h // 512 % 4 == 0), tuple(p for x, p in enumerate(ls) if h >> (4 + x) & 7 == 0), statuses=st)
    # budgets around the exact cost of every choice of sites
    types = (POP, DN, DN, CN, CN)
    for cost, off, sec, pc in itertools.product(range(12), (-1.0, 0.0, 1.0), range(4), (1.0, 3.0)):
        for over, m, common, wired in ((1.0, 1, False, False), (1.6, 2, True, False), (1.0, 1, False, True)):
            k += 1
            h = mix(k)
            if quick and mix(k * 61) % 2:
                continue
            ls = {(0, 1): W(c1=1.6, a=0), (0, 2): W(c1=1.1, a=sec % 2), (1, 2): E() if wired else W(c1=1.2, a=1, b=1), (1, 3): W(c1=1.3, a=sec // 2), (2, 3): W(c1=0.5, a=0), (2, 4): W(c1=1.5, a=sec % 2), (1, 4): W(c1=0.4, a=sec // 2)}
            kw = dict(types=types, links=ls, demands=[((3,), 0.7, m), ((4,), 0.9, 1), ((1,), 0.2, 1)])
            ins = Inst(**kw)
            prices = sorted({sum(ins.cost(i) for i in s) for s in ins.choices(True)})
            out.append((kw, dict(budget=max(0.0, prices[cost * 7 % len(prices)] + off), pop_capacity=pc, oversubscription=over, maximize_common_bandwidth=common), ((1, 3),) if h // 32 % 3 == 0 else ()))
    # co-located
    for types, places in (((POP, DN, DN, CN, CN), (0, 1, 1, 2, 2)), ((POP, DN, CN, DN, CN), (0, 1, 1, 2, 2)), ((POP, POP, DN, CN, DN), (0, 1, 1, 2, 2)), ((POP, POP, POP, DN, CN), (0, 0, 1, 1, 2))):
        skus = tuple(int(p in places[:i] and types[i] == types[places.index(p)]) for i, p in enumerate(places))
        pairs = [p for p in itertools.combinations(range(5), 2) if places[p[0]] != places[p[1]] and not (types[p[0]] == types[p[1]] == CN)]
        for st in itertools.product((CANDIDATE, EXISTING, UNAVAILABLE), repeat=5):
            if any(st[i] == st[j] == EXISTING for i, j in itertools.combinations(range(5), 2) if places[i] == places[j]):
                continue
            k += 1
            h = mix(k)
            if quick and mix(k * 61) % 4:
                continue
            ls = {}
            for q, p in enumerate(pairs):
                i, j = p if types[p[0]] != CN else p[::-1]
                ls[i, j] = W(UNAVAILABLE if UNAVAILABLE in (st[i], st[j]) else CANDIDATE, CAPS[q % 4], CAPS[q % 3], q % 2, 0 if types[j] == CN else (q // 2) % 2)
            last = tuple(i for i in range(5) if places[i] == 2)
            add(types, ls, [(last, 1.0, 1), ((1,), 0.4, 1)], dict(budget=costs[h // 64 % 6], always_active_pops=bool(h // 16 % 3), maximize_common_bandwidth=h // 512 % 4 == 0), (), statuses=st, places=places, skus=skus)
    # networks that exist in part, with budgets below and above the cost of the rest
    types = (POP, DN, DN, CN, CN)
    for st in itertools.product((CANDIDATE, EXISTING), repeat=4):
        for budget, ratio in itertools.product((10.0, 100.0, 300.0, 450.0, 520.0, 900.0, 1500.0), range(2)):
            k += 1
            h = mix(k)
            s5 = (EXISTING,) + st
            ls = {}
            for q, p in enumerate([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (2, 4), (1, 4)]):
                x = EXISTING if s5[p[0]] == s5[p[1]] == EXISTING and q != 2 and (p[1] < 3 or h >> q & 1) else CANDIDATE
                ls[p] = W(x, CAPS[(q + ratio) % 4], CAPS[q % 4], q % 2, q // 2 % 2 if p[1] < 3 else 0)
            add(types, ls, [((3,), 0.8, 1), ((4,), 0.9, 1 + ratio * 2)], dict(budget=budget, always_active_pops=bool(h & 1)), (), statuses=s5)
    return out


one_tie = tied(one, "one_tie")


def main(r):
    its = [x for turn in range(1 if r.quick else 5) for x in items(r.quick, turn)]
    r.map(one, its, name="coverage")
    n = 4 if r.quick else 2
    r.map(steps, [(a, dict({k: v for k, v in b.items() if k != "maximize_common_bandwidth"}, backhaul_link_redundancy_ratio=(0.2, 0.6, 1.0)[q % 3])) for q, (a, b, _) in enumerate(its) if mix(q) % n == 0 or EXISTING in a.get("statuses", ())], name="steps")
    keep = lambda q, n, m: (mix(q * 61) + n) % m == 0
    r.map(one_tie, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if keep(q, n, 10 if r.quick else 1)], name="coverage-ties")

"""C24: extra POPs are proposed at the DNs that cover the most demand, as full copies of these DNs."""
import copy
import itertools

from tie import KINDS, tied
from c19 import CAPS, E, W, best_cost, mix, prm_of, usable_input
from site_ref import ACTIVE, INACTIVE, Inst, check_plan
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork
from terragraph_planner.optimization.topology_operations import mark_unreachable_components

EPS = 1e-5


def can_be_pop(ins):
    """DNs that may become a POP: there is neither a POP nor a DN in use at their place."""
    pops = {ins.places[i] for i in range(ins.n) if ins.types[i] == POP or ins.types[i] == DN and ins.statuses[i] in ACTIVE}
    return [i for i in range(ins.n) if ins.types[i] == DN and ins.statuses[i] == CANDIDATE and ins.places[i] not in pops]


def access(ins):
    """The network in which these DNs are POPs and only links to CNs are left."""
    a = copy.copy(ins)
    new = can_be_pop(ins)
    a.types = tuple(POP if i in new else t for i, t in enumerate(ins.types))
    a.statuses = tuple(PROPOSED if ins.types[i] == POP and s == CANDIDATE else s for i, s in enumerate(ins.statuses))
    a.dlinks = {k: l for k, l in ins.dlinks.items() if a.types[k[1]] == CN}
    return a


def coverages(ins, prm, extra):
    """{POP sites: demand that they and the CNs next to them serve} for all allowed choices,
    and the most with the given and all extra POPs."""
    a = access(ins)
    given = {ins.places[i] for i in range(ins.n) if ins.types[i] == POP and ins.statuses[i] not in INACTIVE}
    out, most = {}, 0.0
    number = min(extra + len(given), len(given | {ins.places[i] for i in can_be_pop(ins)}))
    for S in a.choices(False):
        pops = frozenset(i for i in S if a.types[i] == POP)
        if len(pops) > extra + len(given):
            continue
        v = a.flow(S, a.usable(S, {}), prm.pop_capacity, prm.oversubscription, "total")
        out[pops] = max(v, out.get(pops, 0.0))
        if len(pops) == number:
            most = max(most, v)
    return a, out, most


def solver(item, c):
    kw, pk, extra = item
    ins, prm = Inst(**kw), prm_of(number_of_extra_pops=extra, **pk)
    msg = f"{extra} extra {pk} on {ins}"
    a, ref, best = coverages(ins, prm, extra)
    c.state(str((ins, extra, str(pk))))
    c.step(len(ref))
    try:
        net = POPProposalNetwork(ins.topo, prm)
    except OptimizerException:
        c.outcome("refused")
        c.check(best <= EPS, "refused", f"serves {best}: {msg}")
        return
    sol = net.propose_pops()
    c.eq((prm.always_active_pops, prm.maximize_common_bandwidth), (pk.get("always_active_pops", True), pk.get("maximize_common_bandwidth", False)), "params", msg)
    if sol is None:
        c.outcome("none")
        c.check(best <= EPS, "missed", f"POPs {sorted(max(ref, key=ref.get))} serve {best}: {msg}")
        return
    p2 = copy.copy(prm)
    p2.always_active_pops, p2.ignore_polarities = False, True
    S, _, L, f, got = check_plan(c, a, p2, sol, "solver", (), msg)
    c.close(sum(got), best, "solver-best", f"POPs {[i for i in S if a.types[i] == POP]} serve {got}: {msg}", tol=1e-4)
    new = [i for i in S if a.types[i] == POP and ins.types[i] != POP]
    given = len({ins.places[i] for i in range(ins.n) if ins.types[i] == POP and ins.statuses[i] not in INACTIVE})
    c.check(len([i for i in S if a.types[i] == POP]) <= extra + given, "solver-number", f"POPs {new}: {msg}")
    c.outcome(tuple(new), round(best, 3))


def snapshot(t):
    return (
        {k: (s.site_type, s.status_type, s.name, s.location, s.device, s.location_type, s.building_id, s.number_of_subscribers) for k, s in t.sites.items()},
        {k: (s.site.site_id, s.node_id, s.position_in_node, s.ant_azimuth, s.status_type, s.channel, s.sector_type) for k, s in t.sectors.items()},
        {k: (l.tx_site.site_id, l.rx_site.site_id, l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id, l.status_type, l.is_wireless, l.confidence_level, l.capacity) for k, l in t.links.items()},
        {k: [s.site_id for s in d.connected_sites] for k, d in t.demand_sites.items()},
    )


def expanded(kw, new):
    """The instance with a candidate POP at each of these DNs."""
    n = len(kw["types"])
    at = {i: n + q for q, i in enumerate(new)}
    places = kw.get("places") or tuple(range(n))
    links = dict(kw["links"])
    for (i, j), l in kw["links"].items():
        if l[1] in INACTIVE:
            continue
        l = (l[0], CANDIDATE) + tuple(l[2:])
        if i in at and kw["types"][j] != POP:
            links[at[i], j] = l
        if j in at and kw["types"][i] != POP:
            links[i, at[j]] = l
    return dict(
        kw,
        types=kw["types"] + (POP,) * len(new),
        links=links,
        demands=[(tuple(c) + tuple(at[i] for i in c if i in at), d, m) for c, d, m in kw["demands"]],
        statuses=(kw.get("statuses") or (CANDIDATE,) * n) + (CANDIDATE,) * len(new),
        places=tuple(places) + tuple(places[i] for i in new),
        skus=(kw.get("skus") or (0,) * n) + tuple((kw.get("skus") or (0,) * n)[i] for i in new),
    )


def step(item, c):
    kw, pk, extra = item
    ins, prm = Inst(**kw), prm_of(number_of_extra_pops=extra, **pk)
    msg = f"{extra} extra {pk} on {ins}"
    for k, s in enumerate(ins.sites):
        if (k + extra) % 3:  # on a building
            s._location_type, s._building_id = LocationType.ROOFTOP, 10 + k
    for k, s in enumerate(ins.sectors.values()):
        s.ant_azimuth = 15.0 + 40 * k
    for k, l in enumerate(ins.topo.links.values()):
        l.confidence_level = k / 50
        l.link_budget.snr_dbm, l.link_budget.mcs_level = 3.0 + k, k % 12
    old = snapshot(ins.topo)
    _, ref, best = coverages(ins, prm, extra)
    c.state(str((ins, extra, str(pk))))
    if not any(ins.types[i] == POP for i in range(ins.n)) and extra == 0:
        c.raises(lambda: to._run_propose_extra_pops_step(ins.topo, prm), OptimizerException, "step-no-pop", msg)
        return
    try:
        sol = to._run_propose_extra_pops_step(ins.topo, prm)
    except OptimizerException as e:
        c.check(best <= EPS, "step-refused", f"{e}, although {best} can be served: {msg}")
        c.outcome("refused")
        return
    now = snapshot(ins.topo)
    for k in range(3):
        c.eq({x: v for x, v in now[k].items() if x in old[k]}, old[k], "step-given", f"part {k}: {msg}")
    fresh = [s for x, s in ins.topo.sites.items() if x not in old[0]]
    new, taken = {}, set()
    ok = can_be_pop(ins)
    for s in fresh:
        i = next((i for i in ok if i not in taken and ins.sites[i].location == s.location and s.device is ins.sites[i].device), None)
        if i is None:
            c.fail("step-place", f"a POP at {s.location}: {msg}")
            return
        taken.add(i)
        new[i] = s
        d = ins.sites[i]
        c.eq((s.site_type, s.status_type, s.location_type, s.building_id, s.number_of_subscribers), (POP, CANDIDATE, d.location_type, d.building_id, 0), "step-site", f"POP at {i}: {msg}")
        c.check(s.name not in [x.name for x in ins.topo.sites.values() if x is not s], "step-name", f"{s.name}: {msg}")
    at = sorted(new)
    c.check(len(at) <= extra and len({ins.places[i] for i in at}) == len(at), "step-number", f"POPs at {at}: {msg}")
    given = frozenset(i for i in range(ins.n) if ins.types[i] == POP and ins.statuses[i] not in INACTIVE)
    have = max([v for p, v in ref.items() if p <= given | set(at)], default=0.0)
    c.check(not extra or have >= best - 1e-4, "step-best", f"POPs at {at} serve {have}, best {best} with {[sorted(p) for p, v in ref.items() if v > best - EPS]}: {msg}")
    # copies
    name = {s.site_id: i for i, s in new.items()}
    secs, want = {}, {}
    for x, v in old[1].items():
        i = ins.idx[v[0]]
        if i in new:
            secs[x] = f"{new[i].site_id}-{v[1]}-{v[2]}"
            want[secs[x]] = (new[i].site_id,) + v[1:4] + (CANDIDATE,) + v[5:]
    got = {f"{v[0]}-{v[1]}-{v[2]}": v for x, v in now[1].items() if x not in old[1]}
    c.eq(got, want, "step-sectors", msg)
    want = []
    for x, v in old[2].items():
        i, j = ins.idx[v[0]], ins.idx[v[1]]
        b = ins.topo.links[x].link_budget
        if v[4] in INACTIVE:
            continue
        for a, other, t in ((i, j, True), (j, i, False)):
            if a in new and ins.types[other] != POP:
                m = lambda s, k: None if s is None else secs[s] if k == a else "-".join(s.split("-")[:3])
                want.append((new[a].site_id if t else v[0], v[1] if t else new[a].site_id, m(v[2], i), m(v[3], j), CANDIDATE, *v[5:], b.snr_dbm, b.mcs_level))
    got = []
    for x, v in now[2].items():
        if x not in old[2]:
            b = ins.topo.links[x].link_budget
            m = lambda s: s and "-".join(s.split("-")[:3])
            got.append((v[0], v[1], m(v[2]), m(v[3]), *v[4:], b.snr_dbm, b.mcs_level))
    c.eq(sorted(got, key=str), sorted(want, key=str), "step-links", msg)
    budgets = [id(l.link_budget) for l in ins.topo.links.values()]
    c.eq(len(set(budgets)), len(budgets), "step-shared-budget", msg)
    for x, con in old[3].items():
        c.eq(sorted(now[3][x]), sorted(con + [new[ins.idx[y]].site_id for y in con if ins.idx[y] in new]), "step-demand", f"demand {x}: {msg}")
    # the plan uses the copies as it uses any POP
    c.outcome(tuple(at), round(best, 3))
    big = Inst(**expanded(kw, at))
    if not usable_input(big) or prm.maximize_common_bandwidth:
        return
    mark_unreachable_components(ins.topo, maximum_hops=None)
    for cov in (1.0, 0.6):
        cost = best_cost(big, prm, cov)
        plan = MinCostNetwork(ins.topo, prm).solve(cov)
        if plan is None:
            c.check(cost is None, "plan-missed", f"{cov} of the demand costs {cost}: {msg}")
        else:
            c.close(plan.objective_value, cost if cost is not None else -1.0, "plan-cost", f"coverage {cov}: {msg}", tol=1e-5)
        c.outcome(cov, cost)


# ---- spaces -----------------------------------------------------------------

SHAPES = [
    # types, pairs, places
    ((POP, DN, DN, CN, CN), [(0, 1), (1, 2), (1, 3), (2, 3), (2, 4), (0, 4), (1, 4)], None),
    ((DN, DN, DN, CN, CN), [(0, 1), (1, 2), (0, 3), (1, 3), (1, 4), (2, 4), (0, 4)], None),
    ((POP, DN, DN, DN, CN, CN), [(0, 1), (2, 3), (1, 4), (2, 4), (3, 4), (3, 5), (2, 5), (1, 5)], None),
    # a DN at a POP, two DNs at one place, a CN at a DN
    ((POP, DN, DN, DN, CN, CN), [(0, 2), (1, 4), (1, 3), (2, 4), (2, 5), (3, 5), (3, 4), (0, 5)], (0, 0, 1, 2, 3, 4)),
    ((DN, DN, DN, CN, CN), [(0, 3), (1, 4), (0, 4), (1, 3), (2, 3), (2, 4), (0, 2), (1, 2)], (0, 0, 1, 2, 3)),
    ((POP, DN, DN, CN, CN), [(0, 1), (1, 3), (1, 2), (2, 4), (0, 2), (1, 4), (0, 3)], (0, 1, 2, 2, 3)),
    ((POP, POP, DN, DN, CN), [(0, 2), (1, 3), (0, 4), (2, 4), (3, 4), (2, 3)], (0, 0, 1, 2, 3)),
]


def items(quick, which):
    out = []
    k = which
    for n, (types, pairs, places) in enumerate(SHAPES):
        spots = places or tuple(range(len(types)))
        skus = tuple(int(types[i] != CN and any(spots[i] == spots[j] and DN in (types[i], types[j]) for j in range(i)) or types[i] == DN and mix(i + n) % 3 == 0 and places is None) for i in range(len(types)))
        if n == 6:
            skus = (0, 1, 0, 0, 0)
        for on in range(1, 1 << len(pairs)):
            for extra in (1, 2, 3) if quick else (0, 1, 2, 3):
                k += 1
                if quick and mix(k * 3 + which) % (4 if which else 3):
                    continue
                h = mix(k)
                st = [CANDIDATE] * len(types)
                if h % 4 == 0:
                    st[h // 4 % len(types)] = (UNAVAILABLE, EXISTING, PROPOSED)[h // 32 % 3]
                elif h % 4 == 1 and POP in types:
                    st[0] = PROPOSED
                    d = [i for i in range(len(types)) if types[i] == DN][0]
                    if h // 4 % 2 and spots[d] not in [spots[i] for i in range(len(types)) if types[i] == POP]:
                        st[d] = EXISTING
                if n == 5 and h // 8 % 4 == 0:
                    st[3] = EXISTING
                for i in range(len(types)):  # no place with an active CN only next to an unavailable DN
                    if any(spots[i] == spots[j] and j != i for j in range(len(types))) and st[i] == UNAVAILABLE:
                        st[i] = CANDIDATE
                ls = {}
                for q, (i, j) in enumerate(pairs):
                    if not on >> q & 1:
                        continue
                    r = mix(k * 7 + q) % 12
                    s = UNAVAILABLE if UNAVAILABLE in (st[i], st[j]) else PROPOSED if r == 3 and st[i] in ACTIVE and st[j] in ACTIVE else UNAVAILABLE if r == 4 else CANDIDATE
                    w = W(s, CAPS[q % 4], CAPS[(q + 1) % 4], q % 2 if types[i] != CN else 0, (q // 2) % 2 if types[j] != CN else 0)
                    ls[i, j] = w[:2] + (0.0, 0.0) + w[4:] if r == 1 and s == CANDIDATE else E(s) if r in (2, 5) and CN not in (types[i], types[j]) else w
                cns = [i for i in range(len(types)) if types[i] == CN]
                dems = [(tuple(j for j in range(len(types)) if spots[j] == spots[i] and types[j] == DN) + (i,), (0.4, 0.9, 1.7)[mix(k + i) % 3], 1 + (mix(k + i) // 8 % 5 == 0)) for i in cns]
                if h // 64 % 4 == 0:
                    d = [i for i in range(len(types)) if types[i] == DN][-1]
                    dems.append(((d,), 0.5, 1))
                pk = dict(always_active_pops=bool(h // 16 % 2), pop_capacity=(3.0, 1.0, 1.3)[mix(k * 5) % 3])
                if h // 128 % 5 == 0:
                    pk["oversubscription"] = 2.0
                if h // 128 % 5 == 1:
                    pk["maximize_common_bandwidth"] = True
                out.append((dict(types=types, links={(b, a) if types[a] == CN else (a, b): l for (a, b), l in ls.items()}, demands=dems, statuses=tuple(st), places=places, skus=skus, reverse=bool(k % 3 == 0)), pk, extra))
    return out


solver_tie = tied(solver, "solver_tie")
step_tie = tied(step, "step_tie")


def main(r):
    r.map(solver, [x for x in items(r.quick, 0) if x[2]], name="proposal")
    r.map(step, items(r.quick, 1), name="step")
    for fn, its, name in ((solver_tie, [x for x in items(r.quick, 0) if x[2]], "proposal-ties"), (step_tie, items(r.quick, 1), "step-ties")):
        r.map(fn, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (10 if r.quick else 1) == 0], name=name)

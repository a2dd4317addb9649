"""C22: the redundancy step adds the cheapest DNs that give the DNs the disjoint paths the network can offer."""
import itertools

import site_ref
import tg
from tie import KINDS, tied
from c19 import CAPS, E, W, mix, prm_of, usable_input
from site_ref import ACTIVE, CAPEX, DEV, INACTIVE, Inst
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE, UNREACHABLE
from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork, compute_candidate_edges_for_redundancy
from terragraph_planner.optimization.constants import SUPERSOURCE
from terragraph_planner.optimization.structs import RedundancyParams

ROOT, BIG = "root", 99


def paths(n, types, use, target, start, caps):
    """Most disjoint paths to the target: unit links, caps[i] paths through site i,
    start[i] from the root to site i."""
    res = {}

    def edge(a, b, c):
        if c:
            res.setdefault(a, {})[b] = res.get(a, {}).get(b, 0) + c
            res.setdefault(b, {}).setdefault(a, 0)

    for i in range(n):
        edge((i, 0), (i, 1), caps[i])
    for i, c in start.items():
        edge(ROOT, (i, 0), c)
    for i, j in use:
        edge((i, 1), (j, 0), 1)
    total = 0
    goal = (target, 0)
    while True:
        prev, queue = {ROOT: None}, [ROOT]
        for a in queue:
            for b, c in res.get(a, {}).items():
                if c > 0 and b not in prev:
                    prev[b] = a
                    queue.append(b)
            if goal in prev:
                break
        if goal not in prev:
            return total
        b = goal
        while prev[b] is not None:
            a = prev[b]
            res[a][b] -= 1
            res[b][a] += 1
            b = a
        total += 1


def shortage(ins, S, use, dns, p, d, k):
    """Missing paths of every DN."""
    pops = [i for i in S if ins.types[i] == POP]
    back = [e for e in use if ins.types[e[0]] != CN and ins.types[e[1]] != CN]
    out = {}
    for t in dns:
        caps = {i: 0 if i not in S else p if ins.types[i] == POP else d for i in range(ins.n)}
        caps[t] = 0
        out[t] = k - min(k, paths(ins.n, ins.types, back, t, {i: p for i in pops}, caps))
    return out


def plans(ins):
    """Every set of backhaul sites the step may choose."""
    base = frozenset(i for i in range(ins.n) if ins.statuses[i] in ACTIVE and ins.types[i] != CN)
    opts = []
    for g in ins.groups():
        g = [i for i in g if ins.types[i] != CN]
        act = [i for i in g if i in base]
        opts.append([()] + [(i,) for i in g if ins.types[i] == DN and ins.statuses[i] == CANDIDATE] if not act else [tuple(act)])
    for ch in itertools.product(*opts):
        yield frozenset(i for x in ch for i in x)


def best(ins, prm, lim, restricted=None):
    """All (cost, missing paths by DN) of the plans."""
    p, d, k = lim
    dns = [i for i in range(ins.n) if ins.types[i] == DN and ins.statuses[i] in ACTIVE]
    out = []
    for S in plans(ins):
        seen = set()
        for pol in ins.polarities(S, prm.ignore_polarities):
            use = frozenset(e for e in ins.usable(S, pol) if restricted is None or e in restricted)
            if use in seen:
                continue
            seen.add(use)
            out.append((sum(ins.cost(i) for i in S), shortage(ins, S, use, dns, p, d, k)))
    return dns, out


def survives(ins, S, use, t, lost):
    """Whether DN t still reaches a POP without the lost sites or links."""
    S = S - lost
    if t not in S:
        return True
    return t in ins.reach(S, [e for e in use if e[0] in S and e[1] in S and e not in lost])


def failures(c, ins, S, use, missing, lim, pre, msg):
    """DNs with enough paths survive the failures that the level stands for."""
    p, d, k = lim
    use = [e for e in use if ins.types[e[0]] != CN and ins.types[e[1]] != CN]
    pops = [i for i in S if ins.types[i] == POP]
    dnset = [i for i in S if ins.types[i] == DN]
    for t, m in missing.items():
        have = int(k - m + 1e-6)
        if d > 1:  # paths without common links
            if have < 2:
                continue
            sets = [frozenset({e, e[::-1]}) for e in use]
        else:
            r = have - 1
            sets = [frozenset(x) for q in range(r + 1) for x in itertools.combinations([i for i in dnset if i != t], q)]
            if r >= p:
                sets += [frozenset(x) | {w} for w in pops for q in range(r - p + 1) for x in itertools.combinations([i for i in dnset if i != t], q)]
        if have >= 1:
            for lost in sets:
                c.check(survives(ins, S, use, t, lost), f"{pre}-failure", f"DN {t} has {have} paths but is cut off by {sorted(lost)}: {msg}")
                c.outcome("failures", len(lost))


def one(item, c):
    kw, pk, lim, restrict = item
    ins, prm = Inst(**kw), prm_of(redundancy_rel_stop=-1, **pk)
    msg = f"paths {lim} {pk} restricted {restrict} on {ins}"
    if not usable_input(ins):
        return
    ids = None if restrict is None else {(ins.id[i], ins.id[j]) for i, j in restrict}
    red = RedundantNetwork(ins.topo, prm, RedundancyParams(*lim), ids)
    sol = red.solve()
    c.state((str(ins), lim, str(pk), str(restrict)))
    dns, ref = best(ins, prm, lim, restrict)
    linked = {i for e in ins.dlinks for i in e if ins.dlinks[e][2] > 0 and all(ins.types[x] != CN for x in e) and (restrict is None or e in restrict)}
    if sol is None:
        c.check(not ref or not dns, "missed", msg)
        c.outcome("none")
        return
    if not ref:
        c.fail("infeasible", msg)
        return
    judge(c, ins, prm, sol, lim, dns, ref, linked, "one", msg)


def judge(c, ins, prm, sol, lim, dns, ref, linked, pre, msg):
    p, d, k = lim
    got = {ins.idx[x]: v for x, v in sol.shortage_decisions.items()}
    got = {t: got.get(t, k) for t in dns}  # DNs without any link are left out
    total = min(sum(m.values()) for _, m in ref)
    c.close(sum(got.values()), total, f"{pre}-paths", f"missing {got}: {msg}", tol=1e-5)
    fit = [cost for cost, m in ref if all(m[t] <= got[t] + 1e-5 for t in dns)]
    if not fit:
        c.fail(f"{pre}-paths", f"missing {got} is impossible: {msg}")
        return
    S = {i for i in range(ins.n) if sol.site_decisions[ins.id[i]] == 1}
    back = {i for i in S if ins.types[i] != CN}
    c.close(sum(ins.cost(i) for i in back), min(fit), f"{pre}-cheapest", f"sites {sorted(S)} missing {got}: {msg}", tol=1e-6)
    check_solution(c, ins, prm, sol, lim, got, S, back, pre, msg)
    c.outcome(sum(got.values()), len(back))


def check_solution(c, ins, prm, sol, lim, got, S, back, pre, msg):
    p, d, k = lim
    base = {i for i in range(ins.n) if ins.statuses[i] in ACTIVE}
    for i in range(ins.n):
        if ins.types[i] == CN:
            mates = [j for g in ins.groups() if i in g for j in g if ins.types[j] != CN and j in S]
            c.eq(i in S, i in base and not mates, f"{pre}-cn", f"CN {i}, selected {sorted(S)}: {msg}")
        elif i in base:
            c.check(i in S, f"{pre}-dropped", f"site {i} is dropped: {msg}")
        elif i in S:
            c.check(ins.types[i] == DN and ins.statuses[i] == CANDIDATE, f"{pre}-added", f"site {i} is added: {msg}")
    for g in ins.groups():
        c.check(sum(i in back for i in g) <= 1, f"{pre}-colocated", f"sites {sorted(S)}: {msg}")
    pol = {}
    if not prm.ignore_polarities:
        for i in range(ins.n):
            o, e = sol.odd_site_decisions.get(ins.id[i], 0), sol.even_site_decisions.get(ins.id[i], 0)
            c.eq(o + e, int(i in back), f"{pre}-polarity", f"site {i} odd {o} even {e}: {msg}")
            if o + e:
                pol[i] = o
    L = {(ins.idx[a], ins.idx[b]) for (a, b), v in sol.link_decisions.items() if v == 1 and a in ins.idx and b in ins.idx}
    use = ins.usable(S, pol)
    c.eq(sorted(L), sorted(use), f"{pre}-links", f"sites {sorted(S)} polarity {pol}: {msg}")
    for key, s in ins.sectors.items():
        c.eq(sol.sector_decisions[s.site.site_id, s.sector_id], int(key[0] in S), f"{pre}-sectors", f"sector {key}: {msg}")
    cost = sum(ins.cost(i) for i in S)
    c.close(sol.cost, cost, f"{pre}-cost", msg, tol=1e-6)
    flow = {}
    for (a, b, t), v in sol.flow_decisions.items():
        if v > 1e-5:
            flow.setdefault(ins.idx[t], []).append((a, b, v))
    for t, fl in flow.items():
        bal = {}
        for a, b, v in fl:
            bal.setdefault(a, [0, 0])[1] += v
            bal.setdefault(b, [0, 0])[0] += v
            if a == SUPERSOURCE:
                c.check(ins.types[ins.idx[b]] == POP and ins.idx[b] in S, f"{pre}-flow", f"{a}->{b}: {msg}")
            else:
                c.check((ins.idx[a], ins.idx[b]) in use and v <= 1 + 1e-5, f"{pre}-flow", f"{v} on {ins.idx[a]}->{ins.idx[b]}: {msg}")
        for x, (fin, fout) in bal.items():
            if x == SUPERSOURCE:
                continue
            i = ins.idx[x]
            c.check(fin <= (k if i == t else p if ins.types[i] == POP else d) + 1e-5, f"{pre}-flow", f"site {i} takes {fin}: {msg}")
            c.check(fin - fout >= (k - got[t] if i == t else 0) - 1e-5, f"{pre}-flow", f"site {i} keeps {fin - fout} for DN {t} missing {got[t]}: {msg}")
    failures(c, ins, back, use, got, lim, pre, msg)


def heuristic(item, c):
    """The candidate links keep the paths from every POP and between the DNs."""
    kw = item
    ins = Inst(**kw)
    msg = f"on {ins}"
    c.state(str(ins))
    edges = {(ins.idx[a], ins.idx[b]) for a, b in compute_candidate_edges_for_redundancy(ins.topo, 4.0, 2.0)}
    live = {i for i in range(ins.n) if ins.types[i] != CN and (ins.statuses[i] in ACTIVE or ins.types[i] == DN and ins.statuses[i] == CANDIDATE)}
    full = {e for e, l in ins.dlinks.items() if l[2] > 0 and l[1] not in INACTIVE and e[0] in live and e[1] in live}
    c.check(edges <= {e for e, l in ins.dlinks.items() if l[2] > 0 and l[1] not in INACTIVE and all(ins.types[x] != CN and ins.statuses[x] not in INACTIVE for x in e)}, "heuristic-links", f"{sorted(edges)}: {msg}")
    dns = [i for i in live if ins.types[i] == DN and ins.statuses[i] in ACTIVE]
    caps = {i: 0 if i not in live else 4 if ins.types[i] == POP else 1 for i in range(ins.n)}
    for t in dns:
        for w in (i for i in live if ins.types[i] == POP):
            a, b = (paths(ins.n, ins.types, u, t, {w: 4}, {**caps, t: 0}) for u in (full, edges & full))
            c.eq(b, a, "heuristic-pop", f"paths from POP {w} to DN {t} over {sorted(edges)}: {msg}")
    order = sorted(dns)
    for s, t in itertools.permutations(dns, 2):
        if kw.get("line") and abs(order.index(s) - order.index(t)) > 2:
            continue  # only DNs close to each other are compared
        a, b = (paths(ins.n, ins.types, u, t, {s: 2}, {**caps, s: 2, t: 0}) for u in (full, edges & full))
        c.eq(b, a, "heuristic-dns", f"paths from DN {s} to DN {t} over {sorted(edges)}: {msg}")
        c.outcome(a)


LIMITS = {
    (RedundancyLevel.LOW, False): (2, 2, 2),
    (RedundancyLevel.LOW, True): (2, 2, 2),
    (RedundancyLevel.MEDIUM, False): (2, 1, 2),
    (RedundancyLevel.MEDIUM, True): (1, 1, 2),
    (RedundancyLevel.HIGH, False): (3, 1, 3),
    (RedundancyLevel.HIGH, True): (2, 1, 4),
}


def refresh(ins):
    """The instance with the statuses that the topology has now."""
    ins.statuses = tuple(s.status_type for s in ins.sites)
    for k, l in list(ins.dlinks.items()):
        ins.dlinks[k] = (l[0], ins.topo.get_link_by_site_ids(ins.id[k[0]], ins.id[k[1]]).status_type) + l[2:]


def step(item, c):
    """The step as the planner runs it, on the plan of the minimum-cost step."""
    kw, pk, level = item
    ins, prm = Inst(**kw), prm_of(redundancy_rel_stop=-1, redundancy_level=level, **pk)
    msg = f"{level.name} {pk} on {ins}"
    if not usable_input(ins):
        return
    try:
        to._run_min_cost_step(ins.topo, prm)
    except OptimizerException:
        c.outcome("no plan")
        return
    old = ins.statuses
    refresh(ins)
    pops = sum(t == POP and s in ACTIVE for t, s in zip(ins.types, ins.statuses))
    lim = LIMITS.get((level, pops > 1))
    dns, ref = best(ins, prm, lim) if lim else ([], [])
    before, links = ins.statuses, {k for k, l in ins.dlinks.items() if l[1] in ACTIVE}
    base = {i for i in range(ins.n) if before[i] in ACTIVE}
    msg += f" after the minimum-cost step {[s.name for s in before]}"
    sol = to._run_redundancy_step(ins.topo, prm)
    after = tuple(s.status_type for s in ins.sites)
    c.state((str(ins), level, str(pk)))
    if lim is None or sol is None:
        c.check(lim is None or not ref or not dns, "step-missed", msg)
        c.eq(after, before, "step-changed", msg)
        c.outcome("none", len(dns))
        return
    got = {ins.idx[x]: v for x, v in sol.shortage_decisions.items()}
    got = {t: got.get(t, lim[2]) for t in dns}
    S = {i for i in range(ins.n) if sol.site_decisions[ins.id[i]] == 1}
    back = {i for i in S if ins.types[i] != CN}
    check_solution(c, ins, prm, sol, lim, got, S, back, "step", msg)
    here = shortage(ins, {i for i in base if ins.types[i] != CN}, links, dns, *lim)
    c.check(min(sum(m.values()) for _, m in ref) - 1e-5 <= sum(got.values()) <= sum(here.values()) + 1e-5, "step-paths", f"missing {got}, without new DNs {here}: {msg}")
    refresh(ins)
    on = {i for i in range(ins.n) if after[i] in ACTIVE}
    use = {k for k, l in ins.dlinks.items() if l[1] in ACTIVE}
    for i in range(ins.n):
        if before[i] in ACTIVE and before[i] != after[i]:
            c.check(ins.types[i] == CN and any(j in on for g in ins.groups() if i in g for j in g if j != i), "step-lost", f"site {i} is lost: {msg}")
        elif before[i] not in ACTIVE and after[i] != before[i]:
            c.check(ins.types[i] == DN and before[i] == CANDIDATE and after[i] == PROPOSED, "step-gained", f"site {i}: {msg}")
    failures(c, ins, {i for i in on if ins.types[i] != CN}, use, {t: m for t, m in got.items() if lim[2] - m >= 1 - 1e-6}, lim, "step-plan", msg)
    c.outcome(level, len(on) - len(base), round(sum(here.values()) - sum(got.values()), 3))


# ---- spaces -----------------------------------------------------------------

def link_of(st, types, places, k, q, p, fixed):
    """A link of the base network, or one more candidate."""
    i, j = p
    if UNAVAILABLE in (st[i], st[j]):
        s = UNAVAILABLE
    elif fixed and st[i] in ACTIVE and st[j] in ACTIVE:
        s = EXISTING if st[i] == st[j] == EXISTING and k % 2 else PROPOSED
    else:
        s = CANDIDATE
    return W(s, CAPS[q % 4], CAPS[(q + 1) % 4], q % 2 if types[i] != CN else 0, (q // 2) % 2 if types[j] != CN else 0)


SHAPES = [
    # types, pairs of the base, other pairs, statuses
    ((POP, DN, DN, DN, DN), [(0, 1), (1, 2)], [(0, 3), (3, 2), (0, 4), (4, 2), (1, 3), (3, 4), (0, 2), (1, 4)], (PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE)),
    ((POP, POP, DN, DN, DN), [(0, 2), (2, 3)], [(1, 3), (1, 2), (1, 4), (4, 2), (0, 4), (4, 3), (0, 3), (0, 1)], (PROPOSED, EXISTING, PROPOSED, PROPOSED, CANDIDATE)),
    ((POP, DN, DN, DN, DN, DN), [(0, 1), (0, 2), (2, 3)], [(1, 4), (4, 3), (0, 5), (5, 3), (1, 3), (4, 2), (5, 2), (4, 5)], (PROPOSED, PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE)),
    ((POP, POP, DN, DN, DN, DN), [(0, 2), (1, 3)], [(2, 3), (2, 4), (4, 1), (0, 5), (5, 3), (4, 5), (1, 2), (4, 3)], (PROPOSED, CANDIDATE, PROPOSED, EXISTING, CANDIDATE, CANDIDATE)),
    # enough sites for three and four paths
    ((POP, DN, DN, DN, DN, DN), [(0, 1), (1, 2)], [(0, 3), (3, 2), (0, 4), (4, 2), (0, 5), (5, 2), (0, 2), (3, 1)], (PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE, CANDIDATE)),
    ((POP, POP, DN, DN, DN, DN), [(0, 2), (1, 2)], [(0, 3), (3, 2), (0, 4), (4, 2), (1, 5), (5, 2), (1, 3), (1, 4)], (PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE, CANDIDATE)),
    # co-located: two DNs, a POP and a DN, a CN and a DN
    ((POP, DN, DN, DN, DN, CN), [(0, 1), (1, 2), (2, 5)], [(0, 3), (3, 2), (0, 4), (4, 2), (3, 1), (4, 1), (3, 5)], (PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE, CANDIDATE)),
    # a DN at the place of the POP, and one at the place of a CN in use
    ((POP, DN, DN, DN, DN), [(0, 1), (1, 2)], [(0, 4), (4, 3), (3, 2), (3, 1), (0, 2), (4, 2)], (PROPOSED, PROPOSED, PROPOSED, CANDIDATE, CANDIDATE)),
    ((POP, DN, DN, CN, DN, CN), [(0, 1), (1, 2), (2, 3)], [(0, 4), (4, 2), (4, 1), (0, 2), (2, 5), (4, 5)], (PROPOSED, PROPOSED, PROPOSED, PROPOSED, CANDIDATE, PROPOSED)),
]
PLACES = {6: (0, 1, 2, 3, 3, 4), 7: (0, 1, 2, 0, 3), 8: (0, 1, 2, 3, 3, 4)}
SETS = ((2, 2, 2), (1, 1, 2), (2, 1, 2), (2, 1, 4), (3, 1, 3))


def items(quick):
    out = []
    k = 0
    for n, (types, base, more, st) in enumerate(SHAPES):
        places = PLACES.get(n)
        if n == 6:
            st = st[:5] + (PROPOSED,)
        for kinds in itertools.product((0, 1), repeat=len(more)):
            for shift in range(1 if quick else 3):
                k += 1
                if quick and mix(k) % 2:
                    continue
                ls = {p: link_of(st, types, places, k, q, p, True) for q, p in enumerate(base)}
                for q, (p, on) in enumerate(zip(more, kinds)):
                    if not on:
                        continue
                    l = link_of(st, types, places, k, q, p, mix(k + q) % 4 == 0)
                    r = mix(k * 7 + q) % 12
                    if r == 3:
                        l = (l[0], UNAVAILABLE) + l[2:]
                    ls[p] = l[:2] + (0.0, 0.0) + l[4:] if r == 1 and l[1] == CANDIDATE else E(l[1]) if r == 2 and CN not in (types[p[0]], types[p[1]]) else l
                pops = sum(t == POP and s in ACTIVE for t, s in zip(types, st))
                lim = SETS[mix(k * 5 + shift) % 5]
                skus = tuple(mix(k + i) % 2 if types[i] == DN and (places is None or places.count(places[i]) == 1) else int(n in (6, 8) and i == 4 or n == 7 and i == 3) for i in range(len(types)))
                dems = [((len(types) - 1,), 0.5, 1)]
                out.append((dict(types=types, links={(b, a) if types[a] == CN else (a, b): l for (a, b), l in ls.items()}, demands=dems, statuses=st, places=places, skus=skus, reverse=bool(k % 3 == 0)), dict(), lim, None))
    # statuses of all sites
    types = (POP, DN, DN, DN, POP)
    pairs = [(0, 1), (1, 2), (2, 3), (0, 3), (4, 3), (4, 1), (0, 2)]
    for st in itertools.product((CANDIDATE, PROPOSED, EXISTING, UNAVAILABLE), repeat=5):
        k += 1
        if quick and mix(k) % 2:
            continue
        ls = {p: link_of(st, types, None, k, q, p, q in (0, 1, 4)) for q, p in enumerate(pairs) if mix(k + 3 * q) % 5}
        out.append((dict(types=types, links=ls, demands=[((2,), 0.4, 1)], statuses=st, skus=(0, 0, k % 2, 0, 0)), dict(), SETS[mix(k * 3) % 5], None))
    return out


def heuristic_items(quick):
    out = []
    k = 0
    types = (POP, DN, DN, DN, POP, DN)
    pairs = [(0, 1), (1, 2), (2, 3), (0, 3), (4, 3), (4, 1), (0, 2), (5, 0), (5, 2), (5, 4), (4, 2)]
    for st in itertools.product((CANDIDATE, PROPOSED), (PROPOSED, CANDIDATE), (PROPOSED, EXISTING), (PROPOSED, UNAVAILABLE), (CANDIDATE, PROPOSED), (CANDIDATE, PROPOSED)):
        for on in range(1 << len(pairs)):
            k += 1
            if mix(k) % (32 if quick else 4):
                continue
            ls = {p: link_of(st, types, None, k, q, p, False) for q, p in enumerate(pairs) if on >> q & 1}
            out.append(dict(types=types, links=ls, demands=[((2,), 0.4, 1)], statuses=st, line=mix(k) // 64 % 4 == 0))
    # a site with five neighbours
    types = (POP, DN, DN, DN, DN, POP)
    pairs = list(itertools.combinations(range(6), 2))
    for on in range(1 << 15):
        k += 1
        if mix(k) % (32 if quick else 4):
            continue
        ls = {p: W(CANDIDATE, CAPS[q % 4], 0.0 if mix(k * 3 + q) % 9 == 0 else 1.0, q % 2, q // 2 % 2) for q, p in enumerate(pairs) if on >> q & 1}
        out.append(dict(types=types, links=ls, demands=[((2,), 0.4, 1)], statuses=(PROPOSED, PROPOSED, PROPOSED, CANDIDATE, PROPOSED, (CANDIDATE, PROPOSED)[k % 2])))
    return out


def step_items(quick):
    out = []
    k = 0
    levels = (RedundancyLevel.LOW, RedundancyLevel.MEDIUM, RedundancyLevel.HIGH)
    for n, (types, base, more, st) in enumerate(SHAPES):
        places = PLACES.get(n)
        for kinds in itertools.product((0, 1), repeat=len(more)):
            for lv in range(1 if quick else 3):
                k += 1
                if quick and mix(k) % 2:
                    continue
                pr = base + [p for p, on in zip(more, kinds) if on]
                mode = mix(k * 61) % 8
                sts = [CANDIDATE] * len(types)
                if mode == 0:
                    sts[mix(k * 3) % len(types)] = UNAVAILABLE
                if mode in (1, 2):
                    sts[2] = EXISTING
                if mode == 3:
                    sts[0] = sts[1] = EXISTING
                ls = {p: link_of(sts, types, places, k, q, p, False) for q, p in enumerate(pr)}
                skus = tuple(int(n in (6, 8) and i == 4 or n == 7 and i == 3) for i in range(len(types)))
                t = 5 if types[-1] == CN else 3 if n in (1, 3) else 2
                dems = [((t,), 0.4, 1)] + ([((2,), 0.2, 1)] if mix(k) // 8 % 2 else []) + ([((1,), 0.2, 1)] if types[1] == DN and mix(k) // 16 % 2 else [])
                out.append((dict(types=types, links={(b, a) if types[a] == CN else (a, b): l for (a, b), l in ls.items()}, demands=dems, statuses=tuple(sts), places=places, skus=skus), dict(always_active_pops=bool(mix(k) // 32 % 2)), RedundancyLevel.NONE if mix(k * 67) % 40 == 1 else levels[(k + lv) % 3]))
    return out


one_tie = tied(one, "one_tie")
step_tie = tied(step, "step_tie")


def main(r):
    r.map(one, items(r.quick), name="redundancy")
    r.map(heuristic, heuristic_items(r.quick), name="candidate-links")
    r.map(step, step_items(r.quick), name="step")
    for fn, its, name in ((one_tie, items(r.quick), "redundancy-ties"), (step_tie, step_items(r.quick), "step-ties")):
        r.map(fn, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (10 if r.quick else 1) == 0], name=name)

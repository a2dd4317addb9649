"""C21: routed flow is free of loops and supports the largest common bandwidth of the active network."""
import itertools
from types import SimpleNamespace

import tg
from tie import KINDS, tied
from c19 import CAPS, E, W, link_sets, mix, prm_of, usable_input
from site_ref import ACTIVE, Inst, check_flow
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork
from terragraph_planner.optimization.ilp_models.network_optimization import NetworkOptimization

EPS = 1e-5  # smaller flows count as none


def cyclic(flow, n):
    adj = {i: [j for (a, j), v in flow.items() if a == i and v > EPS] for i in range(n)}
    left = set(range(n))
    while True:
        ends = {i for i in left if not any(j in left for j in adj[i])}
        if not ends:
            return bool(left)
        left -= ends


def prune(item, c):
    n, edges, block = item
    for vals in block:
        flow = {e: v for e, v in zip(edges, vals) if v}
        net = SimpleNamespace(links=edges, locations=list(range(n)))
        out = NetworkOptimization.prune_loops(net, dict(flow))
        msg = f"flow {flow} -> {out}"
        c.state((edges, vals))
        c.eq(set(out), set(edges), "prune-links", msg)
        c.check(not cyclic(out, n), "prune-loop", msg)
        bal = [0.0] * n
        cut = 0
        for e in edges:
            v, o = flow.get(e, 0.0), out.get(e, 0.0)
            if not -1e-9 <= o <= v + 1e-9:
                c.fail("prune-range", f"{e}: {msg}")
            cut += v - o > 1e-9
            bal[e[0]] += v - o
            bal[e[1]] -= v - o
        c.check(max(map(abs, bal)) < 1e-9, "prune-balance", msg)
        c.check(cut == 0 or cyclic(flow, n), "prune-needless", msg)
        c.outcome(cut)


def flow(item, c):
    kw, pk, red = item
    ins, prm = Inst(**kw), prm_of(**pk)
    msg = f"redundant {sorted(red)} {pk} on {ins}"
    if not usable_input(ins):
        c.raises(lambda: MaxFlowNetwork(ins.topo, prm), OptimizerException, "refuse", msg)
        return
    for i, j in red:
        ins.topo.get_link_by_site_ids(ins.id[i], ins.id[j]).is_redundant = True
    c.state((str(ins), tuple(sorted(red)), str(pk)))
    m = MaxFlowNetwork(ins.topo, prm)
    sol = m.solve()
    S = {i for i in range(ins.n) if ins.statuses[i] in ACTIVE}
    use = {k: l for k, l in ins.dlinks.items() if l[1] in ACTIVE and l[2] > 0 and k not in red}
    c.check(all(i in S and j in S for i, j in use), "harness", msg)
    seen = ins.reach(S, use)
    con = frozenset(k for k, (d, _) in enumerate(ins.dem) if any(i in seen for i in d))
    c.eq({ins.did[k] for k in con}, set(m.connected_demand_sites), "connected", msg)
    if not con:
        c.check(sol is None or not any(v > EPS for v in sol.flow_decisions.values()), "flow-without-demand", msg)
        c.outcome("none")
        return
    want = ins.flow(S, use, prm.pop_capacity, 1.0, "buffer", con)
    if sol is None:
        c.fail("no-solution", f"{want} is possible: {msg}")
        return
    c.close(sol.buffer_decision, want, "bandwidth", msg, tol=1e-5)
    c.eq(set(sol.connected_demand_sites), {ins.did[k] for k in con}, "connected", msg)
    f = check_flow(c, ins, prm, sol.flow_decisions, sol.tdm_decisions, S, set(use), (), "flow", msg)
    for k, (d, _) in enumerate(ins.dem):
        v = sum(x for (a, b), x in f.items() if b == ins.did[k])
        c.close(v, sol.buffer_decision if k in con else 0.0, "demand-flow", f"demand {k} gets {v}: {msg}", tol=1e-4)
        c.check(all(ins.idx.get(a) in d for (a, b) in f if b == ins.did[k]), "demand-links", f"demand {k}: {msg}")
    c.outcome(round(want, 4), len(f))


flow_tie = tied(flow, "flow_tie")


# ---- spaces -----------------------------------------------------------------

def full(n):
    return tuple(itertools.permutations(range(n), 2))


def prune_items(quick):
    out = []

    def add(n, edges, values, keep=1):
        block = []
        for q, vals in enumerate(itertools.product(values, repeat=len(edges))):
            if keep > 1 and mix(q) % keep:
                continue
            block.append(vals)
            if len(block) == 4000:
                out.append((n, edges, block))
                block = []
        if block:
            out.append((n, edges, block))

    add(4, full(4), (0.0, 1.0))
    add(4, tuple(reversed(full(4))), (1.0, 0.0))
    add(4, tuple(e for e in full(4) if e not in ((0, 3), (1, 3), (2, 0), (3, 2))), (0.0, 1.0, 2.0))
    add(3, full(3), (0.0, 0.1, 0.3, 0.7, 1.1))
    add(3, full(3), (0.0, 0.5e-5, 1e-5, 2e-5))
    add(4, full(4), (0.0, 1.0, 2.0), 20 if quick else 1)
    add(4, ((0, 1), (1, 2), (2, 0), (2, 3), (3, 1), (0, 3), (3, 0)), (0.0, 0.1, 0.2, 0.3, 0.7), 8 if quick else 1)
    ring = ((0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (1, 0), (2, 1), (3, 2), (4, 3), (0, 4), (0, 2), (2, 4), (4, 1), (1, 3), (3, 0))
    add(5, ring, (0.0, 1.0), 2 if quick else 1)
    add(5, full(5), (0.0, 1.0), 100 if quick else 2)
    return out


def flow_items(quick, turn=0):
    out = []

    def add(types, links, demands, pk=None, red=(), **kw):
        ln = {}
        for (i, j), l in links.items():
            ln[(j, i) if types[i] == CN else (i, j)] = (l[0], l[1], l[3], l[2], l[5], l[4]) if types[i] == CN else l
        r = {k for p in red for k in (p, p[::-1])}
        ins_keys = {k for (i, j) in ln for k in ((i, j), (j, i)) if types[k[0]] != CN}
        out.append((dict(types=types, links=ln, demands=demands, **kw), pk or {}, frozenset(r & ins_keys)))

    k = turn * 7919
    for types, kinds in (((POP, DN, DN, CN), ("w", "x", "e")), ((POP, DN, CN, CN), ("w", "x")), ((POP, POP, DN, CN), ("w", "0")), ((POP, DN, DN, DN), ("w", "e"))):
        for ls in link_sets(types, kinds, None, turn):
            k += 1
            if quick and mix(k) % 2:
                continue
            ls = {p: (l[0], PROPOSED if mix(k + q) % 5 else CANDIDATE) + l[2:] for q, (p, l) in enumerate(ls.items())}
            red = [p for q, p in enumerate(ls) if mix(k * 3 + q) % 6 == 0 and ls[p][1] == PROPOSED] if k % 2 else []
            dem = [((3,), 1.1, 1), ((2, 1)[: 1 + k % 2], 0.6, 1 + k // 2 % 2)]
            add(types, ls, dem, dict(pop_capacity=(3.0, 1.0)[k // 4 % 2], oversubscription=(1.0, 2.0)[k // 8 % 2]), red, statuses=(PROPOSED,) * 4, reverse=bool(k % 5 == 0))
    # redundant links
    types = (POP, DN, DN, POP, CN)
    pairs = [(0, 1), (0, 2), (1, 2), (3, 2), (1, 4), (2, 4), (3, 1)]
    for red in itertools.chain.from_iterable(itertools.combinations(pairs, r) for r in range(8)):
        for t in range(1 if quick else 4):
            k += 1
            ls = {p: (E(PROPOSED, 1.0 + t, 2.0) if p == (3, 2) and t % 2 else W(PROPOSED, CAPS[(q + t) % 4], CAPS[(q + 1) % 4], (q + t) % 2, q // 2 % 2 if p[1] != 4 else 0)) for q, p in enumerate(pairs)}
            add(types, ls, [((4,), 1.0, 1), ((2, 4), 0.4, 1)], dict(pop_capacity=(1.3, 3.0)[t % 2]), red, statuses=(PROPOSED,) * 5)
    # statuses
    types = (POP, DN, DN, CN, POP)
    for st in itertools.product((CANDIDATE, PROPOSED, EXISTING, UNAVAILABLE), repeat=5):
        k += 1
        if quick and mix(k) % 3 == 0:
            continue
        ls = {}
        for q, p in enumerate([(0, 1), (1, 2), (2, 3), (1, 3), (4, 2), (0, 2)]):
            a, b = st[p[0]], st[p[1]]
            x = UNAVAILABLE if UNAVAILABLE in (a, b) else CANDIDATE if CANDIDATE in (a, b) else EXISTING if a == b == EXISTING and (k + q) % 2 else PROPOSED if mix(k + q) % 4 else CANDIDATE
            ls[p] = W(x, CAPS[q % 4], CAPS[(q + 1) % 4], q % 2, (q // 2) % 2 if p[1] != 3 else 0)
        add(types, ls, [((3,), 0.9, 1), ((2, 0)[: 1 + k % 2], 0.3, 1 + k % 3)], dict(pop_capacity=(1.5, 3.0)[k // 2 % 2]), [p for q, p in enumerate(ls) if mix(k * 5 + q) % 7 == 0 and ls[p][1] in ACTIVE], statuses=st)
    # who shares the time of a sector, capacities of both directions
    types = (POP, DN, DN, CN, CN)
    for sec in itertools.product((0, 1), repeat=7):
        for cap, pc in itertools.product((0.9, 1.6), (1.0, 4.0)):
            k += 1
            if quick and mix(k) % 2:
                continue
            ls = {(0, 1): W(PROPOSED, cap * 2, cap, sec[0], sec[1]), (0, 2): W(PROPOSED, cap, cap * 1.3, sec[2], 0), (1, 2): W(PROPOSED, cap / 2, cap, sec[3], 1), (1, 3): W(PROPOSED, cap, cap, sec[4]), (2, 3): W(PROPOSED, cap * 0.7, cap, sec[5]), (2, 4): W(PROPOSED, cap, cap, sec[6]), (1, 4): W(PROPOSED, cap * 1.5, cap, 1 - sec[4])}
            add(types, ls, [((3,), 0.5, 1), ((4,), 0.7, 1), ((1,), 0.2, 1)], dict(pop_capacity=pc), statuses=(PROPOSED,) * 5)
    # places with several active sites are no business of the flow; POPs that serve demand
    types = (POP, POP, DN, CN)
    for d0, d1, pc, t in itertools.product((None, (0,), (0, 1)), (None, (1, 2), (2,)), (0.9, 4.0), range(8)):
        k += 1
        ls = {(0, 2): W(PROPOSED, CAPS[t % 4]), (1, 2): W(PROPOSED, 1.4, a=1, b=1), (2, 3): W(PROPOSED, 1.2, a=t % 2), (1, 3): W(PROPOSED if t % 3 else CANDIDATE, 0.6)}
        add(types, ls, [(s, 0.8, 1 + t // 4) for s in (d0, d1) if s] + [((3,), 0.5, 1)], dict(pop_capacity=pc), statuses=(PROPOSED, EXISTING if t % 2 else PROPOSED, PROPOSED, PROPOSED))
    return out


def main(r):
    r.map(prune, prune_items(r.quick), name="prune-loops")
    r.map(flow, [x for turn in range(1 if r.quick else 8) for x in flow_items(r.quick, turn)], name="max-flow")
    its = [x for turn in range(1 if r.quick else 4) for x in flow_items(r.quick, turn)]
    r.map(flow_tie, [(kind, x) for q, x in enumerate(its) for n, kind in enumerate(KINDS) if (mix(q * 61) + n) % (6 if r.quick else 1) == 0], name="max-flow-ties")

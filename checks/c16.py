"""C16: statuses: reachability from POPs, consistency rules, applying a solution."""
import itertools
import os
import tempfile

import tg
from tg import CANDIDATE, CN, DN, EXISTING, EVEN, ODD, POP, PROPOSED, UNASSIGNED, UNAVAILABLE, UNREACHABLE, DemandSite, Link, Sector, Topology
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import OptimizerException, TopologyException
from terragraph_planner.optimization import topology_preparation as tp
from terragraph_planner.optimization.structs import OptimizationSolution
from terragraph_planner.optimization.topology_operations import get_reachable_demand_sites, hops_from_pops, mark_unreachable_components
from terragraph_planner.optimization.topology_optimization import pre_opt_check, update_topology_with_solution
from terragraph_planner.optimization.topology_preparation import validate_topology_status

XY = [(0, 0), (150, 10), (40, 160), (200, 190), (330, 60)]
ACTIVE = (PROPOSED, EXISTING)
REACHABLE = (PROPOSED, EXISTING, CANDIDATE)
FIXED = (EXISTING, UNAVAILABLE)
ALL = [PROPOSED, EXISTING, CANDIDATE, UNAVAILABLE, UNREACHABLE]
FILTERS = {"all": None, "active": set(ACTIVE), "reachable": set(REACHABLE), "candidate": {CANDIDATE}}


def link_ok(a, b, l):
    """May a link of status l join sites of status a and b?"""
    if l == EXISTING and not (a == EXISTING and b == EXISTING):
        return False
    if UNAVAILABLE in (a, b) and l != UNAVAILABLE:
        return False
    if UNREACHABLE in (a, b) and l != UNREACHABLE:
        return False
    if CANDIDATE in (a, b) and l in ACTIVE:
        return False
    return True


def sector_ok(s, x):
    return x in REACHABLE if s in ACTIVE else x == s


def mk(types, statuses):
    return [tg.site(t, *XY[i], alt=5.0, status=s, name="abcde"[i]) for i, (t, s) in enumerate(zip(types, statuses))]


def bfs(n, roots, ok, edges):
    """edges: (i, j) usable links; ok: usable sites."""
    hop = {i: 0 for i in roots}
    front, d = list(roots), 0
    while front:
        d += 1
        front = sorted({j for i, j in edges if i in front and ok[j] and j not in hop})
        for j in front:
            hop[j] = d
    return hop


def links_of(pairs, choice):
    """choice per pair: None or (status, both directions?)"""
    out = []
    for (i, j), ch in zip(pairs, choice):
        if ch:
            out.append((i, j, ch[0]))
            if ch[1]:
                out.append((j, i, ch[0]))
    return out


def reach_one(types, statuses, links, hops_limits, c):
    n = len(types)

    def build():
        s = mk(types, statuses)
        secs = [Sector(x, 0, 0, 90.0 * i, x.status_type if x.status_type != PROPOSED else CANDIDATE) for i, x in enumerate(s)]
        ls = [Link(s[i], s[j], status_type=st, is_wireless=True) for i, j, st in links]
        ds = [DemandSite(s[k].location if hasattr(s[k], "location") else tg.utm(*XY[k]), demand=1.0, connected_sites=[s[k]] + ([s[1]] if k == n - 1 else [])) for k in range(1, n)]
        return s, Topology(sites=s, links=ls, sectors=secs, demand_sites=ds), ds, secs

    s, t, ds, secs = build()
    ids = [x.site_id for x in s]
    for f, flt in FILTERS.items():
        have = lambda st: flt is None or st in flt
        want = bfs(n, [i for i in range(n) if types[i] == POP and have(statuses[i])], [have(x) for x in statuses], [(i, j) for i, j, st in links if have(st)])
        got = {ids.index(k): v for k, v in hops_from_pops(t, flt).items()}
        c.eq(got, want, "hops", f"filter={f} {types} {statuses} {links}")
        if flt is not None:
            wd = {d.demand_id for d in ds if any(ids.index(x.site_id) in want for x in d.connected_sites)}
            c.eq(get_reachable_demand_sites(t, flt), wd, "reachable-demand", f"filter={f} {types} {statuses} {links}")
        # without one site, without one link
        for gone, cut in [({i}, set()) for i in range(n)] + [(set(), {(i, j)}) for i, j, _ in links]:
            ok = [have(x) and i not in gone for i, x in enumerate(statuses)]
            want = bfs(n, [i for i in range(n) if types[i] == POP and ok[i]], ok, [(i, j) for i, j, st in links if have(st) and (i, j) not in cut])
            kw = dict(ignore_links={(ids[i], ids[j]) for i, j in cut}, ignore_sites={ids[i] for i in gone})
            c.eq({ids.index(k): v for k, v in hops_from_pops(t, flt, **kw).items()}, want, "hops", f"without={gone or cut} filter={f} {types} {statuses} {links}")
            if flt is not None:
                wd = {d.demand_id for d in ds if any(ids.index(x.site_id) in want for x in d.connected_sites)}
                c.eq(get_reachable_demand_sites(t, flt, **kw), wd, "reachable-demand", f"without={gone or cut} filter={f} {types} {statuses} {links}")
    hop = bfs(n, [i for i in range(n) if types[i] == POP and statuses[i] in REACHABLE], [x in REACHABLE for x in statuses], [(i, j) for i, j, st in links if st in REACHABLE])
    for m in hops_limits:
        s, t, ds, secs = build()
        mark_unreachable_components(t, m)
        cut = [i for i in range(n) if statuses[i] == CANDIDATE and (i not in hop or (m and hop[i] > m))]
        c.eq([x.status_type for x in s], [UNREACHABLE if i in cut else statuses[i] for i in range(n)], "mark-sites", f"max={m} {types} {statuses} {links}")
        for l in t.links.values():
            i, j = ids.index(l.tx_site.site_id), ids.index(l.rx_site.site_id)
            st = next(x for a, b, x in links if (a, b) == (i, j))
            c.eq(l.status_type, UNREACHABLE if (i in cut or j in cut) and st not in FIXED else st, "mark-links", f"{i}->{j} max={m} {types} {statuses} {links}")
        for i, x in enumerate(secs):
            was = statuses[i] if statuses[i] != PROPOSED else CANDIDATE
            c.eq(x.status_type, UNREACHABLE if i in cut else was, "mark-sectors", f"{i} max={m} {types} {statuses} {links}")
        c.outcome(m, tuple(x.status_type for x in s))


def reach(item, c):
    """All link sets of given sites with statuses."""
    types, statuses, modes, limits = item
    pairs = [(i, j) for i, j in itertools.combinations(range(len(types)), 2) if not (types[i] == CN and types[j] == CN)]
    opts = []
    for i, j in pairs:
        o = [None]
        for st in ALL:
            if link_ok(statuses[i], statuses[j], st):
                both = types[i] != CN and types[j] != CN
                if modes != "one":
                    o.append((st, both))
                if both and modes != "two":
                    o.append((st, False))
        opts.append(o)
    # a one way link may also lead back
    flip = modes == "flip"
    for choice in itertools.product(*opts):
        ps = [(j, i) if flip and ch and not ch[1] and types[j] != CN and types[i] != CN else (j, i) if types[i] == CN else (i, j) for (i, j), ch in zip(pairs, choice)]
        reach_one(types, statuses, links_of(ps, choice), limits, c)
        c.step()
    c.state((types, statuses, modes))


def graph(item, c):
    """All networks of five sites, hop limits."""
    types, statuses, masks = item
    pairs = [(i, j) for i, j in itertools.combinations(range(5), 2) if not (types[i] == CN and types[j] == CN)]
    for mask in masks:
        if mask >> len(pairs):
            continue
        choice = []
        for k, (i, j) in enumerate(pairs):
            if not mask >> k & 1:
                choice.append(None)
                continue
            st = next((x for x in (EXISTING, CANDIDATE, UNAVAILABLE, UNREACHABLE) if link_ok(statuses[i], statuses[j], x)), None)
            choice.append(st and (st, CN not in (types[i], types[j])))
        reach_one(types, statuses, links_of([(j, i) if types[i] == CN else (i, j) for i, j in pairs], choice), (None, 1, 2, 3), c)
    c.state((types, statuses, masks[0]))


# ---------------------------------------------------------------- solution
#           sites of the links, sector index of tx and rx
NET = [("POP", 1), ("DN", 2), ("DN", 1), ("CN", 1)]
SOL_LINKS = [(0, 1, 0, 0), (1, 2, 1, 0), (0, 2, 0, 0), (1, 3, 1, 0), (2, 3, 0, 0)]
SITE_OPTS = [(CANDIDATE, 0), (CANDIDATE, 1), (PROPOSED, 0), (PROPOSED, 1), (EXISTING, 1), (UNAVAILABLE, 0), (UNREACHABLE, 0)]


def solution(item, c):
    opts, prior, nosec = item
    st = [o[0] for o in opts]
    dec = [o[1] for o in opts]
    types = [POP, DN, DN, CN]
    wires = {2} if nosec == "wire" else set()
    pot = [k for k, (i, j, a, b) in enumerate(SOL_LINKS) if dec[i] and dec[j] and "X" != prior[k]]
    for r_ in range(len(pot) + 1):
        for on in itertools.combinations(pot, r_):
            s = mk(types, st)
            secs, sdec, was = {}, {}, {}
            for i, (_, k) in enumerate(NET):
                for a in range(k):
                    if nosec == i:
                        continue
                    now = st[i] if st[i] not in ACTIVE else EXISTING if st[i] == EXISTING and prior[4] == "E" else CANDIDATE if (a + i) % 2 else PROPOSED
                    secs[i, a] = Sector(s[i], a, 0, 10.0 * i + 100 * a, now, (i + 2 * a + len(on) // 2) % 3 - 1)
                    was[i, a] = now
            links, ldec, lwas = {}, {}, {}
            for k, (i, j, a, b) in enumerate(SOL_LINKS):
                for x, y, xa, ya in ((i, j, a, b), (j, i, b, a)):
                    if x == 3:
                        continue
                    want = {"E": EXISTING, "U": UNAVAILABLE, "X": UNREACHABLE, "C": CANDIDATE, "P": PROPOSED}[prior[k]]
                    l0 = next((z for z in (want, CANDIDATE, UNAVAILABLE, UNREACHABLE) if link_ok(st[x], st[y], z)), None)
                    if l0 is None:
                        continue
                    wl = k not in wires
                    use = wl and (x, xa) in secs and (y, ya) in secs
                    links[x, y] = Link(s[x], s[y], secs[x, xa] if use else None, secs[y, ya] if use else None, l0, is_wireless=wl)
                    lwas[x, y] = l0
                    ldec[x, y] = int(k in on)
            for i, a in secs:
                u = any(ldec[x, y] and ((x, xa) == (i, a) or (y, ya) == (i, a)) for k, (p, q, pa, qa) in enumerate(SOL_LINKS) for x, y, xa, ya in ((p, q, pa, qa), (q, p, qa, pa)) if (x, y) in ldec and k not in wires)
                sdec[i, a] = int(u or (dec[i] and was[i, a] == EXISTING) or (dec[i] and len(on) % 2 == 0))
            if any(ldec[x, y] and links[x, y].is_wireless and links[x, y].tx_sector is None for x, y in ldec):
                continue  # a wireless link without sectors is never selected
            t = Topology(sites=s, links=list(links.values()), sectors=list(secs.values()))
            sid = [x.site_id for x in s]
            for i in range(4):
                s[i].polarity = (UNASSIGNED, ODD, EVEN)[(i + len(on)) % 3]
            odd = {sid[i]: int(dec[i] and (i + len(on)) % 2) for i in range(3)}
            even = {sid[i]: int(dec[i] and not odd[sid[i]] and i != 0) for i in range(3)}
            chan = {(sid[i], secs[i, a].sector_id): (i + a + len(on)) % 3 - 1 for i, a in secs if (i + a) % 4}
            sol = OptimizationSolution(
                site_decisions={sid[i]: d for i, d in enumerate(dec) if d or i % 2},
                sector_decisions={(sid[i], secs[i, a].sector_id): d for (i, a), d in sdec.items()},
                link_decisions={(sid[x], sid[y]): d for (x, y), d in ldec.items()},
                odd_site_decisions=odd, even_site_decisions=even, channel_decisions=chan,
                flow_decisions={}, tdm_decisions={}, shortage_decisions={}, objective_value=0, cost=0,
            )
            update_topology_with_solution(sol, t)
            c.step()
            # expectation
            keep = FIXED + (UNREACHABLE,)
            mid = [x if x in keep else PROPOSED if d else CANDIDATE for x, d in zip(st, dec)]
            lmid = {k: x if x in keep else PROPOSED if ldec[k] else CANDIDATE for k, x in lwas.items()}
            hop = bfs(4, [0] if mid[0] in ACTIVE else [], [x in ACTIVE for x in mid], [k for k, x in lmid.items() if x in ACTIVE])
            fin = [x if i in hop or x in keep else CANDIDATE for i, x in enumerate(mid)]
            msg = f"{opts} on={on} prior={prior} nosec={nosec}"
            c.eq([x.status_type for x in s], fin, "solution-sites", msg)
            c.eq({k: l.status_type for k, l in links.items()}, {k: x if x in keep or (k[0] in hop and k[1] in hop) else CANDIDATE for k, x in lmid.items()}, "solution-links", msg)
            c.eq({k: x.status_type for k, x in secs.items()}, {k: w if w in keep else PROPOSED if sdec[k] and k[0] in hop else CANDIDATE for k, w in was.items()}, "solution-sectors", msg)
            c.eq([x.polarity for x in s], [ODD if odd.get(sid[i]) else EVEN if even.get(sid[i]) else UNASSIGNED for i in range(4)], "solution-polarity", msg)
            c.eq({k: x.channel for k, x in secs.items()}, {(i, a): chan.get((sid[i], secs[i, a].sector_id), -1) for i, a in secs}, "solution-channel", msg)
            try:
                validate_topology_status(t)
            except TopologyException as e:
                # an existing link keeps its status: it may join a sector that
                # was not existing in this enumeration
                if not any(l.status_type == EXISTING for l in links.values()):
                    c.fail("solution-inconsistent", f"{e} {msg}")
            c.outcome(tuple(fin), tuple(sorted(hop.items())))
    c.state(item)


# ---------------------------------------------------------------- validation
def force(make, targets):
    """Objects whose sites end with the given statuses although other parts
    were created with sites of another status."""
    for start in itertools.product(ALL, repeat=len(targets)):
        if all(a == b or not {a, b} & set(FIXED) for a, b in zip(start, targets)):
            try:
                r = make(start)
            except TopologyException:
                continue
            for x, y in zip(r[0], targets):
                if x.status_type != y:
                    x.status_type = y
            return r
    return None


def validate(item, c):
    types, wired, sites = item
    two_way = CN not in types
    for lf in ALL:
        for lb in ALL + [None] if two_way else [None]:
            for sec in [None] + [(x, y) for x in ALL for y in ALL]:
                if sec and wired:
                    continue

                def make(start):
                    s = mk(types, start)
                    tx = rx = None
                    if sec:
                        tx, rx = Sector(s[0], 0, 0, 90.0, sec[0]), Sector(s[1], 0, 0, 270.0, sec[1])
                    ls = [Link(s[0], s[1], tx, rx, lf, is_wireless=not wired)]
                    if lb is not None:
                        ls.append(Link(s[1], s[0], rx, tx, lb, is_wireless=not wired))
                    return s, Topology(sites=s, links=ls, sectors=[x for x in (tx, rx) if x])

                r = force(make, sites)
                if r is None:
                    c.outcome("impossible", lf, lb)
                    continue
                access = types[1] == CN and not wired
                ok = lb == lf or (access and lb is None)
                # A one way access link is not examined further by the planner.
                if ok and not (access and lb is None):
                    if lf == EXISTING:
                        ok = all(x == EXISTING for x in sites) and (wired or (sec is not None and all(x == EXISTING for x in sec)))
                    elif lf == PROPOSED:
                        ok = all(x in ACTIVE for x in sites) and (wired or (sec is not None and all(x in ACTIVE for x in sec)))
                    elif lf == CANDIDATE:
                        ok = all(x in REACHABLE for x in sites) and (sec is None or all(x in REACHABLE for x in sec))
                try:
                    validate_topology_status(r[1])
                    got = True
                except TopologyException:
                    got = False
                c.eq(got, ok, "validate", f"{types} wired={wired} sites={sites} link={lf}/{lb} sectors={sec}")
                c.outcome(types, wired, sites, lf, lb, sec, got)
    c.state(item)


def precheck(item, c):
    types, extra, uni, man = item
    t = Topology(sites=mk(types, [CANDIDATE] * len(types)))
    p = tg.opt_params(number_of_extra_pops=extra, enable_uniform_demand=uni, enable_manual_demand=man, demand_connection_radius=25.0, demand_spacing=25.0)
    ok = (extra > 0 or POP in types) and (uni or man or CN in types)
    try:
        pre_opt_check(t, p)
        got = True
    except OptimizerException:
        got = False
    c.eq(got, ok, "precheck", f"{item}")
    c.state(item)


def from_file(item, c):
    """Existing or proposed links of an input file reach the optimizer."""
    status = item
    tp.DEFAULT_POINTING_PRECISION = 15
    a, b, x, d = (tg.site(t, px, py, 5.0, s, name=n) for t, px, py, s, n in ((POP, 0, 0, status, "a"), (DN, 100, 0, status, "b"), (DN, 100, 100, CANDIDATE, "c"), (CN, 150, 150, CANDIDATE, "d")))
    t = Topology(sites=[a, b, x, d])
    for i, j, st, w in ((a, b, status, False), (b, a, status, False), (b, x, CANDIDATE, False), (x, b, CANDIDATE, False), (x, d, CANDIDATE, False)):
        t.add_link(Link(i, j, status_type=st, is_wireless=not w, confidence_level=1.0))
    p = tg.opt_params()
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "t.kml")
        write_to_kml_file(t, f)
        t = extract_topology_from_file(f, p.device_list, None)
    tp.prepare_topology_for_optimization(t, p)
    c.eq(sorted(l.status_type.name for l in t.links.values()), sorted([status.name] * 2 + ["CANDIDATE"] * 3), "file-status")
    try:
        validate_topology_status(t)
    except TopologyException as e:
        c.fail("active-links-from-file" if status in ACTIVE else "file-rejected", f"{item}: {e}")


def main(r):
    q = r.quick
    items = []
    for types in ((POP, DN, CN), (POP, DN, DN), (POP, POP, DN), (POP, CN, DN), (DN, DN, CN)):
        for st in itertools.product(ALL, repeat=3):
            for mode in ("both", "flip"):
                if q and (mode == "flip" and st[1] in FIXED or st.count(PROPOSED) == 1 and st[2] in ALL[::2]):
                    continue
                items.append((types, st, mode, (None, 1, 2)))
    r.map(reach, items, "networks-of-three")
    items = []
    for types in ((POP, DN, DN, DN, CN), (POP, DN, CN, DN, POP)):
        for n, st in enumerate(itertools.product((CANDIDATE, EXISTING, UNAVAILABLE, UNREACHABLE), repeat=5)):
            if q and n % 73 != 5 or not q and n % 3:
                continue
            for k in range(0, 1024, 128):
                items.append((types, st, tuple(range(k, k + 128))))
    items += [((POP, DN, DN, DN, CN), (CANDIDATE,) * 5, tuple(range(k, k + 64))) for k in range(0, 1024, 64)]
    r.map(graph, items, "networks-of-five")
    items = []
    priors = ["CCCCE", "EEEEE", "UCCCC", "CPPUE", "PEPEC", "CCUPC"]
    for n, o in enumerate(itertools.product(SITE_OPTS, repeat=4)):
        for m, p in enumerate(priors):
            if (n + m) % (11 if q else 1):
                continue
            for nosec in (None, 1, "wire"):
                if q and nosec is not None and (n // 7 + m) % 3:
                    continue
                items.append((o, p, nosec))
    r.map(solution, items, "applied-solutions")
    items = [(ty, w, st) for ty in ((POP, DN), (DN, DN), (DN, CN)) for w in (False, True) for st in itertools.product(ALL, repeat=2)]
    r.map(validate, items, "consistency-rules")
    items = [(ty, e, u, m) for k in range(0, 4) for ty in itertools.product((POP, DN, CN), repeat=k) for e in (0, 1, 3) for u in (False, True) for m in (False, True)]
    r.map(precheck, items, "input-check")
    r.map(from_file, [CANDIDATE, EXISTING, PROPOSED], "links-from-file")

"""C01: the topology container stays consistent over every edit history.

Breadth first search over the real Topology: every transition calls one real
edit operation; the state is the canonical form of the real object; after each
step every query is compared with a dictionary based reference model.
"""
from tg import *  # noqa

# ------------------------------------------------------------------ alphabet
ALPHA = {
    # name -> sites that the history may use (type, x, y, status)
    "main": dict(
        sites=[(DN, 0, 0, PROPOSED), (POP, 100, 0, PROPOSED), (CN, 50, 80, CANDIDATE)],
        sectors=[(0, 0, 0), (0, 1, 0), (1, 0, 0)],
        # (tx, rx, tx sector or None, rx sector or None, wireless)
        links=[
            (0, 1, 0, 2, True),
            (1, 0, 2, 0, True),
            (1, 0, None, None, False),
            (0, 2, None, None, True),
        ],
    ),
    "colo": dict(
        sites=[(DN, 0, 0, PROPOSED), (POP, 0, 0, EXISTING), (CN, 0.3, 0, PROPOSED)],
        sectors=[(0, 0, 0), (1, 0, 0)],
        links=[
            (0, 1, 0, 1, True),
            (1, 0, 1, 0, True),
            (1, 2, None, None, True),
            (0, 0, None, None, False),
        ],
    ),
}


def events_of(cfg):
    ev = []
    for i in range(len(cfg["sites"])):
        ev += [("+s", i), ("-s", i)]
    for i in range(len(cfg["sectors"])):
        ev += [("+c", i), ("-c", i)]
    for i in range(len(cfg["links"])):
        ev += [("+l", i)]
    pairs = sorted({(l[0], l[1]) for l in cfg["links"]})
    for p in pairs:
        ev += [("-l", p)]
    ev += [("+i", pairs[0]), ("+d",), ("-d",), ("sort",)]
    return ev


class World:
    """Real objects (created once per replay) next to the reference model."""

    def __init__(self, name):
        cfg = self.cfg = ALPHA[name]
        self.name = name
        self.sites = [
            site(t, x, y, 0.0, st, name=f"S{i}") for i, (t, x, y, st) in enumerate(cfg["sites"])
        ]
        self.sectors = [
            Sector(self.sites[s], n, p, 10.0 * i, status_type=self.sites[s].status_type
                   if self.sites[s].status_type in (PROPOSED, EXISTING) else CANDIDATE)
            for i, (s, n, p) in enumerate(cfg["sectors"])
        ]
        self.links = []
        for tx, rx, ts, rs, w in cfg["links"]:
            self.links.append(self.mklink(tx, rx, ts, rs, w))
        self.demand = DemandSite(utm(7, 7), demand=1.0, connected_sites=[self.sites[1], self.sites[0]])
        self.t = Topology()
        # model: sets/dicts over indices
        self.ms = {}  # site idx
        self.mc = {}  # sector idx
        self.ml = {}  # (tx,rx) -> [txsec, rxsec, wireless, link object]
        self.md = False

    def mklink(self, tx, rx, ts, rs, w):
        return Link(
            tx_site=self.sites[tx],
            rx_site=self.sites[rx],
            tx_sector=None if ts is None else self.sectors[ts],
            rx_sector=None if rs is None else self.sectors[rs],
            is_wireless=w,
        )

    def apply(self, ev):
        """Returns (expected_ok, thunk on the real object, thunk on the model)."""
        t, op = self.t, ev[0]
        if op == "+s":
            i = ev[1]
            ok = i not in self.ms
            return ok, lambda: t.add_site(self.sites[i]), lambda: self.ms.__setitem__(i, 1)
        if op == "-s":
            i = ev[1]

            def m():
                del self.ms[i]
                for c in [c for c in self.mc if self.cfg["sectors"][c][0] == i]:
                    del self.mc[c]
                for l in [l for l in self.ml if i in l]:
                    del self.ml[l]

            return i in self.ms, lambda: t.remove_site(self.sites[i].site_id), m
        if op == "+c":
            i = ev[1]
            ok = i not in self.mc and self.cfg["sectors"][i][0] in self.ms
            return ok, lambda: t.add_sector(self.sectors[i]), lambda: self.mc.__setitem__(i, 1)
        if op == "-c":
            i = ev[1]

            def m():
                del self.mc[i]
                for l in self.ml.values():
                    if i in (l[0], l[1]):
                        l[0] = l[1] = None

            return i in self.mc, lambda: t.remove_sector(self.sectors[i].sector_id), m
        if op == "+l":
            tx, rx, ts, rs, w = self.cfg["links"][ev[1]]
            ok = tx in self.ms and rx in self.ms
            # the link object may carry sectors that are not (no longer) part
            # of the topology; only offer that when they are
            obj = self.mklink(tx, rx, ts, rs, w)
            return (
                ok,
                lambda: t.add_link(obj),
                lambda: self.ml.__setitem__((tx, rx), [ts, rs, w, obj]),
            )
        if op == "-l":
            tx, rx = ev[1]
            lid = Link.get_link_id_by_site_ids(self.sites[tx].site_id, self.sites[rx].site_id)
            return (tx, rx) in self.ml, lambda: t.remove_link(lid), lambda: self.ml.pop((tx, rx))
        if op == "+i":
            tx, rx = ev[1]
            ok = tx in self.ms and rx in self.ms
            return (
                ok,
                lambda: t.add_link_from_site_ids(
                    self.sites[tx].site_id, self.sites[rx].site_id, confidence_level=0.5
                ),
                lambda: self.ml.__setitem__((tx, rx), [None, None, True, None]),
            )
        if op == "+d":
            return True, lambda: t.add_demand_site(self.demand), lambda: setattr(self, "md", True)
        if op == "-d":
            return (
                self.md,
                lambda: t.remove_demand_site(self.demand.demand_id),
                lambda: setattr(self, "md", False),
            )
        if op == "sort":
            return True, t.sort, lambda: None

    def offered(self, ev):
        """Events the closed driver may issue here (illegal ones included)."""
        if ev[0] == "+l":
            tx, rx, ts, rs, w = self.cfg["links"][ev[1]]
            return all(c is None or c in self.mc for c in (ts, rs)) or not (
                tx in self.ms and rx in self.ms
            )
        return True

    # ---------------------------------------------------------------- oracle
    def verify(self, c, tag):
        t = self.t
        S = [s.site_id for s in self.sites]
        C = [s.sector_id for s in self.sectors]
        eq = c.eq
        eq(set(t.sites), {S[i] for i in self.ms}, f"sites{tag}")
        eq(set(t.sectors), {C[i] for i in self.mc}, f"sectors{tag}")
        lid = lambda p: Link.get_link_id_by_site_ids(S[p[0]], S[p[1]])
        eq(set(t.links), {lid(p) for p in self.ml}, f"links{tag}")
        eq(list(t.demand_sites), [self.demand.demand_id] if self.md else [], f"demand{tag}")
        for i in self.ms:
            c.check(t.sites[S[i]] is self.sites[i], f"siteobj{tag}")
        # sectors by site
        for i in range(len(S)):
            want = {C[k] for k in self.mc if self.cfg["sectors"][k][0] == i}
            eq(set(t.site_id_to_sector_ids.get(S[i], set())), want, f"sectors-of-site{tag}")
        # adjacency in both directions
        fwd = {}
        for tx in S:
            for rx, l in t.site_connectivity.get(tx, {}).items():
                fwd[(tx, rx)] = l
        rev = {}
        for rx in S:
            for tx, l in t.site_connectivity_reverse.get(rx, {}).items():
                rev[(tx, rx)] = l
        want = {(S[a], S[b]): lid((a, b)) for a, b in self.ml}
        eq(fwd, want, f"adjacency{tag}")
        eq(rev, want, f"adjacency-reverse{tag}")
        for i in range(len(S)):
            if i not in self.ms:
                c.raises(lambda: t.get_successor_sites(self.sites[i]), PlannerException, f"succ-err{tag}")
                c.raises(lambda: t.get_predecessor_sites(self.sites[i]), PlannerException, f"pred-err{tag}")
                continue
            s = self.sites[i]
            ids = lambda l: sorted(x.site_id for x in l)
            eq(ids(t.get_successor_sites(s)), sorted(S[b] for a, b in self.ml if a == i), f"succ{tag}")
            eq(ids(t.get_predecessor_sites(s)), sorted(S[a] for a, b in self.ml if b == i), f"pred{tag}")
            eq(
                ids(t.get_wireless_successor_sites(s)),
                sorted(S[p[1]] for p, v in self.ml.items() if p[0] == i and v[2]),
                f"wsucc{tag}",
            )
            eq(
                ids(t.get_wireless_predecessor_sites(s)),
                sorted(S[p[0]] for p, v in self.ml.items() if p[1] == i and v[2]),
                f"wpred{tag}",
            )
        scon = {}
        for p, v in self.ml.items():
            if v[0] is not None:
                scon[(C[v[0]], C[v[1]])] = lid(p)
        got = {(a, b): l for a, d in t.sector_connectivity.items() for b, l in d.items()}
        eq(got, scon, f"sector-conn{tag}")
        got = {(a, b): l for b, d in t.sector_connectivity_reverse.items() for a, l in d.items()}
        eq(got, scon, f"sector-conn-rev{tag}")
        for a in range(len(S)):
            for b in range(len(S)):
                if a in self.ms and b in self.ms:
                    l = t.get_link_by_site_ids(S[a], S[b])
                    if (a, b) in self.ml:
                        v = self.ml[(a, b)]
                        if c.check(l is not None and l.link_id == lid((a, b)), f"link-lookup{tag}"):
                            eq((l.tx_site.site_id, l.rx_site.site_id), (S[a], S[b]), f"link-ends{tag}")
                            eq(
                                (l.tx_sector and l.tx_sector.sector_id, l.rx_sector and l.rx_sector.sector_id),
                                (None if v[0] is None else C[v[0]], None if v[1] is None else C[v[1]]),
                                f"link-sectors{tag}",
                            )
                            c.check(v[3] is None or v[3] is l, f"link-obj{tag}")
                            r = t.get_reverse_link(l)
                            eq(r and r.link_id, lid((b, a)) if (b, a) in self.ml else None, f"reverse{tag}")
                    else:
                        eq(l, None, f"link-lookup-none{tag}")
                else:
                    c.raises(lambda: t.get_link_by_site_ids(S[a], S[b]), PlannerException, f"link-err{tag}")
        for a in range(len(C)):
            for b in range(len(C)):
                if a in self.mc and b in self.mc:
                    sa, sb = self.cfg["sectors"][a][0], self.cfg["sectors"][b][0]
                    l = t.get_link_by_sector_ids(C[a], C[b])
                    eq(l and l.link_id, lid((sa, sb)) if (sa, sb) in self.ml else None, f"sector-lookup{tag}")
                else:
                    c.raises(lambda: t.get_link_by_sector_ids(C[a], C[b]), PlannerException, f"sector-err{tag}")
        # aggregate queries
        typ = [x[0] for x in self.cfg["sites"]]
        st = [x[3] for x in self.cfg["sites"]]
        for sf in (None, {PROPOSED, EXISTING}, {CANDIDATE}):
            for tf in (None, {POP, DN}, {CN}):
                eq(
                    t.get_site_ids(status_filter=sf, site_type_filter=tf),
                    {S[i] for i in self.ms if (sf is None or st[i] in sf) and (tf is None or typ[i] in tf)},
                    f"get_site_ids{tag}",
                )
        ltype = lambda p, v: (
            LinkType.ETHERNET if not v[2] else LinkType.WIRELESS_ACCESS if typ[p[1]] == CN else LinkType.WIRELESS_BACKHAUL
        )
        for lf in (None, {LinkType.ETHERNET}, {LinkType.WIRELESS_ACCESS}, {LinkType.WIRELESS_BACKHAUL}):
            for sf in (None, {CANDIDATE}, {PROPOSED}):
                eq(
                    t.get_link_site_id_pairs(status_filter=sf, link_type_filter=lf),
                    {
                        (S[p[0]], S[p[1]])
                        for p, v in self.ml.items()
                        if (lf is None or ltype(p, v) in lf) and (sf is None or CANDIDATE in sf)
                    },
                    f"link-pairs{tag}",
                )
        eq(
            t.get_sectorless_links(),
            {(S[p[0]], S[p[1]]) for p, v in self.ml.items() if v[2] and v[0] is None},
            f"sectorless{tag}",
        )
        for sf in ({PROPOSED}, {EXISTING, CANDIDATE}):
            want = {}
            for k in self.mc:
                if self.sectors[k].status_type in sf:
                    want.setdefault(S[self.cfg["sectors"][k][0]], set()).add(C[k])
            eq(t.get_sector_ids(sf), want, f"sector-ids{tag}")
        colo = {}
        for i in self.ms:
            colo.setdefault(self.cfg["sites"][i][1:3], set()).add(S[i])
        eq(
            sorted(map(sorted, t.get_colocated_sites().values())),
            sorted(map(sorted, colo.values())),
            f"colocated{tag}",
        )

    def canon(self):
        t = self.t
        l = {
            k: (
                v.is_wireless,
                v.tx_sector and v.tx_sector.sector_id,
                v.rx_sector and v.rx_sector.sector_id,
            )
            for k, v in t.links.items()
        }
        return (
            self.name,
            sorted(self.ms), sorted(self.mc), sorted((k, v[:3]) for k, v in self.ml.items()), self.md,
            sorted(t.sites), sorted(t.sectors), sorted(l.items(), key=repr), sorted(t.demand_sites),
            sorted((k, sorted(v)) for k, v in t.site_id_to_sector_ids.items()),
            sorted((k, sorted(v.items())) for k, v in t.site_connectivity.items()),
            sorted((k, sorted(v.items())) for k, v in t.site_connectivity_reverse.items()),
        )


def do(w, ev, ctx, tag=""):
    ok, real, model = w.apply(ev)
    ctx.step()
    try:
        real()
        done = True
    except PlannerException:
        done = False
    if ok != done:
        ctx.fail(f"legality:{ev[0]}", f"op {ev}: accepted={done}, model says {ok}")
    if ok:
        model()
    return ok


def step(hist, ctx):
    name, evs = hist[0], hist[1:]
    w = World(name)
    for ev in evs[:-1]:
        ok, real, model = w.apply(ev)
        if ok:
            real()
            model()
        else:
            try:
                real()
            except PlannerException:
                pass
    if evs:
        do(w, evs[-1], ctx)
    w.verify(ctx, "")
    if evs and evs[-1][0] == "sort":
        for d in (w.t.sites, w.t.sectors, w.t.links, w.t.demand_sites):
            ctx.eq(list(d), sorted(d), "sort-order")
        for d in w.t.demand_sites.values():
            ids = [s.site_id for s in d.connected_sites]
            ctx.eq(ids, sorted(ids), "sort-demand")
    # the same content built in one go is indistinguishable from the edited one
    if not ctx.viol:
        f = World(name)
        f.ms, f.mc, f.md = dict(w.ms), dict(w.mc), w.md
        links = []
        for p, v in sorted(w.ml.items()):
            obj = f.mklink(p[0], p[1], v[0], v[1], v[2])
            f.ml[p] = [v[0], v[1], v[2], obj]
            links.append(obj)
        f.t = Topology(
            sites=[f.sites[i] for i in sorted(f.ms)],
            demand_sites=[f.demand] if f.md else [],
            sectors=[f.sectors[i] for i in sorted(f.mc)],
            links=links,
        )
        f.verify(ctx, ":fresh")
    ctx.outcome(len(w.ms), len(w.mc), len(w.ml))
    ctx.out = (w.canon(), [e for e in events_of(w.cfg) if w.offered(e)])


SEEDS = {
    # start also from non-initial states: a full topology
    "main": [(), tuple([("+s", i) for i in range(3)] + [("+c", i) for i in range(3)]
                       + [("+l", 0), ("+l", 1), ("+l", 3), ("+d",)])],
    "colo": [(), tuple([("+s", i) for i in range(3)] + [("+c", i) for i in range(2)]
                       + [("+l", i) for i in range(4)] + [("+d",)])],
}


def seq(item, ctx):
    """Every operation sequence of the given length without state merging."""
    name, seed, evs = item
    w = World(name)
    for ev in seed + evs:
        if not w.offered(ev):
            continue
        do(w, ev, ctx)
    w.verify(ctx, "")
    ctx.state(w.canon())
    ctx.outcome(len(w.ms), len(w.mc), len(w.ml))


def main(r):
    import itertools

    for name in ALPHA:
        for k, seed in enumerate(SEEDS[name]):
            d = (5 if k == 0 else 3) if r.quick else (7 if k == 0 else 5)
            r.bfs(step, [(name,) + seed], d, name=f"bfs-{name}-{k}")
    # unmerged sequences from the full topology: catches hidden state that the
    # canonical form does not show
    items = []
    for name in ALPHA:
        ev = events_of(ALPHA[name])
        for k in ((2,) if r.quick else (3,)):
            for s in itertools.product(ev, repeat=k):
                items.append((name, SEEDS[name][1], s))
    # remove / re-add cycles of every object, then remove everything again
    for name in ALPHA:
        cfg = ALPHA[name]
        ev = events_of(cfg)
        rem = [e for e in ev if e[0][0] == "-"]
        add = [e for e in ev if e[0][0] == "+"]
        for a in rem:
            for b in add:
                for c in rem:
                    items.append((name, SEEDS[name][1], (a, b) + tuple(add) + (c,)))
    r.map(seq, items, name="unmerged-sequences")

"""C02: status lifecycle and identity of sites, sectors and links.

Full enumeration of (component statuses) x (requested status), plus a breadth
first search over status-change histories of a two-site system.
"""
import itertools

from tg import *  # noqa

IMM = {EXISTING, UNAVAILABLE}
ACT = {PROPOSED, EXISTING}


def may_change(a, b):
    return not ({a, b} & IMM)


def sector_ok(site_status, s):
    if site_status in ACT:
        return s in (CANDIDATE, PROPOSED, EXISTING)
    return s == site_status


def link_ok(a, b, s):
    pair = {a, b}
    if s == EXISTING and pair != {EXISTING}:
        return False
    if UNAVAILABLE in pair and s != UNAVAILABLE:
        return False
    if UNREACHABLE in pair and s not in (UNREACHABLE, UNAVAILABLE):
        return False
    if CANDIDATE in pair and s in ACT:
        return False
    return True


def attempt(f):
    try:
        f()
        return True
    except PlannerException:
        return False


def statics(item, c):
    """Construction and single transitions for one triple of statuses."""
    st_a, st_b, s = item
    a, b = site(DN, status=st_a), site(POP, 100, 0, status=st_b)
    # construction of the link
    made = []
    ok = attempt(lambda: made.append(Link(tx_site=a, rx_site=b, status_type=s)))
    c.eq(ok, link_ok(st_a, st_b, s), f"link-ctor:{item}")
    if ok:
        l = made[0]
        c.eq(l.status_type, s, "link-ctor-status")
        for n in STATUSES:
            l = Link(tx_site=a, rx_site=b, status_type=s)
            ok = attempt(lambda: setattr(l, "status_type", n))
            want = may_change(s, n) and link_ok(st_a, st_b, n)
            c.eq(ok, want, f"link-set:{item}:{n}")
            c.eq(l.status_type, n if want else s, f"link-after:{item}:{n}")
            c.outcome("l", ok)
    # sector on site a
    made = []
    ok = attempt(lambda: made.append(Sector(a, 0, 0, 0.0, status_type=s)))
    c.eq(ok, sector_ok(st_a, s), f"sector-ctor:{st_a}:{s}")
    if ok:
        for n in STATUSES:
            x = Sector(a, 0, 0, 0.0, status_type=s)
            ok = attempt(lambda: setattr(x, "status_type", n))
            want = may_change(s, n) and sector_ok(st_a, n)
            c.eq(ok, want, f"sector-set:{st_a}:{s}:{n}")
            c.eq(x.status_type, n if want else s, f"sector-after:{st_a}:{s}:{n}")
            c.outcome("c", ok)
    # site a
    x = site(DN, status=st_a)
    ok = attempt(lambda: setattr(x, "status_type", s))
    c.eq(ok, may_change(st_a, s), f"site-set:{st_a}:{s}")
    c.eq(x.status_type, s if may_change(st_a, s) else st_a, f"site-after:{st_a}:{s}")
    c.outcome("s", ok)
    c.state(item)


def history(hist, c):
    """hist = (initial statuses, event, event, ...)."""
    (ia, ib, isec, ilink), evs = hist[0], hist[1:]
    a, b = site(DN, status=ia), site(POP, 100, 0, status=ib)
    sec = Sector(a, 0, 0, 0.0, status_type=isec)
    l = Link(tx_site=a, rx_site=b, status_type=ilink)
    m = [ia, ib, isec, ilink]
    objs = [a, b, sec, l]
    for k, s in evs:
        want = may_change(m[k], s)
        if k == 2:
            want = want and sector_ok(m[0], s)
        if k == 3:
            want = want and link_ok(m[0], m[1], s)
        ok = attempt(lambda: setattr(objs[k], "status_type", s))
        c.eq(ok, want, f"history-step:{k}")
        if want:
            m[k] = s
        c.eq([o.status_type for o in objs], m, "history-state")
    for k, i0 in enumerate((ia, ib, isec, ilink)):
        if i0 in IMM:
            c.eq(objs[k].status_type, i0, "immutable-changed")
        else:
            c.check(objs[k].status_type not in IMM, "became-immutable")
    c.outcome(tuple(x.value for x in m))
    c.out = (
        tuple(x.value for x in m) + tuple(x.value for x in (ia, ib, isec, ilink)),
        [(k, s) for k in range(4) for s in STATUSES],
    )


def predicates(item, c):
    c.eq(StatusType.immutable_status(), IMM, "immutable_status")
    c.eq(StatusType.active_status(), ACT, "active_status")
    c.eq(StatusType.inactive_status(), {UNAVAILABLE, UNREACHABLE}, "inactive_status")
    c.eq(StatusType.reachable_status(), {PROPOSED, EXISTING, CANDIDATE}, "reachable")
    c.eq(SiteType.dist_site_types(), {POP, DN}, "dist types")
    # the returned sets are fresh: mutating one does not poison the next call
    StatusType.active_status().add(CANDIDATE)
    StatusType.immutable_status().clear()
    c.eq(StatusType.active_status(), ACT, "active-set-shared")
    c.eq(StatusType.immutable_status(), IMM, "immutable-set-shared")
    for lt in LinkType:
        c.eq(lt.is_wireless(), lt != LinkType.ETHERNET, f"is_wireless:{lt}")
    c.outcome("pred")


def identity(item, c):
    """Two sites have the same identity iff type, position and device agree."""
    (t1, p1, d1), (t2, p2, d2) = item
    devs = {"A": dn_device("A"), "B": dn_device("B"), "C": cn_device("C"), "D": cn_device("D")}

    def mk(t, p, d, **kw):
        return site(t, location=GeoLocation(latitude=p[0], longitude=p[1], altitude=p[2]), device=devs[d], **kw)

    def legal(t, d):
        return (t == CN) == (d in "CD")

    for t, p, d in item:
        if not legal(t, d):
            c.raises(lambda: mk(t, p, d), PlannerException, f"device-type:{t}:{d}")
    if not (legal(t1, d1) and legal(t2, d2)):
        return
    a = mk(t1, p1, d1, name="x", status=CANDIDATE)
    b = mk(t2, p2, d2, name="", status=PROPOSED, subs=4, loc=LocationType.ROOFTOP, building=3)
    c.eq(a.site_id == b.site_id, (t1, p1, d1) == (t2, p2, d2), "site_id-iff")
    c.eq(a.site_hash == b.site_hash, p1[:2] == p2[:2], "site_hash-iff")
    c.eq(b.name, b.site_id, "default-name")
    c.eq(a.name, "x", "given-name")
    c.eq(b.number_of_subscribers, 4 if t2 == CN else 0, "subs")
    c.eq(a.number_of_subscribers, 1 if t1 == CN else 0, "subs-default")
    c.outcome(a.site_id == b.site_id, a.site_hash == b.site_hash)
    c.state(item)
    # links: id determined by the ordered pair of sites; hash by the unordered pair
    if a.site_type != CN:
        l = Link(tx_site=a, rx_site=b)
        c.eq(l.link_id, Link.get_link_id_by_site_ids(a.site_id, b.site_id), "link_id")
        for w in (True, False):
            l = Link(tx_site=a, rx_site=b, is_wireless=w)
            c.eq(
                l.link_type,
                LinkType.ETHERNET if not w else LinkType.WIRELESS_ACCESS if t2 == CN else LinkType.WIRELESS_BACKHAUL,
                "link_type",
            )
        c.eq(l.sorted_site_ids, tuple(sorted((a.site_id, b.site_id))), "sorted ids")
        if t2 != CN:
            r = Link(tx_site=b, rx_site=a)
            c.eq(r.link_hash, l.link_hash, "hash symmetric")
            c.eq(r.link_id == l.link_id, a.site_id == b.site_id, "id directed")
            c.eq(r.sorted_site_ids, l.sorted_site_ids, "sorted sym")
    else:
        c.raises(lambda: Link(tx_site=a, rx_site=b), PlannerException, "cn-as-tx")


def location_rules(item, c):
    loc, building = item
    ok = attempt(lambda: site(DN, loc=loc, building=building))
    c.eq(ok, (loc == LocationType.ROOFTOP) == (building is not None), f"building:{item}")
    c.outcome(ok)
    c.state(item)


def sectors(item, c):
    """Sector identity and the link/sector wiring rules."""
    ta, tb = item
    a, b, other = site(ta, 0, 0, status=PROPOSED), site(tb, 100, 0, status=PROPOSED), site(DN, 0, 300, status=PROPOSED)
    twin = site(ta, 0, 0, status=PROPOSED)
    ids = {}
    for s in (a, b, other):
        for n in range(3):
            for p in range(3):
                x = Sector(s, n, p, 5.0)
                ids.setdefault(x.sector_id, []).append((s.site_id, n, p))
                c.eq(x.sector_type, SectorType.CN if s.site_type == CN else SectorType.DN, "sector type")
                c.eq((x.node_id, x.position_in_node, x.site), (n, p, s), "sector attrs")
                c.eq(x.node_capex, s.device.node_capex, "node capex")
    c.check(all(len(v) == 1 for v in ids.values()) and len(ids) == 27, "sector ids unique")
    sa, sb, so = Sector(a, 0, 0, 1.0), Sector(b, 0, 0, 2.0), Sector(other, 0, 0, 3.0)
    st = Sector(twin, 0, 0, 1.0)
    if ta == CN:
        c.raises(lambda: Link(tx_sector=sa, rx_sector=sb), PlannerException, "cn-tx-sector")
        return
    l = Link(tx_sector=sa, rx_sector=sb)
    c.eq((l.tx_site, l.rx_site), (a, b), "sites from sectors")
    c.eq((l.tx_sector, l.rx_sector), (sa, sb), "sectors kept")
    c.check(not l.is_out_of_sector(), "in sector")
    for kw, name in (
        (dict(tx_site=a, rx_site=b, tx_sector=sa), "one-sided-1"),
        (dict(tx_site=a, rx_site=b, rx_sector=sb), "one-sided-2"),
        (dict(tx_site=a, rx_site=b, tx_sector=so, rx_sector=sb), "foreign-tx"),
        (dict(tx_site=a, rx_site=b, tx_sector=sa, rx_sector=so), "foreign-rx"),
        (dict(tx_site=a, rx_site=b, tx_sector=sb, rx_sector=sa), "swapped"),
        (dict(tx_site=a, rx_site=b, tx_sector=st, rx_sector=sb), "twin"),
        (dict(rx_site=b), "no-tx"),
        (dict(tx_site=a), "no-rx"),
    ):
        c.raises(lambda: Link(**kw), PlannerException, f"link-wiring:{name}")
    for name, s in (("tx_sector", so), ("rx_sector", so), ("tx_sector", sb), ("rx_sector", sa)):
        c.raises(lambda: setattr(l, name, s), PlannerException, f"sector-set:{name}")
    c.eq((l.tx_sector, l.rx_sector), (sa, sb), "unchanged after refusal")
    for st_l in (CANDIDATE, PROPOSED):
        for ca, cb in itertools.product((-1, 0, 1), repeat=2):
            sa.channel, sb.channel = ca, cb
            l = Link(tx_sector=sa, rx_sector=sb, status_type=st_l)
            if st_l == CANDIDATE:
                c.eq(l.link_channel, -1, "inactive channel")
            elif ca == cb:
                c.eq(l.link_channel, ca, "channel")
            else:
                c.raises(lambda: l.link_channel, PlannerException, "channel mismatch")
    l.clear_sectors()
    c.check(l.is_out_of_sector() and l.tx_sector is None and l.rx_sector is None, "cleared")
    c.eq(l.link_channel, -1, "channel without sectors")
    c.outcome(ta.value, tb.value)


def detected(item, c):
    t, k = item
    d = DetectedSite(t, utm(1, 2, 3.0), k)
    c.eq(d.device, None, "detected has no device")
    c.eq((d.status_type, d.location_type, d.building_id), (CANDIDATE, LocationType.ROOFTOP, k), "detected attrs")
    dev = CN_DEV if t == CN else DN_DEV
    s = d.to_site(dev)
    c.eq(
        (s.site_type, s.latitude, s.longitude, s.altitude, s.device, s.building_id, s.status_type),
        (t, d.latitude, d.longitude, 3.0, dev, k, CANDIDATE),
        "to_site",
    )
    c.eq(s.site_id, site(t, location=utm(1, 2, 3.0), device=dev).site_id, "to_site id")
    c.raises(lambda: Topology(sites=[d]), PlannerException, "detected in topology")
    c.raises(lambda: d.to_site(DN_DEV if t == CN else CN_DEV), PlannerException, "wrong device")
    c.outcome(t.value)


def main(r):
    r.map(predicates, [0], name="predicates")
    r.map(statics, itertools.product(STATUSES, repeat=3), name="status-triples")
    inits = [
        (a, b, s, l)
        for a, b, s, l in itertools.product(STATUSES, repeat=4)
        if sector_ok(a, s) and link_ok(a, b, l)
    ]
    r.bfs(history, [(i,) for i in inits], 2 if r.quick else 4, name="status-histories")
    pos = [(10.0, 20.0, 5.0), (10.0, 20.0, None), (10.0, 20.0, 6.0), (10.00001, 20.0, 5.0), (10.0, 20.00001, 5.0), (10.0, 20.0, 0.0), (20.0, 10.0, 5.0), (-10.0, 20.0, 5.0), (1.0, 12.0, 5.0), (1.01, 2.0, 5.0), (10.0, 20.0, -5.0)]
    one = list(itertools.product((CN, DN, POP), pos, "ABCD"))
    r.map(identity, itertools.product(one, repeat=2), name="site-identity")
    r.map(location_rules, itertools.product(LocationType, (None, -1, 0, 7)), name="building-ids")
    r.map(sectors, itertools.product((CN, DN, POP), repeat=2), name="sectors")
    r.map(detected, itertools.product((CN, DN, POP), (0, 5)), name="detected")

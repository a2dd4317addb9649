"""C06: radio table files (modulation table, scan pattern, antenna pattern).

Every file of a bounded grammar (column permutations, header spellings, row
orders, value tables, malformations) is written to a scratch directory, loaded
through the public device configuration and compared with what the file says.
"""
import itertools
import os
import tempfile

from tg import *  # noqa
from terragraph_planner.common.data_io.csv_library import (
    read_antenna_pattern_data,
    read_mcs_snr_mbps_map_data,
    read_scan_pattern_data,
)

COLS = ("mcs", "snr", "mbps", "tx_backoff")
TABLES = [
    [(3, 3, 0, 0), (9, 12, 741.25, 0), (12, 18, 1800, 6)],
    [(1, -2.5, 10, 0), (2, 0, 10, 1)],
    [(4, 4.5, 67.5, 0), (6, 4.5, 67.5, 0), (7, 9, 100, 2.5)],
    [(5, 7, 300, 1)],
]


class Tmp:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix="c06_")
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


def put(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def spell(col, how):
    return {
        "plain": col,
        "upper": col.upper(),
        "pad": f"  {col} ",
        "unit": col if col == "tx_backoff" else f"{col.title()} (x)",
    }[how]


def allowed(rows, p):
    if p.get("minimum_mcs_level") is not None and max(r[0] for r in rows) < p["minimum_mcs_level"]:
        return None
    out = [
        r
        for r in rows
        if (p.get("minimum_mcs_level") is None or r[0] >= p["minimum_mcs_level"])
        and (p.get("minimum_tx_power") is None or p.get("maximum_tx_power", 16.0) - r[3] >= p["minimum_tx_power"])
    ]
    return out or None


def mcs_ok(item, c):
    ti, perm, how, ncol = item
    rows = TABLES[ti] if ncol == 4 else [r[:3] + (0,) for r in TABLES[ti]]
    cols = [k for k in perm if ncol == 4 or k != "tx_backoff"]
    with Tmp() as d:
        for order in itertools.permutations(range(len(rows))):
            text = ",".join(spell(k, how) for k in cols) + "\n"
            for i in order:
                text += ",".join(str(rows[i][COLS.index(k)]) for k in cols) + "\n"
            path = put(d, "m.csv", text)
            for p in (
                {},
                {"minimum_mcs_level": 4},
                {"minimum_mcs_level": 9},
                {"minimum_tx_power": 14.0},
                {"minimum_tx_power": 16.0},
                {"minimum_mcs_level": 2, "minimum_tx_power": 15.0},
                {"minimum_mcs_level": 2, "minimum_tx_power": 5.0, "maximum_tx_power": 7.5},
            ):
                want = allowed([rows[i] for i in order], p)
                if want is None:
                    c.raises(lambda: SectorParams(mcs_map_file_path=path, **p), PlannerException, "mcs-none-allowed", f"{text!r} {p}")
                    continue
                got = SectorParams(mcs_map_file_path=path, **p).mcs_map
                c.eq([tuple(g) for g in got], [tuple(w) for w in want], "mcs-table", f"{text!r} {p}")
                c.check(all(isinstance(g.mcs, int) for g in got), "mcs-level-type", str(got))
                c.outcome(len(got))


def default_table(item, c):
    mcs, tx = item
    rows = [
        (3, 3, 0, 0), (4, 4.5, 67.5, 0), (5, 5, 115, 0), (6, 5.5, 260, 0),
        (7, 7.5, 452.5, 0), (8, 9, 645, 0), (9, 12, 741.25, 0), (10, 14, 1030, 2),
        (11, 16, 1415, 4), (12, 18, 1800, 6),
    ]
    p = dict(minimum_mcs_level=mcs, minimum_tx_power=tx)
    want = allowed(rows, p)
    if want is None:
        c.raises(lambda: SectorParams(**p), PlannerException, "mcs-none-allowed", str(p))
        return
    c.eq([tuple(g) for g in SectorParams(**p).mcs_map], want, "mcs-default-table", str(p))
    c.outcome(len(want))


BAD = {
    "missing": "mcs,snr\n3,3\n4,5\n",
    "missing2": "mcs,mbps,tx_backoff\n3,3,0\n",
    "renamed": "mcs,snr,rate\n3,3,0\n4,5,6\n",
    "twice": "mcs,snr,snr\n3,3,0\n4,5,6\n",
    "twice4": "mcs,snr,mbps,mbps\n3,3,0,0\n4,5,6,0\n",
    "joined": "mcs_snr,mbps,x\n3,3,0\n4,5,6\n",
    "extra": "mcs,snr,mbps,tx_backoff,other\n3,3,0,0,1\n4,5,6,0,1\n",
    "extra3": "mcs,snr,mbps,other\n3,3,0,0\n4,5,6,0\n",
    "short-row": "mcs,snr,mbps\n3,3\n4,5,6\n",
    "long-row": "mcs,snr,mbps\n3,3,0\n4,5,6,7\n",
    "short-row4": "mcs,snr,mbps,tx_backoff\n3,3,0,0\n4,5,6\n",
    "word": "mcs,snr,mbps\n3,3,0\n4,x,6\n",
    "blank-cell": "mcs,snr,mbps\n3,3,0\n4,,6\n",
    "word-mcs": "mcs,snr,mbps\nMCS3,3,0\n",
    "word-back": "mcs,snr,mbps,tx_backoff\n3,3,0,none\n",
    "no-rows": "mcs,snr,mbps\n",
    "empty": "",
}


def mcs_bad(item, c):
    with Tmp() as d:
        path = put(d, "m.csv", BAD[item])
        c.raises(lambda: read_mcs_snr_mbps_map_data(path, SectorParams()), PlannerException, f"mcs-malformed:{item}", BAD[item])
        c.raises(lambda: read_mcs_snr_mbps_map_data(os.path.join(d, "absent.csv"), SectorParams()), PlannerException, "mcs-absent")


def mcs_order(item, c):
    """Three rows over a two value alphabet per column: accepted iff consistent."""
    snr, mbps, back = item
    rows = list(zip((3, 5, 8), snr, mbps, back))
    good = all(a <= b for col in (snr, mbps, back) for a, b in zip(col, col[1:]))
    with Tmp() as d:
        for order in itertools.permutations(range(3)):
            path = put(d, "m.csv", "mcs,snr,mbps,tx_backoff\n" + "".join(",".join(map(str, rows[i])) + "\n" for i in order))
            f = lambda: read_mcs_snr_mbps_map_data(path, SectorParams())  # noqa
            if good:
                c.eq([tuple(x) for x in f()], [rows[i] for i in order], "mcs-consistent-accepted", f"{item} {order}")
            else:
                c.raises(f, PlannerException, "mcs-inconsistent-rejected", f"{item} {order}")
            c.outcome(good)


JUNK = ("nan", "inf", "-inf", "", "x", "1e999", "NA")


def mcs_cell(item, c):
    """Every entry of a table replaced by something that is not a number."""
    ti, n = item
    rows = TABLES[ti][:n]
    with Tmp() as d:
        for i, j in itertools.product(range(len(rows)), range(4)):
            for junk in JUNK + (("3.5",) if j == 0 else ()):
                cells = [list(map(str, r)) for r in rows]
                cells[i][j] = junk
                text = ",".join(COLS) + "\n" + "".join(",".join(r) + "\n" for r in cells)
                path = put(d, "m.csv", text)
                c.raises(lambda: SectorParams(mcs_map_file_path=path), PlannerException, "mcs-cell", repr(text))
                c.state(text)


# ---------------------------------------------------------------- scan pattern
def scan_bad(item, c):
    """Every cell of a scan pattern malformed, missing or repeated."""
    hs, vs = item
    table = [["x"] + [str(v) for v in vs]] + [[str(h)] + [str(20 - abs(h) / 8 - v / 16) for v in vs] for h in hs]
    join = lambda t: "".join(",".join(r) + "\n" for r in t)  # noqa
    with Tmp() as d:
        def bad(t, key):
            path = put(d, "s.csv", join(t))
            c.state(join(t))
            c.raises(lambda: SectorParams(scan_pattern_file_path=path), PlannerException, key, repr(join(t)))

        for i, j in itertools.product(range(len(table)), range(len(table[0]))):
            if (i, j) == (0, 0):
                continue
            for junk in JUNK:
                t = [list(r) for r in table]
                t[i][j] = junk
                bad(t, "scan-cell")
        for i in range(1, len(table)):
            bad([r[:-1] if k == i else r for k, r in enumerate(table)], "scan-short-row") if len(vs) > 1 or len(hs) == 1 else None
            bad(table + [table[i]], "scan-angle-twice")
            bad(table + [[table[i][0] + ".0"] + table[i][1:]], "scan-angle-twice")
        bad(table[:1], "scan-no-rows")
        bad([r[:1] for r in table], "scan-no-columns")
        for perm in itertools.islice(itertools.permutations(range(1, len(table))), 24):
            t = [table[0]] + [table[i] for i in perm]
            got = read_scan_pattern_data(put(d, "s.csv", join(t)))
            c.close(got, {float(h): {float(v): 20 - abs(h) / 8 - v / 16 for v in vs} for h in hs}, "scan-row-order", join(t), tol=1e-12)


def scan(item, c):
    hs, vs, fmt = item
    want = {float(h): {float(v): 20 - abs(h) / 8 - v / 16 for v in vs} for h in hs}
    with Tmp() as d:
        text = "x," + ",".join(fmt % v for v in vs) + "\n"
        for h in hs:
            text += fmt % h + "," + ",".join(repr(want[h][v]) for v in vs) + "\n"
        got = read_scan_pattern_data(put(d, "s.csv", text))
        c.close(got, want, "scan-pattern", text, tol=1e-12)
        c.check(all(isinstance(k, float) and all(isinstance(q, float) for q in r) for k, r in got.items()), "scan-key-type", text)
        p = SectorParams(scan_pattern_file_path=os.path.join(d, "s.csv"))
        c.close(p.scan_pattern_data, want, "scan-pattern-config", text, tol=1e-12)
        c.raises(lambda: read_scan_pattern_data(os.path.join(d, "no.csv")), PlannerException, "scan-absent")


# ------------------------------------------------------------- antenna pattern
def pln(ants, sep, order, extra):
    out = []
    for a in ants:
        out.append(f"NAME{sep}{a}")
        if extra:
            out += [f"MAKE{sep}t", f"FREQUENCY{sep}60000", f"GAIN{sep}20 dBi" if sep != " " else f"GAIN{sep}20"]
        for sec in order:
            out.append(f"{sec}{sep}360")
            base = (7.25 if sec == "VERTICAL" else 0.5) + 100 * ants.index(a)
            out += [f"{i}{sep}{base + i / 8}" for i in range(360)]
    return "\n".join(out) + "\n"


def antenna(item, c):
    ants, sep, order, extra = item
    with Tmp() as d:
        text = pln(ants, sep, order, extra)
        path = put(d, "a.txt", text)
        got = SectorParams(antenna_pattern_file_path=path).antenna_pattern_data
        want = {}
        for k, a in enumerate(ants):
            want[a.strip().lower()] = [
                [-(0.5 + 100 * k + i / 8) for i in range(360)],
                [-(7.25 + 100 * k + i / 8) for i in range(360)],
            ]
        c.eq(list(got), list(want), "antenna-names", str(item))
        c.close({k: list(map(list, v)) for k, v in got.items()}, want, "antenna-pattern", str(item))
        lines = text.splitlines()
        h = next(i for i, l in enumerate(lines) if l.startswith(order[0]))
        # one angle missing in the first table; not a table at all; no name
        for key, t in {
            "missing-angle": lines[: h + 10] + lines[h + 11 :],
            "missing-last-angle": lines[:-1],
            "no-name": [l for l in lines if not l.startswith("NAME")],
            "prose": ["this is", "not a pattern"],
            "empty": [],
        }.items():
            p2 = put(d, "b.txt", "\n".join(t) + "\n")
            c.raises(lambda: read_antenna_pattern_data(p2), PlannerException, f"antenna-{key}", str(item))
        c.raises(lambda: read_antenna_pattern_data(os.path.join(d, "no.txt")), PlannerException, "antenna-absent")


def antenna_rows(item, c):
    """Rows in any order; rows, cells and whole tables malformed or missing."""
    na, sep, which = item
    ants = ["a", "b"][:na]

    def text(tables):
        return "".join(f"NAME{sep}{a}\n" + "".join(f"{k}{sep}360\n" + "".join(f"{x}{sep}{y}\n" for x, y in tables[a, k]) for k in ("HORIZONTAL", "VERTICAL")) for a in ants)

    base = {(a, k): [(str(i), str(i / 8 + 50 * (k == "VERTICAL") + 100 * (a == "b"))) for i in range(360)] for a in ants for k in ("HORIZONTAL", "VERTICAL")}
    want = {a: [[-float(y) for _, y in base[a, k]] for k in ("HORIZONTAL", "VERTICAL")] for a in ants}
    with Tmp() as d:
        rows = base[which]
        orders = {
            "reversed": rows[::-1],
            "signed": [(str(int(x) - 360 if int(x) > 180 else x), y) for x, y in rows[181:] + rows[:181]],
            "from-one": [(x if x != "0" else "360", y) for x, y in rows[1:] + rows[:1]],
            "swapped": rows[:7] + [rows[8], rows[7]] + rows[9:],
            "decimals": [(x + ".0", y) for x, y in rows],
        }
        # a gain above the reference is a negative loss
        gain = rows[:3] + [("3", "-1.5"), ("4", "-0.25")] + rows[5:]
        got = read_antenna_pattern_data(put(d, "a.txt", text({**base, which: gain})))
        w2 = {a: [list(v) for v in t] for a, t in want.items()}
        w2[which[0]][which[1] == "VERTICAL"][3:5] = [1.5, 0.25]
        c.close({k: list(map(list, v)) for k, v in got.items()}, w2, "antenna-gain", str(item))
        for key, v in orders.items():
            t = text({**base, which: v})
            got = read_antenna_pattern_data(put(d, "a.txt", t))
            c.state(key)
            c.close({k: list(map(list, v)) for k, v in got.items()}, want, "antenna-row-order", f"{key} {item}")
        spaced = text(base).replace("HORIZONTAL", f"{sep}\nHORIZONTAL").replace("VERTICAL", f"{sep}\nVERTICAL") if sep != " " else text(base)
        got = read_antenna_pattern_data(put(d, "a.txt", spaced))
        c.close({k: list(map(list, v)) for k, v in got.items()}, want, "antenna-blank-rows", str(item))
        bad = {
            "angle-twice": rows[:5] + [rows[4]] + rows[6:],
            "angle-beyond": rows[:5] + [("365.5", "1")] + rows[6:],
            "missing": rows[:5] + rows[6:],
        }
        for i in (0, 5, 359):
            for junk in JUNK:
                bad[f"value {i} {junk!r}"] = rows[:i] + [(str(i), junk)] + rows[i + 1 :]
                bad[f"angle {i} {junk!r}"] = rows[:i] + [(junk, "1")] + rows[i + 1 :]
        for key, v in bad.items():
            path = put(d, "b.txt", text({**base, which: v}))
            c.state(key)
            c.raises(lambda: SectorParams(antenna_pattern_file_path=path), PlannerException, "antenna-malformed", f"{key} {item}")
        for word in ("HORIZONTAL", "VERTICAL"):
            t = text(base)
            i = t.index(word) if which[0] == "a" else t.rindex(word)
            path = put(d, "b.txt", t[:i] + "OTHER" + t[i + len(word) :])
            c.raises(lambda: SectorParams(antenna_pattern_file_path=path), PlannerException, "antenna-table-missing", f"{word} {item}")


def main(r):
    perms = list(itertools.permutations(COLS))
    r.map(mcs_ok, [(t, p, h, n) for t in range(len(TABLES)) for p in perms for h in ("plain", "upper", "pad", "unit") for n in (3, 4)
                   if not (n == 3 and p[-1] != "tx_backoff")])
    r.map(default_table, [(m, t) for m in [None] + list(range(0, 14)) for t in (None, -3.0, 9.0, 10.0, 10.5, 12.0, 13.5, 14.0, 16.0)])
    r.map(mcs_bad, list(BAD))
    r.map(mcs_cell, [(t, n) for t in range(len(TABLES)) for n in (1, 2, 3)])
    r.map(scan_bad, [(hs, vs) for hs in ((-10, 0, 10), (0,), (5, -5)) for vs in ((0,), (-20, 0, 20), (10, 0))])
    r.map(antenna_rows, [(n, s, (a, k)) for n in (1, 2) for s in ("\t", " ", ",") for a in ("a", "b")[:n] for k in ("HORIZONTAL", "VERTICAL")])
    vals = list(itertools.product((1.0, 2.0), repeat=3)) if r.quick else list(itertools.product((1.0, 2.0, 3.0), repeat=3))
    r.map(mcs_order, list(itertools.product(vals, repeat=3)))
    r.map(scan, [(hs, vs, f) for hs in ((-10, 0, 10), (0,), (5, -5), (-45, -30, -15, 0, 15, 30, 45)) for vs in ((0,), (-20, 0, 20), (10, 0), (-5, -2, 1)) for f in ("%d", "%.1f", "%.3f")])
    r.map(antenna, [(a, s, o, e) for a in (("one",), ("One X", "two"), ("b", "a", "C")) for s in ("\t", " ", ",") for o in (("HORIZONTAL", "VERTICAL"), ("VERTICAL", "HORIZONTAL")) for e in (False, True)
                    if not (s == " " and any(" " in x for x in a))])

"""C26: a solver that runs out of time or finds nothing never corrupts a plan."""
import itertools
import logging
import os
import re
import tempfile

import xpress as xp

import c25
import tg
from c19 import mix
from tg import CANDIDATE, CN, DN, EXISTING, POP, PROPOSED, UNAVAILABLE
from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization import topology_preparation as tp

# T1..T3: out of time without solution; I: infeasible; O: out of time, the
# incumbent happens to be optimal; B: out of time with the worst incumbent
KINDS = ("T1", "T2", "T3", "I", "O", "B")
STEPS = ("POPProposalNetwork", "MinCostNetwork", "MaxCoverageNetwork", "RedundantNetwork", "MinInterferenceNetwork", "MaxFlowNetwork")
REAL = xp.problem.solve


class Solver:
    """Controls how each solve of a planning run ends."""

    def __init__(self, pick):
        self.pick, self.log, self.n = pick, [], {}

    def __enter__(self):
        s = self

        def solve(p, *a, **kw):
            i = len(s.log)
            k = s.n[p.name] = s.n.get(p.name, 0) + 1
            kind = s.pick(i, p.name, k)
            s.log.append((p.name, kind))
            if kind is None:
                return REAL(p, *a, **kw)
            if kind in ("O", "B"):
                obj, sense = p.obj, p.sense
                if kind == "B":
                    p.sense = -sense
                REAL(p, *a, **kw)
                if p.attributes.mipsols == 0 and kind == "B":
                    p.obj = obj * 0
                    REAL(p, *a, **kw)
                p.obj, p.sense = obj, sense
                if p.attributes.mipsols:
                    p.attributes.mipstatus = xp.mip_solution
                return
            p.attributes = type(p.attributes)()
            p._sol = None
            p.attributes.mipsols = 0
            if kind == "I":
                p.attributes.lpstatus, p.attributes.mipstatus = xp.lp_infeas, xp.mip_infeas
            else:
                p.attributes.mipstatus = {"T1": xp.mip_lp_not_optimal, "T2": xp.mip_lp_optimal, "T3": xp.mip_no_sol_found}[kind]

        xp.problem.solve = solve
        self.out = []
        self.h = logging.Handler(logging.WARNING)
        self.h.emit = lambda r: self.out.append(r.getMessage())
        self.level = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        logging.getLogger("terragraph_planner").addHandler(self.h)
        return self

    def __exit__(self, *a):
        xp.problem.solve = REAL
        logging.getLogger("terragraph_planner").removeHandler(self.h)
        logging.disable(self.level)


def go(inst, pk, pick=lambda i, n, k: None):
    with tempfile.TemporaryDirectory() as tmp, Solver(pick) as s:
        t, p, err = c25.run(inst, pk, False, tmp)
        fs = sorted(x for _, _, b in os.walk(tmp) for x in b)
    return t, p, err, s, fs


TIME = re.compile("timed.?out")


def faults(item, c):
    inst, pk, deep = item
    t0, p0, err0, s0, fs0 = go(inst, pk)
    c.state(f"{pk} {inst}")
    c.outcome(err0)
    if err0 is not None:
        return
    plan0 = c25.plan_of(t0)
    n = len(s0.log)
    names = [x for x, _ in s0.log]
    c.outcome(str(names))
    for i in range(n):
        for kind in KINDS:
            one(c, inst, pk, f"solve {i} of {names} ends {kind}: {pk} {inst}", lambda j, m, k: kind if j == i else None, {i: kind}, names, plan0)
    if deep:
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product(("T3", "I", "B"), repeat=2):
                d = {i: a, j: b}
                one(c, inst, pk, f"solves {d} of {names}: {pk} {inst}", lambda q, m, k: d.get(q), d, names, plan0)
    for step in sorted(set(names)):
        for kind in KINDS:
            whole(c, inst, pk, step, kind, plan0, fs0, names)


def one(c, inst, pk, msg, pick, d, names, plan0):
    t, p, err, s, _ = go(inst, pk, pick)
    c.state(str(d) + msg)
    c.outcome(err)
    if err is not None:
        if any(names[i] == "POPProposalNetwork" and v != "O" for i, v in d.items()):
            return  # the given or other POPs may not do
        if any(d.get(names.index(x)) == "B" for x in ("MinCostNetwork", "MinInterferenceNetwork")):
            return  # which demand can be connected at all was not found out
        # without a single unit of flow an incumbent is no plan
        c.check(any(v[0] in "TI" or (v == "B" and names[i] == "MinInterferenceNetwork") for i, v in d.items()), "error", f"{err}: {msg}")
        if TIME.search(err):
            c.check(any(v != "I" for v in d.values()), "says-timeout", f"{err}: {msg}")
        elif all(v != "I" for v in d.values()):
            c.fail("says-timeout", f"{err}: {msg}")
        return
    c25.network(c, inst, pk, t, p, msg)
    if all(v == "O" for v in d.values()):
        c.eq(c25.plan_of(t), plan0, "incumbent", msg)


def whole(c, inst, pk, step, kind, plan0, fs0, names):
    """Every solve of one step ends the same way."""
    msg = f"every {step} ends {kind} ({names}): {pk} {inst}"
    t, p, err, s, fs = go(inst, pk, lambda i, m, k: kind if m == step else None)
    c.state(msg)
    c.outcome(err)
    if kind in ("O", "B"):
        if kind == "B" and step == "MinInterferenceNetwork" and err is not None:
            c.check(TIME.search(err), "says-timeout", f"{err}: {msg}")
        elif err is not None and kind == "B" and step in ("POPProposalNetwork", "MinCostNetwork"):
            pass
        elif c.check(err is None, "error", f"{err}: {msg}"):
            c25.network(c, inst, pk, t, p, msg)
            if kind == "O":
                c.eq(c25.plan_of(t), plan0, "incumbent", msg)
        return
    want = kind[0] == "T"
    if step in ("MinCostNetwork", "MinInterferenceNetwork"):
        if c.check(err is not None, "no-error", msg):
            c.eq(bool(TIME.search(err)), want, "says-timeout", f"{err}: {msg}")
        return
    if step == "POPProposalNetwork":
        err1 = go(inst, dict(pk, number_of_extra_pops=0))[2]
        c.eq(err, err1, "without-step-error", msg)
        if err1 is not None:
            return
    if not c.check(err is None, "error", f"{err}: {msg}"):
        return
    c25.network(c, inst, pk, t, p, msg)
    if step == "MaxFlowNetwork":
        got, exp = c25.plan_of(t), plan0
        c.eq([x[:5] for x in got[1]], [x[:5] for x in exp[1]], "plan-links", msg)
        c.eq((got[0], got[2]), (exp[0], exp[2]), "plan", msg)
        c.check(all(l.proposed_flow == 0 for l in t.links.values()), "flow", msg)
        c.eq(fs, fs0, "files", msg)
        return
    off = dict(pk)
    if step == "POPProposalNetwork":
        off["number_of_extra_pops"] = 0
    elif step == "MaxCoverageNetwork":
        off["budget"] = 0.001
    else:
        off["redundancy_level"] = RedundancyLevel.NONE
    t1, _, err1, _, _ = go(inst, off)
    if err1 is None:
        for k, (a, b) in enumerate(zip(c25.plan_of(t), c25.plan_of(t1))):
            c.eq(a, b, f"without-step-{k}", msg)
    # the log says why
    c.eq(any(TIME.search(x) for x in s.out), want, "warns", f"{s.out}: {msg}")


PARAMS = [
    dict(),
    dict(enable_legacy_redundancy_method=True, budget=9000.0, demand=0.4),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.MEDIUM, demand=0.5),
    dict(enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.HIGH),
    dict(number_of_extra_pops=1, demand=0.9, number_of_channels=2),
    dict(number_of_extra_pops=1, enable_legacy_redundancy_method=True, budget=20000.0, backhaul_link_redundancy_ratio=0.5),
    dict(maximize_common_bandwidth=True, demand=0.7),
    dict(maximize_common_bandwidth=True, demand=2.0, enable_legacy_redundancy_method=True, budget=12000.0),
    dict(always_active_pops=False, demand=0.3, enable_legacy_redundancy_method=False, redundancy_level=RedundancyLevel.LOW),
]


def items(quick):
    base = [inst for inst, _ in c25.items(True)]
    out = []
    for k, inst in enumerate(base):
        if quick:
            if mix(k * 11) % 12 == 0:
                out.append((inst, PARAMS[mix(k * 3) % len(PARAMS)], False))
        else:
            out += [(inst, pk, mix(k * 5 + q) % 12 == 0) for q, pk in enumerate(PARAMS) if mix(k * 31 + q) % 6 == 0]
    for k, (inst, pk) in enumerate(c25.rings(quick)):
        if mix(k * 13 + 1) % (12 if quick else 6) == 0:
            out.append((inst, pk, not quick and mix(k) % 12 == 0))
    return out


def main(r):
    r.map(faults, items(r.quick), name="faults")

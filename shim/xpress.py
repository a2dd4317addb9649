"""Stand-in for the (proprietary, not installed) xpress solver API.

Implements the part of the xpress Python API the planner uses: variables,
linear expressions, constraints, objective; models are solved to optimality
with scipy's HiGHS. Only the *solver* is replaced: all model building and all
solution extraction code of the planner runs unchanged.
"""
import math

import numpy as np
from scipy.optimize import LinearConstraint, milp
from scipy.optimize import Bounds
from scipy.sparse import csr_matrix

continuous, binary, integer = 0, 1, 2
minimize, maximize = 1, -1
infinity = math.inf

# status names used by the planner
mip_not_loaded, mip_lp_not_optimal, mip_lp_optimal = 0, 1, 2
mip_no_sol_found, mip_solution, mip_infeas, mip_optimal, mip_unbounded = 3, 4, 5, 6, 7
lp_unstarted, lp_optimal, lp_infeas, lp_cutoff, lp_unfinished, lp_unbounded = 0, 1, 2, 3, 4, 5

# Which of several optimal solutions is returned: None: whichever HiGHS finds;
# "up"/"down": one with the most/least flow and positive decisions; "mix": one
# with every other decision
TIE = None
SOLVES = []  # statistics: (name, rows, cols, status)


def _lin(o):
    if isinstance(o, Expr):
        return o
    if isinstance(o, var):
        return Expr({o: 1.0}, 0.0)
    if isinstance(o, (int, float, np.integer, np.floating)):
        return Expr({}, float(o))
    raise TypeError(f"not a linear expression: {type(o)}")


class _Ops:
    __array_ufunc__ = None
    __slots__ = ()

    def __add__(self, o):
        a, b = _lin(self), _lin(o)
        t = dict(a.t)
        for k, v in b.t.items():
            t[k] = t.get(k, 0.0) + v
        return Expr(t, a.c + b.c)

    __radd__ = __add__

    def __neg__(self):
        a = _lin(self)
        return Expr({k: -v for k, v in a.t.items()}, -a.c)

    def __sub__(self, o):
        return self + (-_lin(o))

    def __rsub__(self, o):
        return (-_lin(self)) + o

    def __mul__(self, o):
        if isinstance(o, (var, Expr)):
            b = _lin(o)
            if not b.t:
                o = b.c
            elif not _lin(self).t:
                return b * _lin(self).c
            else:
                raise TypeError("product of variables is not linear")
        o = float(o)
        a = _lin(self)
        return Expr({k: v * o for k, v in a.t.items()}, a.c * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / float(o))

    def __le__(self, o):
        return constraint(self - _lin(o), -math.inf, 0.0)

    def __ge__(self, o):
        return constraint(self - _lin(o), 0.0, math.inf)

    def __eq__(self, o):
        if not isinstance(o, (_Ops, int, float, np.integer, np.floating)):
            return NotImplemented
        return constraint(self - _lin(o), 0.0, 0.0)

    def __ne__(self, o):
        return NotImplemented


class var(_Ops):
    __slots__ = ("name", "vartype", "lb", "ub", "owner", "_h")
    _count = 0

    def __init__(self, name="", vartype=continuous, lb=0, ub=infinity, **kw):
        self.name, self.vartype = name, vartype
        self.lb, self.ub = float(lb), float(ub)
        if vartype == binary:
            self.lb, self.ub = max(0.0, self.lb), min(1.0, self.ub)
        self.owner = None
        var._count += 1
        self._h = var._count

    def __hash__(self):
        return self._h

    def __bool__(self):
        return True

    def __repr__(self):
        return self.name


class Expr(_Ops):
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t, self.c = t, c

    __hash__ = None

    def __bool__(self):
        return True

    def __repr__(self):
        return " + ".join(f"{v:g}*{k.name}" for k, v in self.t.items()) + f" + {self.c:g}"


class constraint:
    __slots__ = ("expr", "lo", "hi")

    def __init__(self, expr, lo, hi):
        self.expr, self.lo, self.hi = expr, lo, hi

    def __bool__(self):
        # dict lookups compare variables with ==
        return (
            self.lo == 0
            and self.hi == 0
            and self.expr.c == 0
            and all(v == 0 for v in self.expr.t.values())
        )


def _flat(a):
    if isinstance(a, dict):
        for v in a.values():
            yield from _flat(v)
    elif isinstance(a, (_Ops, int, float, np.integer, np.floating, constraint)):
        yield a
    else:
        for v in a:
            yield from _flat(v)


def Sum(*args):
    t, c = {}, 0.0
    for a in _flat(args):
        if isinstance(a, var):
            t[a] = t.get(a, 0.0) + 1.0
        elif isinstance(a, Expr):
            for k, v in a.t.items():
                t[k] = t.get(k, 0.0) + v
            c += a.c
        else:
            c += a
    return Expr(t, c)


class _Attributes:
    def __init__(self):
        self.mipsols = 0
        self.lpstatus = lp_unstarted
        self.mipstatus = mip_not_loaded


def _valid(x, integ, bounds, constraints, tol=1e-6):
    if np.any(x < bounds.lb - tol) or np.any(x > bounds.ub + tol):
        return False
    if np.any(np.abs(x - np.round(x))[integ == 1] > 1e-5):
        return False
    for c in constraints:
        y = c.A @ x
        if np.any(y < np.array(c.lb) - tol) or np.any(y > np.array(c.ub) + tol):
            return False
    return True


class problem:
    def __init__(self, *a, **kw):
        self.name = ""
        self._clear()
        self.controls = {}

    def _clear(self):
        self.vars = []
        self.cons = []
        self.obj = Expr({}, 0.0)
        self.sense = minimize
        self.attributes = _Attributes()
        self._sol = None
        self._objval = None

    def reset(self):
        self._clear()

    def setprobname(self, n):
        self.name = n

    def setControl(self, *a):
        self.controls[a[0] if a else None] = a[1:]

    def addVariable(self, *args):
        for v in _flat(args):
            if v.owner is self and any(v is w for w in ()):
                raise RuntimeError("variable added twice")
            v.owner = self
            self.vars.append(v)

    def delVariable(self, *args):
        gone = {v._h for v in _flat(args)}
        self.vars = [v for v in self.vars if v._h not in gone]
        for con in self.cons:
            for k in [k for k in con.expr.t if k._h in gone]:
                del con.expr.t[k]
        for k in [k for k in self.obj.t if k._h in gone]:
            del self.obj.t[k]

    def addConstraint(self, *args):
        for c in _flat(args):
            if not isinstance(c, constraint):
                raise TypeError(f"not a constraint: {c!r}")
            for k in c.expr.t:
                if k.owner is not self:
                    raise RuntimeError(f"variable {k.name} is not in the problem")
            self.cons.append(c)

    def delConstraint(self, *args):
        gone = {id(c) for c in _flat(args)}
        n = len(self.cons)
        self.cons = [c for c in self.cons if id(c) not in gone]
        if n - len(self.cons) != len(gone):
            raise RuntimeError("constraint not in problem")

    def setObjective(self, expr, sense=None):
        self.obj = _lin(expr)
        if sense is not None:
            self.sense = sense

    def write(self, path, fmt="lp"):
        with open(path, "w") as f:
            f.write(f"{self.name}\nobj {self.obj!r}\n")

    def getIndex(self, v):
        return self._index[v._h]

    @property
    def _index(self):
        return {v._h: i for i, v in enumerate(self.vars)}

    def solve(self, *a, **kw):
        n = len(self.vars)
        index = self._index
        self.attributes = _Attributes()
        self._sol = None
        cons = []
        infeasible = False
        for c in self.cons:
            if not any(v for v in c.expr.t.values()):
                if not (c.lo - 1e-9 <= c.expr.c <= c.hi + 1e-9):
                    infeasible = True
                continue
            cons.append(c)
        if n == 0 or infeasible:
            self.attributes.lpstatus = lp_optimal if not infeasible else lp_infeas
            self.attributes.mipstatus = mip_infeas if infeasible else mip_optimal
            if not infeasible:
                self._sol, self._objval = [], self.obj.c
                self.attributes.mipsols = 1
            SOLVES.append((self.name, len(cons), n, "trivial"))
            return
        cost = np.zeros(n)
        for k, v in self.obj.t.items():
            cost[index[k._h]] += v
        rows, cols, data, lo, hi = [], [], [], [], []
        for i, c in enumerate(cons):
            for k, v in c.expr.t.items():
                rows.append(i)
                cols.append(index[k._h])
                data.append(v)
            lo.append(c.lo - c.expr.c)
            hi.append(c.hi - c.expr.c)
        integ = np.array([0 if v.vartype == continuous else 1 for v in self.vars])
        constraints = []
        if cons:
            constraints = [
                LinearConstraint(csr_matrix((data, (rows, cols)), shape=(len(cons), n)), lo, hi)
            ]
        # HiGHS' presolve reports some feasible models as infeasible, so a model
        # is solved with and without it and the better valid answer counts.
        bounds = Bounds([v.lb for v in self.vars], [v.ub for v in self.vars])
        res = None
        for presolve in (False, True):
            one = milp(
                cost * self.sense,
                integrality=integ,
                bounds=bounds,
                constraints=constraints,
                options=dict(mip_rel_gap=0.0, time_limit=120.0, presolve=presolve),
            )
            if one.x is not None and not _valid(np.array(one.x), integ, bounds, constraints):
                one.x, one.status = None, 4
            if res is None or (one.x is not None and (res.x is None or one.fun < res.fun - 1e-9)):
                res = one
        SOLVES.append((self.name, len(cons), n, res.status))
        if TIE is not None and res.x is not None and res.status == 0:
            res = self._tie(cost * self.sense, res, integ, bounds, constraints)
        if res.x is not None:
            x = np.array(res.x)
            for i, v in enumerate(self.vars):
                if v.vartype != continuous:
                    x[i] = float(round(x[i]))
                elif abs(x[i]) < 1e-9:
                    x[i] = 0.0
            self._sol = x.tolist()
            self._objval = float(cost @ x) + self.obj.c
            self.attributes.mipsols = 1
            self.attributes.lpstatus = lp_optimal
            self.attributes.mipstatus = mip_optimal if res.status == 0 else mip_solution
        elif res.status == 2:
            self.attributes.lpstatus = lp_infeas
            self.attributes.mipstatus = mip_infeas
        elif res.status == 3:
            self.attributes.lpstatus = lp_unbounded
            self.attributes.mipstatus = mip_unbounded
        else:
            self.attributes.lpstatus = lp_unfinished
            self.attributes.mipstatus = mip_no_sol_found

    def _tie(self, cost, res, integ, bounds, constraints):
        """Another optimal solution of the same model."""
        w = np.array([-1.0 if v.vartype == binary or v.name.startswith(("flow", "tdm")) else 0.0 for v in self.vars])
        if TIE == "down":
            w = -w
        elif TIE == "mix":
            w[::2] *= -1
        w[cost != 0] = 0.0
        opt = float(cost @ res.x)
        more = [LinearConstraint(csr_matrix(cost.reshape(1, -1)), -np.inf, opt + 1e-8 * max(1.0, abs(opt)))] if np.any(cost) else []
        top = Bounds(bounds.lb, np.minimum(bounds.ub, np.where(np.isfinite(bounds.ub), bounds.ub, 1e4)))
        for presolve in (True, False):
            one = milp(w, integrality=integ, bounds=top, constraints=constraints + more, options=dict(mip_rel_gap=1e-3, time_limit=60.0, presolve=presolve))
            if one.x is not None and _valid(np.array(one.x), integ, bounds, constraints) and float(cost @ one.x) <= opt + 1e-6 * max(1.0, abs(opt)):
                one.status = 0
                return one
        return res

    def getSolution(self, *a):
        if self._sol is None:
            raise RuntimeError("no solution available")
        return list(self._sol)

    def getObjVal(self):
        return self._objval

    def getAttrib(self, name):
        return getattr(self.attributes, name)

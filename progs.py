"""Solving and re-solving the optimization programs the repository builds."""
import numpy as np
import gurobipy
from gurobipy import GRB


def solve(model, pool=None):
    """Optimal value, or None if infeasible; anything else is inconclusive."""
    m = getattr(model, "gurobi_model", model)
    m.setParam(GRB.Param.OutputFlag, False)
    m.setParam(GRB.Param.DualReductions, 0)
    m.optimize()
    if m.status == GRB.Status.OPTIMAL:
        return m.ObjVal
    if m.status == GRB.Status.INFEASIBLE:
        return None
    raise gurobipy.SolverInconclusive("status %s" % m.status)


def val(vs):
    return np.array([v.x for v in vs])


class Pin:
    """Fix some variables of a program to values and re-solve, repeatedly."""

    def __init__(self, model, vs):
        self.m = getattr(model, "gurobi_model", model)
        self.vs = vs
        self.m.update()
        self.b = [(v.lb, v.ub) for v in vs]

    def at(self, x):
        if any(xi < lo - 1e-9 or xi > up + 1e-9
               for xi, (lo, up) in zip(x, self.b)):
            return None
        for v, xi in zip(self.vs, x):
            v.lb = v.ub = float(xi)
        self.m.update()
        try:
            return solve(self.m)
        finally:
            for v, (lo, up) in zip(self.vs, self.b):
                v.lb, v.ub = lo, up
            self.m.update()

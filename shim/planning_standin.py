"""
Stand-ins for packages the planning and reinforcement-learning examples import
and this sandbox lacks: pydrake's MathematicalProgram (records the program;
SOLVER decides what Solve returns) and gym (Env and spaces.Box).  The real
packages are used where they exist, and then the checks that steer the solver
are skipped.
"""
import importlib.util
import sys
import types

import numpy as np

SOLVER = [None]   # function(prog) -> solution dict or None


class Binding:
    def __init__(self, f, lo, up, vars):
        self.f, self.vars = f, np.array(vars).reshape(-1)
        self.set_bounds(lo, up)

    def evaluator(self):
        return self

    def set_bounds(self, lo, up):
        self.lo = np.broadcast_to(np.asarray(lo, dtype=float).reshape(-1)
                                  if np.ndim(lo) else lo,
                                  (self.m if hasattr(self, "m") else
                                   np.size(lo) if self.f is not None
                                   else len(self.vars),)).copy()
        self.m = len(self.lo)
        self.up = np.broadcast_to(np.asarray(up, dtype=float).reshape(-1)
                                  if np.ndim(up) else up, (self.m,)).copy()

    def value(self, v):
        y = v[self.vars]
        return y if self.f is None else np.atleast_1d(self.f(y))


class MathematicalProgram:
    def __init__(self):
        self.n, self.constraints, self.costs = 0, [], []
        self.guess = {}

    def NewContinuousVariables(self, rows, cols=None, name=None):
        k = rows if cols is None or isinstance(cols, str) else rows * cols
        v = np.arange(self.n, self.n + k)
        self.n += k
        return v if k == rows and (cols is None or isinstance(cols, str)) \
            else v.reshape((rows, cols))

    def AddConstraint(self, f, lo, up, vars):
        b = Binding(f, lo, up, vars)
        self.constraints.append(b)
        return b

    def AddBoundingBoxConstraint(self, lo, up, vars):
        b = Binding(None, lo, up, vars)
        self.constraints.append(b)
        return b

    def AddCost(self, f, vars):
        b = Binding(f, -np.inf, np.inf, vars)
        self.costs.append(b)
        return b

    def SetInitialGuess(self, vars, values):
        values = np.asarray(values, dtype=float)
        assert values.shape == np.shape(vars)
        for k, v in zip(np.reshape(vars, -1), values.reshape(-1)):
            self.guess[int(k)] = v

    def violation(self, v):
        worst = 0.
        for b in self.constraints:
            y = b.value(v)
            worst = max(worst, np.max(b.lo - y), np.max(y - b.up))
        return worst

    def cost(self, v):
        return float(sum(np.sum(b.value(v)) for b in self.costs))


class Result:
    def __init__(self, v, cost):
        self.v, self.c = v, cost

    def is_success(self):
        return self.v is not None

    def get_optimal_cost(self):
        return self.c

    def GetSolution(self, vars):
        return self.v[np.asarray(vars)].copy()


def Solve(prog):
    r = SOLVER[0](prog)
    return Result(*r)


class Env:
    pass


class Box:
    def __init__(self, low, high, **kw):
        self.low, self.high = np.array(low), np.array(high)
        self.shape, self.dtype = self.low.shape, self.low.dtype

    def sample(self):
        return np.random.uniform(self.low, self.high).astype(self.dtype)


def missing(name):
    try:
        return name not in sys.modules and \
            importlib.util.find_spec(name) is None
    except ModuleNotFoundError:
        return True


def install():
    if missing("pydrake"):
        mp = types.ModuleType("pydrake.solvers.mathematicalprogram")
        mp.MathematicalProgram, mp.Solve = MathematicalProgram, Solve
        mp.STANDIN = True
        solvers = types.ModuleType("pydrake.solvers")
        solvers.mathematicalprogram = mp
        root = types.ModuleType("pydrake")
        root.solvers = solvers
        sys.modules.update({"pydrake": root, "pydrake.solvers": solvers,
                            "pydrake.solvers.mathematicalprogram": mp})
    if missing("gym"):
        gym = types.ModuleType("gym")
        gym.Env = Env
        gym.spaces = types.SimpleNamespace(Box=Box)
        sys.modules["gym"] = gym

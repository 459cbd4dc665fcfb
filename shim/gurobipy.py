"""
A functional stand-in for the parts of the gurobipy API that
neural_network_lyapunov uses (and the neighbouring parts a refactoring of it
would plausibly use).  gurobipy has no offline build for this sandbox, so the
checks put this module on PYTHONPATH; the code under test is unchanged.

LP and MILP are solved by HiGHS (highspy), convex QP by Clarabel, MIQP by
enumerating the binary assignments.  Attribute reads follow Gurobi's lazy
update rule (changes become visible after update()/optimize()).

Every optimize() call is appended to OPT_LOG (bounded) and handed to each
callable in MONITORS, so harnesses can observe what was solved.
"""
import collections
import itertools
import math

import highspy
import numpy as np

__version__ = "10.0.0"

OPT_LOG = collections.deque(maxlen=100000)
MONITORS = []
COUNTERS = collections.Counter()
# callable(model) -> list of incumbent random objective vectors to offer to
# callbacks before the optimum (set by harnesses to vary the search history).
INCUMBENT_HOOK = None
FEASTOL = 1e-9
RETRYTOL = 3e-7
# re-derive every integer optimum by branch and bound over LPs: HiGHS 1.15
# occasionally returns a suboptimal point as optimal
PARANOID = False


class GurobiError(Exception):
    pass


class SolverInconclusive(GurobiError):
    """The stand-in's numerical solver gave no verdict (not Gurobi's)."""


class _ParamNames:
    """GRB.Param.X -> "X"; GRB.Attr.X -> "X"."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return name


class _Status:
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13
    INPROGRESS = 14
    USER_OBJ_LIMIT = 15


class _Callback:
    POLLING = 0
    PRESOLVE = 1
    SIMPLEX = 2
    MIP = 3
    MIPSOL = 4
    MIPNODE = 5
    MESSAGE = 6
    BARRIER = 7
    RUNTIME = 6001
    MIP_OBJBST = 3000
    MIP_OBJBND = 3001
    MIP_NODCNT = 3002
    MIP_SOLCNT = 3003
    MIPSOL_SOL = 4001
    MIPSOL_OBJ = 4002
    MIPSOL_OBJBST = 4003
    MIPSOL_OBJBND = 4004
    MIPSOL_NODCNT = 4005
    MIPSOL_SOLCNT = 4006
    MIPNODE_STATUS = 5001
    MIPNODE_REL = 5002
    MIPNODE_OBJBST = 5003
    MIPNODE_OBJBND = 5004
    MIPNODE_NODCNT = 5005
    MIPNODE_SOLCNT = 5006


class GRB:
    INFINITY = 1e100
    LESS_EQUAL = "<"
    GREATER_EQUAL = ">"
    EQUAL = "="
    CONTINUOUS = "C"
    BINARY = "B"
    INTEGER = "I"
    SEMICONT = "S"
    MAXIMIZE = -1
    MINIMIZE = 1
    Status = _Status
    Callback = _Callback
    Param = _ParamNames()
    param = Param
    Attr = _ParamNames()
    attr = Attr


for _k, _v in list(vars(_Status).items()):
    if not _k.startswith("_"):
        setattr(GRB, _k, _v)


def _num(v):
    if isinstance(v, (int, float)):
        return float(v)
    if hasattr(v, "detach"):
        v = v.detach()
    return float(v)


def _arr(v):
    if v is None:
        return None
    if hasattr(v, "detach"):
        v = v.detach().numpy()
    if hasattr(v, "toarray"):
        v = v.toarray()
    return np.asarray(v, dtype=float)


def _sense(s):
    if s in ("<", "<="):
        return "<"
    if s in (">", ">="):
        return ">"
    if s in ("=", "=="):
        return "="
    raise GurobiError("bad sense %r" % (s, ))


class Var:
    _next_id = itertools.count(1)

    def __init__(self, model, lb, ub, obj, vtype, name):
        d = self.__dict__
        d["_model"] = model
        d["_id"] = next(Var._next_id)
        d["_idx"] = None
        d["_cur"] = None
        if vtype == GRB.BINARY:
            lb, ub = max(lb, 0.), min(ub, 1.)
        d["_pend"] = {
            "lb": lb,
            "ub": ub,
            "obj": obj,
            "vtype": vtype,
            "varname": name,
            "start": float("nan"),
        }

    def _commit(self):
        d = self.__dict__
        if d["_cur"] is None:
            d["_cur"] = {}
        d["_cur"].update(d["_pend"])
        d["_pend"] = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        key = name.lower()
        d = self.__dict__
        if key in ("lb", "ub", "obj", "vtype", "varname", "start"):
            if d["_cur"] is None:
                raise AttributeError(
                    "Index out of range for attribute '%s'" % name)
            val = d["_cur"][key]
            if key == "lb" and val <= -1e20:
                return -math.inf
            if key == "ub" and val >= 1e20:
                return math.inf
            return val
        if key == "index":
            return -1 if d["_idx"] is None else d["_idx"]
        if key in ("x", "xn"):
            m = d["_model"]
            if m._sols is None or not m._sols:
                raise AttributeError("Unable to retrieve attribute '%s'" %
                                     name)
            k = 0
            if key == "xn":
                k = int(m._params.get("solutionnumber", 0))
                if k >= len(m._sols):
                    k = len(m._sols) - 1
            return float(m._sols[k][1][d["_idx"]])
        raise AttributeError(name)

    def __setattr__(self, name, value):
        key = name.lower()
        if key in ("lb", "ub", "obj", "start"):
            self.__dict__["_pend"][key] = _num(value)
        elif key in ("vtype", "varname"):
            self.__dict__["_pend"][key] = value
        else:
            raise AttributeError(name)
        if key == "vtype" and value == GRB.BINARY:
            pass

    def getAttr(self, name):
        return getattr(self, name)

    def setAttr(self, name, value):
        setattr(self, name, value)

    def __hash__(self):
        return self.__dict__["_id"]

    def sameAs(self, other):
        return self is other

    def __repr__(self):
        c = self.__dict__["_cur"]
        if c is None:
            return "<gurobi.Var *Awaiting Model Update*>"
        return "<gurobi.Var %s>" % c["varname"]

    # arithmetic
    def _le(self):
        e = LinExpr()
        e._t[self] = 1.
        return e

    def __add__(self, o):
        return self._le() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._le() - o

    def __rsub__(self, o):
        return -self._le() + o

    def __neg__(self):
        return -self._le()

    def __mul__(self, o):
        if isinstance(o, Var):
            q = QuadExpr()
            q._addq(self, o, 1.)
            return q
        if isinstance(o, (LinExpr, QuadExpr)):
            return o * self
        return self._le() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._le() * (1. / _num(o))

    def __pow__(self, p):
        assert p == 2
        return self * self

    def __eq__(self, o):
        return TempConstr(self._le(), "=", o, same=self is o)

    def __ne__(self, o):
        return self is not o

    def __le__(self, o):
        return TempConstr(self._le(), "<", o)

    def __ge__(self, o):
        return TempConstr(self._le(), ">", o)


class TempConstr:
    def __init__(self, lhs, sense, rhs, same=None):
        self.lhs, self.sense, self.rhs, self.same = lhs, sense, rhs, same

    def __bool__(self):
        if self.same is not None:
            return self.same
        raise GurobiError("Constraint has no bool value (are you trying "
                          "\"lb <= expr <= ub\"?)")


class LinExpr:
    def __init__(self, arg1=0., arg2=None):
        self._t = {}
        self._c = 0.
        if arg2 is not None:
            if isinstance(arg2, Var):
                self._t[arg2] = _num(arg1)
            else:
                vs = list(arg2)
                cs = _arr(arg1).reshape(-1) if not isinstance(
                    arg1, (list, tuple)) else [_num(c) for c in arg1]
                if len(cs) != len(vs):
                    raise GurobiError("LinExpr: length mismatch %d vs %d" %
                                      (len(cs), len(vs)))
                for c, v in zip(cs, vs):
                    self._t[v] = self._t.get(v, 0.) + float(c)
        elif isinstance(arg1, LinExpr):
            self._t = dict(arg1._t)
            self._c = arg1._c
        elif isinstance(arg1, Var):
            self._t[arg1] = 1.
        elif isinstance(arg1, (list, tuple)):
            for c, v in arg1:
                self._t[v] = self._t.get(v, 0.) + _num(c)
        else:
            self._c = _num(arg1)

    def copy(self):
        return LinExpr(self)

    def size(self):
        return len(self._t)

    def getVar(self, i):
        return list(self._t.keys())[i]

    def getCoeff(self, i):
        return list(self._t.values())[i]

    def getConstant(self):
        return self._c

    def getValue(self):
        return self._c + sum(c * v.x for v, c in self._t.items())

    def addTerms(self, coeffs, variables):
        if isinstance(variables, Var):
            coeffs, variables = [coeffs], [variables]
        for c, v in zip(coeffs, variables):
            self._t[v] = self._t.get(v, 0.) + _num(c)

    def addConstant(self, c):
        self._c += _num(c)

    def add(self, e, mult=1.):
        if isinstance(e, Var):
            e = e._le()
        if not isinstance(e, LinExpr):
            self._c += mult * _num(e)
            return
        for v, c in e._t.items():
            self._t[v] = self._t.get(v, 0.) + mult * c
        self._c += mult * e._c

    def __iadd__(self, o):
        if isinstance(o, QuadExpr):
            return self + o
        self.add(o)
        return self

    def __add__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        r = LinExpr(self)
        r.add(o)
        return r

    __radd__ = __add__

    def __isub__(self, o):
        if isinstance(o, QuadExpr):
            return self - o
        self.add(o, -1.)
        return self

    def __sub__(self, o):
        if isinstance(o, QuadExpr):
            return (-o) + self
        r = LinExpr(self)
        r.add(o, -1.)
        return r

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self * -1.

    def __mul__(self, o):
        if isinstance(o, Var):
            o = o._le()
        if isinstance(o, LinExpr):
            q = QuadExpr()
            for v1, c1 in self._t.items():
                for v2, c2 in o._t.items():
                    q._addq(v1, v2, c1 * c2)
            lin = LinExpr()
            lin.add(LinExpr(self) * o._c)
            for v2, c2 in o._t.items():
                lin._t[v2] = lin._t.get(v2, 0.) + c2 * self._c
            q._l = lin
            return q
        k = _num(o)
        r = LinExpr()
        r._t = {v: c * k for v, c in self._t.items()}
        r._c = self._c * k
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1. / _num(o))

    def __eq__(self, o):
        return TempConstr(self, "=", o)

    def __le__(self, o):
        return TempConstr(self, "<", o)

    def __ge__(self, o):
        return TempConstr(self, ">", o)

    __hash__ = None


class QuadExpr:
    def __init__(self, e=None):
        self._q = {}
        self._l = LinExpr()
        if e is not None:
            self.add(e)

    def _addq(self, v1, v2, c):
        k = (v1, v2) if v1.__dict__["_id"] <= v2.__dict__["_id"] else (v2, v1)
        self._q[k] = self._q.get(k, 0.) + c

    def add(self, e, mult=1.):
        mult = _num(mult)
        if isinstance(e, QuadExpr):
            for (a, b), c in e._q.items():
                self._addq(a, b, mult * c)
            self._l.add(e._l, mult)
        else:
            self._l.add(e, mult)

    def addTerms(self, coeffs, v1, v2=None):
        if isinstance(v1, Var):
            coeffs, v1 = [coeffs], [v1]
            v2 = None if v2 is None else [v2]
        if v2 is None:
            self._l.addTerms(coeffs, v1)
        else:
            for c, a, b in zip(coeffs, v1, v2):
                self._addq(a, b, _num(c))

    def addConstant(self, c):
        self._l.addConstant(c)

    def getLinExpr(self):
        return self._l

    def size(self):
        return len(self._q)

    def getVar1(self, i):
        return list(self._q.keys())[i][0]

    def getVar2(self, i):
        return list(self._q.keys())[i][1]

    def getCoeff(self, i):
        return list(self._q.values())[i]

    def getValue(self):
        return self._l.getValue() + sum(
            c * a.x * b.x for (a, b), c in self._q.items())

    def copy(self):
        return QuadExpr(self)

    def __add__(self, o):
        r = QuadExpr(self)
        r.add(o)
        return r

    __radd__ = __add__

    def __iadd__(self, o):
        self.add(o)
        return self

    def __sub__(self, o):
        r = QuadExpr(self)
        r.add(o, -1.)
        return r

    def __isub__(self, o):
        self.add(o, -1.)
        return self

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self * -1.

    def __mul__(self, o):
        r = QuadExpr()
        r.add(self, _num(o))
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1. / _num(o))


def quicksum(seq):
    r = LinExpr()
    for s in seq:
        r = r + s
    return r


class MVar:
    def __init__(self, vs):
        self._v = list(vs)
        self.shape = (len(self._v), )

    def tolist(self):
        return list(self._v)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return MVar(self._v[k])
        return self._v[k]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return np.array([getattr(v, name) for v in self._v])

    def __rmatmul__(self, A):
        A = _arr(A)
        if A.ndim == 1:
            return LinExpr(A, self._v)
        return MLinExpr([LinExpr(A[i], self._v) for i in range(A.shape[0])])

    def __matmul__(self, A):
        return self.__rmatmul__(_arr(A).T)

    def sum(self):
        return quicksum(self._v)

    def _ml(self):
        return MLinExpr([v._le() for v in self._v])

    def __add__(self, o):
        return self._ml() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._ml() - o

    def __le__(self, o):
        return self._ml() <= o

    def __ge__(self, o):
        return self._ml() >= o

    def __eq__(self, o):
        return self._ml() == o

    __hash__ = None
    __array_ufunc__ = None
    __array_priority__ = 100


class MLinExpr:
    __array_ufunc__ = None
    __array_priority__ = 100
    __hash__ = None

    def __init__(self, es):
        self._e = list(es)

    def _b(self, o):
        if isinstance(o, (MVar, )):
            return [v._le() for v in o._v]
        if isinstance(o, MLinExpr):
            return o._e
        a = _arr(o)
        return list(np.broadcast_to(a, (len(self._e), )))

    def __add__(self, o):
        return MLinExpr([a + b for a, b in zip(self._e, self._b(o))])

    __radd__ = __add__

    def __sub__(self, o):
        return MLinExpr([a - b for a, b in zip(self._e, self._b(o))])

    def __le__(self, o):
        return [TempConstr(a, "<", b) for a, b in zip(self._e, self._b(o))]

    def __ge__(self, o):
        return [TempConstr(a, ">", b) for a, b in zip(self._e, self._b(o))]

    def __eq__(self, o):
        return [TempConstr(a, "=", b) for a, b in zip(self._e, self._b(o))]


class tupledict(dict):
    def select(self, *a):
        return list(self.values())

    def sum(self, *a):
        return quicksum(self.values())


class Constr:
    def __init__(self, model, idx, coef, sense, rhs, name):
        d = self.__dict__
        d["_model"], d["_idx"] = model, idx  # coef: (idx array, val array)
        d["_coef"], d["_sense"] = coef, sense
        d["_rhs"], d["_name"] = rhs, name
        d["_alive"] = True

    def __getattr__(self, name):
        key = name.lower()
        if key == "rhs":
            return self._rhs
        if key == "sense":
            return self._sense
        if key == "constrname":
            return self._name
        raise AttributeError(name)

    def __setattr__(self, name, value):
        key = name.lower()
        if key == "rhs":
            self.__dict__["_rhs"] = _num(value)
        elif key == "sense":
            self.__dict__["_sense"] = _sense(value)
        else:
            raise AttributeError(name)


class MConstr(list):
    def tolist(self):
        return list(self)

    @property
    def shape(self):
        return (len(self), )


class _Params:
    def __init__(self, m):
        self.__dict__["_m"] = m

    def __setattr__(self, k, v):
        self._m.setParam(k, v)

    def __getattr__(self, k):
        return self._m._params.get(k.lower(), 0)


class Env:
    def __init__(self, *a, **k):
        pass

    def setParam(self, *a):
        pass

    def start(self):
        pass


_DEFAULT_PARAMS = {
    "poolsearchmode": 0,
    "poolsolutions": 10,
    "solutionnumber": 0,
    "solutionlimit": 2000000000,
    "timelimit": float("inf"),
    "dualreductions": 1,
    "outputflag": 1,
    "mipgap": 1e-4,
    "feasibilitytol": 1e-6,
}


class Model:
    def __init__(self, name="", env=None):
        d = self.__dict__
        d["_vars"] = []
        d["_newvars"] = []
        d["_constrs"] = []
        d["_newconstrs"] = []
        d["_obj"] = QuadExpr()
        d["_pobj"] = None
        d["_modelsense"] = GRB.MINIMIZE
        d["_params"] = {}
        d["_status"] = GRB.LOADED
        d["_sols"] = None
        d["_terminated"] = False
        d["_cbdata"] = None
        d["Params"] = _Params(self)
        d["params"] = d["Params"]
        COUNTERS["models"] += 1

    # ---- attributes -----------------------------------------------------
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        key = name.lower()
        d = self.__dict__
        if key == "status":
            return d["_status"]
        if key == "solcount":
            return 0 if not d["_sols"] else len(d["_sols"])
        if key in ("objval", "objbound", "objboundc"):
            if not d["_sols"]:
                raise AttributeError("Unable to retrieve attribute '%s'" %
                                     name)
            return float(d["_sols"][0][0])
        if key == "poolobjval":
            if not d["_sols"]:
                raise AttributeError("Unable to retrieve attribute '%s'" %
                                     name)
            return float(d["_sols"][int(d["_params"].get("solutionnumber",
                                                         0))][0])
        if key == "numvars":
            return len(d["_vars"])
        if key == "numbinvars":
            return sum(1 for v in d["_vars"] if v._cur["vtype"] == "B")
        if key == "numintvars":
            return sum(1 for v in d["_vars"] if v._cur["vtype"] in "BI")
        if key == "numconstrs":
            return len(d["_constrs"])
        if key == "ismip":
            return int(self.numintvars > 0)
        if key == "isqp":
            return int(bool(d["_obj"]._q))
        if key == "modelsense":
            return d["_modelsense"]
        if key == "mipgap":
            return 0.
        if key == "runtime":
            return 0.
        if key == "modelname":
            return ""
        raise AttributeError(name)

    def __setattr__(self, name, value):
        key = name.lower()
        if key == "modelsense":
            self.__dict__["_modelsense"] = value
        elif name.startswith("_"):
            self.__dict__[name] = value
        else:
            raise AttributeError(name)

    def getAttr(self, name, objs=None):
        if objs is None:
            return getattr(self, name)
        return [getattr(o, name) for o in objs]

    def setAttr(self, name, *a):
        if len(a) == 1:
            setattr(self, name, a[0])
        else:
            for o, v in zip(a[0], a[1]):
                setattr(o, name, v)

    def setParam(self, name, value):
        self._params[str(name).lower()] = value

    def getParamInfo(self, name):
        k = str(name).lower()
        dflt = _DEFAULT_PARAMS.get(k, 0)
        return (name, type(dflt), self._params.get(k, dflt), 0, 0, dflt)

    def _param(self, k):
        return self._params.get(k, _DEFAULT_PARAMS.get(k, 0))

    # ---- building -------------------------------------------------------
    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype="C", name="",
               column=None):
        v = Var(self, _num(lb), _num(ub), _num(obj), vtype,
                name or "C%d" % (len(self._vars) + len(self._newvars)))
        self._newvars.append(v)
        return v

    def addVars(self, *indices, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        if len(indices) == 1:
            keys = range(indices[0]) if isinstance(
                indices[0], (int, np.integer)) else list(indices[0])
        else:
            keys = list(
                itertools.product(*[
                    range(i) if isinstance(i, (int, np.integer)) else i
                    for i in indices
                ]))
        ret = tupledict()

        def pick(val, i, k):
            if isinstance(val, dict):
                return val[k]
            if isinstance(val, str) or np.ndim(
                    val if not hasattr(val, "detach") else
                    val.detach().numpy()) == 0:
                return val
            return val[i]

        for i, k in enumerate(keys):
            ret[k] = self.addVar(lb=pick(lb, i, k), ub=pick(ub, i, k),
                                 obj=pick(obj, i, k),
                                 vtype=pick(vtype, i, k) if not isinstance(
                                     vtype, str) else vtype,
                                 name="%s[%s]" % (name or "C", k))
        return ret

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        n = shape if isinstance(shape, (int, np.integer)) else shape[0]
        lb = np.broadcast_to(_arr(lb), (n, ))
        ub = np.broadcast_to(_arr(ub), (n, ))
        return MVar([
            self.addVar(lb=lb[i], ub=ub[i], vtype=vtype,
                        name="%s[%d]" % (name or "C", i)) for i in range(n)
        ])

    def _mk(self, terms, sense, rhs, name):
        c = Constr(self, None, terms, _sense(sense), rhs, name)
        self._newconstrs.append(c)
        return c

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        return self.addConstr(lhs, sense, rhs, name)

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, list) and lhs and isinstance(lhs[0], TempConstr):
            return MConstr([self.addConstr(c, name=name) for c in lhs])
        if isinstance(lhs, TempConstr):
            if isinstance(sense, str) and name == "":
                name = sense
            lhs, sense, rhs = lhs.lhs, lhs.sense, lhs.rhs
        e = LinExpr()
        e.add(lhs)
        e.add(rhs if isinstance(rhs, (Var, LinExpr)) else _num(rhs), -1.)
        for v in e._t:
            if v.__dict__["_model"] is not self:
                raise GurobiError("Variable not in model")
        for c in e._t.values():
            if math.isnan(c):
                raise GurobiError("Element 0 of a double array is Nan or Inf.")
        return self._mk((list(e._t.keys()),
                         np.fromiter(e._t.values(), float, len(e._t))),
                        sense, -e._c, name)

    def addConstrs(self, gen, name=""):
        return [self.addConstr(c) for c in gen]

    def addMConstr(self, A, x, sense, b, name=""):
        A = _arr(A)
        b = _arr(b)
        vs = list(x) if x is not None else list(self._vars)
        if A.ndim != 2 or A.shape[1] != len(vs):
            raise GurobiError("addMConstr: shape mismatch %s vs %d" %
                              (A.shape, len(vs)))
        b = np.broadcast_to(b, (A.shape[0], ))
        if np.any(np.isnan(A)) or np.any(np.isnan(b)) or np.any(np.isinf(A)):
            raise GurobiError("Element 0 of a double array is Nan or Inf.")
        if len(set(v.__dict__["_id"] for v in vs)) != len(vs):
            # merge duplicates
            out = MConstr()
            for i in range(A.shape[0]):
                out.append(self.addConstr(LinExpr(A[i], vs), sense, b[i]))
            return out
        ret = MConstr()
        for i in range(A.shape[0]):
            nz = np.nonzero(A[i])[0]
            s = sense if isinstance(sense, str) else sense[i]
            ret.append(
                self._mk(([vs[j] for j in nz], A[i, nz].copy()), s,
                         float(b[i]), name))
        return ret

    def setObjective(self, expr, sense=None):
        q = QuadExpr()
        q.add(expr)
        self.__dict__["_pobj"] = q
        if sense is not None:
            self.__dict__["_modelsense"] = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        q = QuadExpr()
        if Q is not None:
            Q = _arr(Q)
            xl = list(xQ_L) if xQ_L is not None else list(self._vars)
            xr = list(xQ_R) if xQ_R is not None else xl
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if Q[i, j] != 0:
                        q._addq(xl[i], xr[j], Q[i, j])
        if c is not None:
            q._l.add(
                LinExpr(_arr(c),
                        list(xc) if xc is not None else
                        list(self._vars + self._newvars)))
        q._l._c += _num(constant)
        self.setObjective(q, sense)

    def getObjective(self, index=None):
        return self._obj._l if not self._obj._q else self._obj

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    def getVarByName(self, name):
        for v in self._vars:
            if v.varname == name:
                return v

    def getRow(self, c):
        return LinExpr(c._coef[1], c._coef[0])

    def getCoeff(self, c, v):
        for u, k in zip(*c._coef):
            if u is v:
                return k
        return 0.

    def chgCoeff(self, c, v, val):
        vs, cs = c._coef
        vs, cs = list(vs), list(cs)
        for i, u in enumerate(vs):
            if u is v:
                cs[i] = _num(val)
                break
        else:
            vs.append(v)
            cs.append(_num(val))
        c.__dict__["_coef"] = (vs, np.array(cs))

    def getA(self):
        self.update()
        A = np.zeros((len(self._constrs), len(self._vars)))
        for i, c in enumerate(self._constrs):
            for v, k in zip(*c._coef):
                A[i, v._idx] += k
        import scipy.sparse
        return scipy.sparse.csr_matrix(A)

    def remove(self, items):
        if isinstance(items, (Constr, Var)):
            items = [items]
        if isinstance(items, dict):
            items = list(items.values())
        for it in list(items):
            if isinstance(it, (list, tuple)):
                self.remove(it)
            elif isinstance(it, Constr):
                it.__dict__["_alive"] = False
            elif isinstance(it, Var):
                it.__dict__["_removed"] = True

    def update(self):
        d = self.__dict__
        for v in d["_newvars"]:
            v.__dict__["_idx"] = len(d["_vars"])
            d["_vars"].append(v)
            v._commit()
        d["_newvars"] = []
        for v in d["_vars"]:
            if v.__dict__["_pend"]:
                v._commit()
        if any("_removed" in v.__dict__ for v in d["_vars"]):
            d["_vars"] = [
                v for v in d["_vars"] if "_removed" not in v.__dict__
            ]
            for i, v in enumerate(d["_vars"]):
                v.__dict__["_idx"] = i
        d["_constrs"].extend(d["_newconstrs"])
        d["_newconstrs"] = []
        d["_constrs"] = [c for c in d["_constrs"] if c._alive]
        for i, c in enumerate(d["_constrs"]):
            c.__dict__["_idx"] = i
        if d["_pobj"] is not None:
            d["_obj"] = d["_pobj"]
            d["_pobj"] = None

    def reset(self, clearall=0):
        self._sols = None
        self._status = GRB.LOADED

    def write(self, filename):
        pass

    def computeIIS(self):
        pass

    def dispose(self):
        pass

    def close(self):
        pass

    def setParams(self, **k):
        for a, b in k.items():
            self.setParam(a, b)

    def terminate(self):
        self._terminated = True

    def cbGet(self, what):
        if self._cbdata is None:
            raise GurobiError("cbGet outside of callback")
        if what not in self._cbdata:
            raise GurobiError("cbGet: not available here")
        return self._cbdata[what]

    # ---- solving --------------------------------------------------------
    def _matrices(self):
        n = len(self._vars)
        lb = np.array([v._cur["lb"] for v in self._vars], dtype=float)
        ub = np.array([v._cur["ub"] for v in self._vars], dtype=float)
        vt = [v._cur["vtype"] for v in self._vars]
        for i in range(n):
            if vt[i] == "B":
                lb[i] = max(lb[i], 0.)
                ub[i] = min(ub[i], 1.)
        lb = np.where(lb <= -1e20, -np.inf, lb)
        ub = np.where(ub >= 1e20, np.inf, ub)
        starts, idx, val, rlo, rup = [0], [], [], [], []
        for c in self._constrs:
            vs, cs = c._coef
            idx.extend(v.__dict__["_idx"] for v in vs)
            val.extend(cs)
            starts.append(len(idx))
            r = c._rhs
            rlo.append(-np.inf if c._sense == "<" else r)
            rup.append(np.inf if c._sense == ">" else r)
        return (n, lb, ub, vt, np.array(starts, dtype=np.int32),
                np.array(idx, dtype=np.int32), np.array(val, dtype=float),
                np.array(rlo, dtype=float), np.array(rup, dtype=float))

    def _run(self, mats, cost, const, sense, integ, lb=None, ub=None,
             extra_rows=()):
        n, lb0, ub0, vt, starts, idx, val, rlo, rup = mats
        lb = lb0 if lb is None else lb
        ub = ub0 if ub is None else ub
        if np.any(lb > ub + 1e-9):
            return GRB.INFEASIBLE, None, None
        ub = np.maximum(lb, ub)
        for (ridx, rval, lo, up) in extra_rows:
            idx = np.concatenate((idx, np.array(ridx, dtype=np.int32)))
            val = np.concatenate((val, np.array(rval, dtype=float)))
            starts = np.append(starts, len(idx)).astype(np.int32)
            rlo = np.append(rlo, lo)
            rup = np.append(rup, up)
        if n == 0:
            ok = np.all(rlo <= 1e-9) and np.all(rup >= -1e-9)
            return ((GRB.OPTIMAL, const, np.zeros(0)) if ok else
                    (GRB.INFEASIBLE, None, None))
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("threads", 1)
        h.setOptionValue("primal_feasibility_tolerance", FEASTOL)
        h.setOptionValue("dual_feasibility_tolerance", FEASTOL)
        h.setOptionValue("mip_feasibility_tolerance", FEASTOL)
        h.setOptionValue("mip_rel_gap", 1e-9)
        h.setOptionValue("mip_abs_gap", 1e-9)
        h.setOptionValue("small_matrix_value", 1e-12)
        lp = highspy.HighsLp()
        lp.num_col_ = n
        lp.num_row_ = len(rlo)
        lp.col_cost_ = np.asarray(cost, dtype=float)
        lp.col_lower_ = lb
        lp.col_upper_ = ub
        lp.row_lower_ = rlo
        lp.row_upper_ = rup
        lp.offset_ = float(const)
        lp.sense_ = (highspy.ObjSense.kMaximize if sense == GRB.MAXIMIZE else
                     highspy.ObjSense.kMinimize)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.num_col_ = n
        lp.a_matrix_.num_row_ = len(rlo)
        lp.a_matrix_.start_ = starts
        lp.a_matrix_.index_ = idx
        lp.a_matrix_.value_ = val
        if integ is not None and any(integ):
            lp.integrality_ = [
                highspy.HighsVarType.kInteger
                if t else highspy.HighsVarType.kContinuous for t in integ
            ]
        if h.passModel(lp) == highspy.HighsStatus.kError:
            raise GurobiError("passModel failed")

        def go():
            h.run()
            return h.getModelStatus()

        MS = highspy.HighsModelStatus
        st = go()
        if st == MS.kUnboundedOrInfeasible or st not in (
                MS.kOptimal, MS.kInfeasible, MS.kUnbounded):
            h.clearSolver()
            h.setOptionValue("presolve", "off")
            st = go()
        if st == MS.kOptimal:
            x = np.array(h.getSolution().col_value, dtype=float)
            return GRB.OPTIMAL, h.getInfo().objective_function_value, x
        if st in (MS.kUnbounded, MS.kUnboundedOrInfeasible):
            # confirm feasibility
            if st == MS.kUnboundedOrInfeasible:
                s2, _, _ = self._run(mats, np.zeros(n), 0., sense, integ, lb,
                                     ub, extra_rows) if np.any(
                                         np.asarray(cost) != 0) else (
                                             GRB.INFEASIBLE, None, None)
                if s2 != GRB.OPTIMAL:
                    return GRB.INFEASIBLE, None, None
            return GRB.UNBOUNDED, None, None
        if st == MS.kInfeasible:
            # Gurobi's tolerances are looser: a set that is empty only by
            # rounding of its data is not infeasible
            h.clearSolver()
            for o in ("primal_feasibility_tolerance",
                      "mip_feasibility_tolerance"):
                h.setOptionValue(o, RETRYTOL)
            if integ is not None and any(integ):
                # HiGHS 1.15 crashes on some empty integer programs without
                # presolve; give presolve the tolerance explicitly
                free = np.array([not t for t in integ])
                lp.col_lower_ = np.where(free, lb - RETRYTOL, lb)
                lp.col_upper_ = np.where(free, ub + RETRYTOL, ub)
                lp.row_lower_ = np.asarray(rlo) - RETRYTOL
                lp.row_upper_ = np.asarray(rup) + RETRYTOL
                h.passModel(lp)
            else:
                h.setOptionValue("presolve", "off")
            st = go()
            if st == MS.kOptimal:
                COUNTERS["retry_feasible"] += 1
                x = np.array(h.getSolution().col_value, dtype=float)
                return GRB.OPTIMAL, h.getInfo().objective_function_value, x
            if st == MS.kUnbounded:
                return GRB.UNBOUNDED, None, None
            return GRB.INFEASIBLE, None, None
        if st == MS.kModelEmpty:
            return GRB.OPTIMAL, const, np.clip(np.zeros(n), lb, ub)
        raise SolverInconclusive("HiGHS status %s" % st)

    def _confirm(self, mats, cost, const, sense, integ, extra_rows, st, obj,
                 x, nodes=4000):
        """Look for a better point than the given one; LPs only."""
        COUNTERS["confirmed"] += 1
        sgn = -1. if sense == GRB.MAXIMIZE else 1.
        best, bx = (sgn * obj, x) if st == GRB.OPTIMAL else (math.inf, None)
        gap = 1e-7 * (1 + abs(best)) if bx is not None else 0.
        lb, ub = mats[1].copy(), mats[2].copy()
        for i, t in enumerate(integ):
            if t:
                lb[i], ub[i] = np.ceil(lb[i] - 1e-9), np.floor(ub[i] + 1e-9)
        todo = [(lb, ub)]
        while todo and nodes:
            nodes -= 1
            lo, up = todo.pop()
            s, o, y = self._run(mats, cost, const, sense, None, lo, up,
                                extra_rows)
            if s == GRB.UNBOUNDED:
                return s, o, y
            if s != GRB.OPTIMAL or sgn * o >= best - gap:
                continue
            fr = [abs(y[i] - round(y[i])) if t else 0.
                  for i, t in enumerate(integ)]
            k = int(np.argmax(fr))
            if fr[k] < 1e-9:
                best, bx = sgn * o, y
                gap = 1e-7 * (1 + abs(best))
                continue
            down, upper = (lo, up.copy()), (lo.copy(), up)
            down[1][k] = np.floor(y[k])
            upper[0][k] = np.ceil(y[k])
            todo.extend((upper, down) if y[k] - np.floor(y[k]) < .5 else
                        (down, upper))
        if bx is None:
            return GRB.INFEASIBLE, None, None
        if bx is not x:
            COUNTERS["solver_corrected"] += 1
        return GRB.OPTIMAL, sgn * best, bx

    def _solve_milp(self, mats, cost, const, sense, integ, extra_rows=()):
        """Solve, then fix the integers and polish the continuous part."""
        st, obj, x = self._run(mats, cost, const, sense, integ,
                               extra_rows=extra_rows)
        if not any(integ):
            return st, obj, x
        if PARANOID and st in (GRB.OPTIMAL, GRB.INFEASIBLE):
            st, obj, x = self._confirm(mats, cost, const, sense, integ,
                                       extra_rows, st, obj, x)
        if st != GRB.OPTIMAL:
            return st, obj, x
        lb, ub = mats[1].copy(), mats[2].copy()
        for i, t in enumerate(integ):
            if t:
                lb[i] = ub[i] = round(x[i])
        st2, obj2, x2 = self._run(mats, cost, const, sense, None, lb, ub,
                                  extra_rows)
        if st2 == GRB.OPTIMAL and abs(obj2 - obj) < 1e-5 * (1 + abs(obj)):
            return st2, obj2, x2
        COUNTERS["polish_mismatch"] += 1
        return st, obj, x

    def _solve_qp(self, mats, P, cost, const, sense, lb, ub):
        import clarabel
        import scipy.sparse as sp
        n, _, _, vt, starts, idx, val, rlo, rup = mats
        sgn = -1. if sense == GRB.MAXIMIZE else 1.
        Pm = sgn * P
        w = np.linalg.eigvalsh(Pm) if n else np.zeros(0)
        if n and w.min() < -1e-7 * max(1., abs(w).max()):
            raise GurobiError("Q matrix is not positive semi-definite (PSD)")
        A = np.zeros((len(rlo), n))
        for i in range(len(rlo)):
            for k in range(starts[i], starts[i + 1]):
                A[i, idx[k]] += val[k]
        eqA, eqb, inA, inb = [], [], [], []
        for i in range(len(rlo)):
            if rlo[i] == rup[i]:
                eqA.append(A[i])
                eqb.append(rlo[i])
            else:
                if np.isfinite(rup[i]):
                    inA.append(A[i])
                    inb.append(rup[i])
                if np.isfinite(rlo[i]):
                    inA.append(-A[i])
                    inb.append(-rlo[i])
        eye = np.eye(n)
        for j in range(n):
            if lb[j] == ub[j]:
                eqA.append(eye[j])
                eqb.append(lb[j])
            else:
                if np.isfinite(ub[j]):
                    inA.append(eye[j])
                    inb.append(ub[j])
                if np.isfinite(lb[j]):
                    inA.append(-eye[j])
                    inb.append(-lb[j])
        cones = []
        if eqA:
            cones.append(clarabel.ZeroConeT(len(eqA)))
        if inA:
            cones.append(clarabel.NonnegativeConeT(len(inA)))
        Aall = np.array(eqA + inA).reshape(-1, n)
        ball = np.array(eqb + inb)
        s = clarabel.DefaultSettings()
        s.verbose = False
        s.tol_gap_abs = 1e-12
        s.tol_gap_rel = 1e-12
        s.tol_feas = 1e-12
        s.max_threads = 1
        sol = clarabel.DefaultSolver(sp.triu(sp.csc_matrix(Pm)).tocsc(),
                                     sgn * np.asarray(cost),
                                     sp.csc_matrix(Aall), ball, cones,
                                     s).solve()
        name = str(sol.status)
        if "PrimalInfeasible" in name:
            return GRB.INFEASIBLE, None, None
        if "DualInfeasible" in name:
            return GRB.UNBOUNDED, None, None
        x = np.array(sol.x)
        if "Solved" not in name:
            viol = 0.
            if len(ball):
                r = Aall @ x - ball
                ne = len(eqA)
                viol = max(
                    np.max(np.abs(r[:ne])) if ne else 0.,
                    np.max(np.maximum(r[ne:], 0)) if len(r) > ne else 0.)
            if "InsufficientProgress" not in name or viol > 1e-6:
                raise SolverInconclusive("clarabel status %s" % name)
        obj = .5 * x @ P @ x + np.asarray(cost) @ x + const
        return GRB.OPTIMAL, obj, x

    def optimize(self, callback=None):
        self.update()
        COUNTERS["optimize"] += 1
        self._terminated = False
        mats = self._matrices()
        n, lb, ub, vt = mats[:4]
        integ = [t in "BI" for t in vt]
        cost = np.array([v._cur["obj"] for v in self._vars], dtype=float)
        if self._obj._l._t or self._obj._q:
            cost = np.zeros(n)
        for v, c in self._obj._l._t.items():
            cost[v.__dict__["_idx"]] += c
        const = self._obj._l._c
        if np.any(np.isnan(cost)) or math.isnan(const):
            raise GurobiError("objective contains NaN")
        sense = self._modelsense
        self._sols = None
        self._params.setdefault("solutionnumber", 0)
        if any(abs(c) > 0 for c in self._obj._q.values()):
            self._optimize_q(mats, cost, const, sense, integ)
        else:
            self._optimize_l(mats, cost, const, sense, integ, callback)
        ev = (n, sum(integ), len(self._constrs), self._status,
              self._sols[0][0] if self._sols else None)
        OPT_LOG.append(ev)
        COUNTERS["status_%d" % self._status] += 1
        for m in MONITORS:
            m(self)

    def _optimize_q(self, mats, cost, const, sense, integ):
        n, lb, ub, vt = mats[:4]
        P = np.zeros((n, n))
        for (a, b), c in self._obj._q.items():
            i, j = a.__dict__["_idx"], b.__dict__["_idx"]
            P[i, j] += c
            P[j, i] += c
        bi = [i for i in range(n) if integ[i]]
        best = []
        unb = False
        if len(bi) > 14:
            raise GurobiError("shim: too many binaries for MIQP enumeration")
        rest = [i for i in range(n) if not integ[i]]
        for assign in itertools.product(
                *[range(int(math.ceil(lb[i])), int(ub[i]) + 1) for i in bi]):
            # substitute the integers out
            z = np.zeros(n)
            z[bi] = assign
            sub = self._substitute(mats, rest, bi, z)
            if sub is None:
                continue
            Pr = P[np.ix_(rest, rest)]
            cr = cost[rest] + P[np.ix_(rest, bi)] @ z[bi]
            c0 = const + cost[bi] @ z[bi] + .5 * z[bi] @ P[np.ix_(
                bi, bi)] @ z[bi]
            if rest:
                st, obj, x = self._solve_qp(sub, Pr, cr, c0, sense,
                                            lb[rest], ub[rest])
            else:
                st, obj, x = GRB.OPTIMAL, c0, np.zeros(0)
            if st == GRB.UNBOUNDED:
                unb = True
            if st == GRB.OPTIMAL:
                full = z.copy()
                full[rest] = x
                best.append((obj, full))
        if unb:
            self._status = GRB.UNBOUNDED
            return
        if not best:
            self._status = GRB.INFEASIBLE
            return
        best.sort(key=lambda t: t[0] * (-1 if sense == GRB.MAXIMIZE else 1))
        k = 1
        if int(self._param("poolsearchmode")) > 0:
            k = int(self._param("poolsolutions"))
        self._sols = best[:k]
        self._status = GRB.OPTIMAL

    def _substitute(self, mats, rest, bi, z):
        n, lb, ub, vt, starts, idx, val, rlo, rup = mats
        pos = {j: k for k, j in enumerate(rest)}
        bset = set(bi)
        s2, i2, v2, lo2, up2 = [0], [], [], [], []
        for r in range(len(rlo)):
            off = 0.
            any_ = False
            for k in range(starts[r], starts[r + 1]):
                if idx[k] in bset:
                    off += val[k] * z[idx[k]]
                else:
                    i2.append(pos[idx[k]])
                    v2.append(val[k])
                    any_ = any_ or val[k] != 0
            lo, up = rlo[r] - off, rup[r] - off
            if not any_:
                del i2[s2[-1]:]
                del v2[s2[-1]:]
                if lo > 1e-9 or up < -1e-9:
                    return None
                continue
            s2.append(len(i2))
            lo2.append(lo)
            up2.append(up)
        return (len(rest), lb[rest], ub[rest], None, np.array(s2), np.array(
            i2, dtype=int), np.array(v2), np.array(lo2), np.array(up2))

    def _warmstart(self, mats, cost, const, sense, integ):
        fix = [(i, v._cur["start"]) for i, v in enumerate(self._vars)
               if not math.isnan(v._cur["start"])]
        if not fix:
            return None
        lb, ub = mats[1].copy(), mats[2].copy()
        for i, val in fix:
            if integ[i]:
                lb[i] = ub[i] = round(val)
        st, obj, x = self._run(mats, cost, const, sense, integ, lb, ub)
        return (obj, x) if st == GRB.OPTIMAL else None

    def _optimize_l(self, mats, cost, const, sense, integ, callback):
        n = mats[0]
        is_mip = any(integ)
        st, obj, x = self._solve_milp(mats, cost, const, sense, integ)
        self._status = st
        if st != GRB.OPTIMAL:
            return
        sols = [(obj, x)]
        if is_mip and callback is not None:
            incumbents = []
            if INCUMBENT_HOOK is not None:
                for vec in INCUMBENT_HOOK(self, n):
                    s1, _, x1 = self._solve_milp(mats, vec, 0., sense, integ)
                    if s1 == GRB.OPTIMAL:
                        incumbents.append((float(cost @ x1) + const, x1))
            better = (lambda a, b: a > b) if sense == GRB.MAXIMIZE else (
                lambda a, b: a < b)
            incumbents.sort(key=lambda t: t[0] *
                            (1 if sense == GRB.MAXIMIZE else -1))
            traj = [t for t in incumbents if better(obj, t[0])] + [(obj, x)]
            # a first node without incumbent (unless a MIP start gives one)
            CB = GRB.Callback
            seen = []
            ws = self._warmstart(mats, cost, const, sense, integ)
            if ws is not None:
                seen.append(ws)
                traj = [t for t in traj if better(t[0], ws[0])]
            self._terminated = False
            for k in range(-1, len(traj)):
                if k >= 0:
                    seen.insert(0, traj[k])
                bst = seen[0][0] if seen else (
                    -GRB.INFINITY if sense == GRB.MAXIMIZE else GRB.INFINITY)
                self._cbdata = {
                    CB.MIPNODE_SOLCNT: len(seen),
                    CB.MIPNODE_STATUS: GRB.OPTIMAL,
                    CB.MIPNODE_OBJBST: bst,
                    CB.MIPNODE_OBJBND: obj,
                    CB.MIPNODE_NODCNT: float(k + 1),
                    CB.RUNTIME: 0.,
                }
                callback(self, CB.MIPNODE)
                if not self._terminated:
                    self._cbdata = {
                        CB.MIP_SOLCNT: len(seen),
                        CB.MIP_OBJBST: bst,
                        CB.MIP_OBJBND: obj,
                        CB.MIP_NODCNT: float(k + 1),
                        CB.RUNTIME: 0.,
                    }
                    callback(self, CB.MIP)
                self._cbdata = None
                if self._terminated:
                    COUNTERS["terminated"] += 1
                    self._status = GRB.INTERRUPTED
                    self._sols = list(seen) if seen else None
                    return
        if is_mip and int(self._param("poolsearchmode")) > 0:
            want = int(self._param("poolsolutions"))
            bi = [i for i in range(n) if integ[i]]
            rows = []
            while len(sols) < want:
                z = np.round(sols[-1][1][bi])
                # no-good cut (binaries): sum_{z=1}(1-b)+sum_{z=0} b >= 1
                coef = np.where(z > .5, -1., 1.)
                rows.append((bi, coef, 1. - np.sum(z > .5), np.inf))
                s1, o1, x1 = self._solve_milp(mats, cost, const, sense, integ,
                                              rows)
                if s1 != GRB.OPTIMAL:
                    break
                sols.append((o1, x1))
        self._sols = sols


def setParam(*a):
    pass


def read(*a):
    raise GurobiError("not supported")


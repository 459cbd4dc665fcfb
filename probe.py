"""
Observes the set described by a block of mixed-integer linear constraints:
feasibility, and the range of any variable or linear expression, with some of
the variables fixed.  Built straight from the numpy data of the returned
constraints, not with the code under test.
"""
import numpy as np

from gen import N

GRB = None


def _g():
    import gurobipy
    return gurobipy


def _m(a):
    return None if a is None else N(a)


class Blocks:
    """Rows over the groups input/slack/binary of a constraints-return."""

    def __init__(self, ret, nx=None, ns=None, nb=None, relax=1e-8):
        self.size = {"input": nx, "slack": ns, "binary": nb}
        self.rows = []
        self.relax = relax
        self.bounds = {}
        self.Aout = {}
        for grp in ("input", "slack", "binary"):
            for k in ("Ain", "Aeq", "Aout"):
                A = _m(getattr(ret, k + "_" + grp))
                if A is None:
                    continue
                if A.ndim != 2:
                    raise ValueError("%s_%s has shape %s" % (k, grp, A.shape))
                if self.size[grp] is None:
                    self.size[grp] = A.shape[1]
                if A.shape[1] != self.size[grp]:
                    raise ValueError("%s_%s has %d columns for %d variables" %
                                     (k, grp, A.shape[1], self.size[grp]))
                if k == "Aout":
                    self.Aout[grp] = A
            for b in ("lo", "up"):
                v = _m(getattr(ret, grp + "_" + b))
                if v is not None:
                    if self.size[grp] is None:
                        self.size[grp] = len(v)
                    if v.shape != (self.size[grp], ):
                        raise ValueError("%s_%s shape" % (grp, b))
                    self.bounds[grp + b] = v
            if self.size[grp] is None:
                self.size[grp] = 0
        for k, rhs in (("Ain", "rhs_in"), ("Aeq", "rhs_eq")):
            r = _m(getattr(ret, rhs))
            blocks = {g: _m(getattr(ret, k + "_" + g)) for g in self.size}
            blocks = {g: A for g, A in blocks.items() if A is not None}
            if r is None:
                if blocks:
                    raise ValueError(k + " without right-hand side")
                continue
            if r.ndim != 1:
                raise ValueError("%s has shape %s" % (rhs, r.shape))
            for g, A in blocks.items():
                if A.shape[0] != len(r):
                    raise ValueError("%s_%s has %d rows, %s %d" % (
                        k, g, A.shape[0], rhs, len(r)))
            if len(r):
                self.rows.append((k, blocks, r))
        C = _m(ret.Cout)
        self.Cout = C
        no = None
        for A in self.Aout.values():
            no = A.shape[0]
        if C is not None:
            no = C.size
        self.nout = no

    def model(self, fix=None, binary=True, free_input=True):
        """fix: {(group, index): value}. Returns a Probe."""
        return Probe(self, fix or {}, binary)

    def residual(self, x, s, b):
        """Largest violation of a given point."""
        v = {"input": x, "slack": s, "binary": b}
        w = 0.
        for k, blocks, r in self.rows:
            t = -r.copy()
            for g, A in blocks.items():
                t = t + A @ v[g]
            w = max(w, np.max(t) if k == "Ain" else np.max(np.abs(t)))
        for g in v:
            if g + "lo" in self.bounds and len(v[g]):
                w = max(w, np.max(self.bounds[g + "lo"] - v[g]))
            if g + "up" in self.bounds and len(v[g]):
                w = max(w, np.max(v[g] - self.bounds[g + "up"]))
        return w

    def out(self, x, s, b):
        v = {"input": x, "slack": s, "binary": b}
        t = 0.
        for g, A in self.Aout.items():
            t = t + A @ v[g]
        if self.Cout is not None:
            t = t + self.Cout.reshape(-1)
        return t


class Probe:
    def __init__(self, blk, fix, binary):
        g = _g()
        self.g = g
        self.seen = False
        self.blk = blk
        m = g.Model()
        m.setParam(g.GRB.Param.OutputFlag, False)
        m.setParam(g.GRB.Param.DualReductions, 0)
        self.m = m
        self.v = {}
        for grp, n in blk.size.items():
            lo = np.full(n, -np.inf)
            up = np.full(n, np.inf)
            if grp == "binary":
                lo, up = np.zeros(n), np.ones(n)
            if grp + "lo" in blk.bounds:
                lo = np.maximum(lo, blk.bounds[grp + "lo"] - (
                    0 if grp == "binary" else blk.relax))
            if grp + "up" in blk.bounds:
                up = np.minimum(up, blk.bounds[grp + "up"] + (
                    0 if grp == "binary" else blk.relax))
            self.empty = False
            vs = []
            for i in range(n):
                if (grp, i) in fix:
                    f = float(fix[(grp, i)])
                    if f < lo[i] - 1e-7 or f > up[i] + 1e-7:
                        self.empty = True
                    lo[i] = up[i] = f
                vt = "B" if grp == "binary" and binary else "C"
                vs.append(m.addVar(lb=lo[i], ub=up[i], vtype=vt))
            self.v[grp] = vs
            if self.empty:
                break
        if self.empty:
            return
        m.update()
        for k, blocks, r in blk.rows:
            scale = np.ones(len(r))
            for A in blocks.values():
                scale = np.maximum(scale, np.max(np.abs(A), axis=1)
                                   if A.shape[1] else 0.)
            vs = sum((self.v[g] for g in blocks), [])
            A = np.hstack([blocks[g] for g in blocks]) if blocks else None
            if not vs:
                bad = r < -1e-9 if k == "Ain" else np.abs(r) > 1e-9
                if np.any(bad):
                    self.empty = True
                continue
            e = blk.relax * scale
            m.addMConstr(A, vs, g.GRB.LESS_EQUAL, r + e)
            if k == "Aeq":
                m.addMConstr(A, vs, g.GRB.GREATER_EQUAL, r - e)
        m.update()

    def add(self, coef, sense, rhs):
        """coef: {group: vector}"""
        e = self.g.LinExpr()
        for grp, c in coef.items():
            e.addTerms(list(np.asarray(c, float)), self.v[grp])
        self.m.addLConstr(e, sense, rhs)

    def opt(self, coef, const=0., maximize=True):
        """Optimal value, or None when infeasible, +-inf when unbounded."""
        if self.empty:
            return None
        e = self.g.LinExpr(float(const))
        for grp, c in coef.items():
            if len(self.v[grp]):
                e.addTerms([float(a) for a in np.asarray(c).reshape(-1)],
                           self.v[grp])
        self.m.setObjective(e, self.g.GRB.MAXIMIZE if maximize else
                            self.g.GRB.MINIMIZE)
        self.m.optimize()
        st = self.m.status
        S = self.g.GRB.Status
        if st == S.OPTIMAL:
            self.seen = True
            return self.m.ObjVal
        if st == S.INFEASIBLE:
            return None
        if st == S.UNBOUNDED:
            return np.inf if maximize else -np.inf
        raise self.g.SolverInconclusive("status %s" % st)

    def feasible(self):
        return self.opt({}) is not None

    def range(self, coef, const=0.):
        hi = self.opt(coef, const, True)
        lo = self.opt(coef, const, False)
        if hi is None and lo is None and not self.seen:
            return None
        if hi is None or lo is None:
            raise self.g.SolverInconclusive("feasible, then infeasible")
        return lo, hi

    def out_range(self, k):
        b = self.blk
        coef = {grp: A[k] for grp, A in b.Aout.items()}
        c = 0. if b.Cout is None else b.Cout.reshape(-1)[k]
        return self.range(coef, c)

    def var_range(self, grp, i):
        c = np.zeros(len(self.v[grp]))
        c[i] = 1.
        return self.range({grp: c})


def fixed(group, values):
    return {(group, i): float(v) for i, v in enumerate(values)}

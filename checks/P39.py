"""P39: the bound program between a value function and a network."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
import gen  # noqa: E402
import gurobipy  # noqa: E402
import progs  # noqa: E402
import value_standin  # noqa: E402

value_standin.install()
import neural_network_lyapunov.model_bounds as mb  # noqa: E402
import neural_network_lyapunov.value_to_optimization as vto  # noqa: E402

T, N = gen.T, gen.N
chk = Check("P39", rule="random mixed-integer quadratic value functions "
            "(1-3 states, 1-3 continuous and 0-3 binary decisions, 0-3 "
            "inequalities, 0-2 equalities) with random networks of at most 4 "
            "units and boxes; non-trivial: distinct (value function, network) "
            "pairs judged at one state at least",
            assumptions=["the class ValueFunction is supplied by the harness "
                         "(the repository's module is missing)",
                         "active-set enumeration as reference of V"])


class Value(vto.ValueFunction):
    """min over (s, a) of a convex quadratic, a binary."""

    def __init__(self, rng):
        self.dtype = torch.float64
        self.nx = nx = int(rng.integers(1, 4))
        self.ns = ns = int(rng.integers(1, 4))
        self.na = na = int(rng.choice([0, 1, 1, 2, 3]))
        ni = int(rng.integers(0, 4))
        ne = int(rng.integers(0, min(ns, 3)))

        def psd(n, eps):
            L = rng.normal(size=(n, n)) * rng.choice([0., 1., 1.])
            return L @ L.T + eps * np.eye(n)
        self.Q1, self.Q2 = psd(nx, 0.), psd(ns, .3)
        self.Q3 = psd(na, 0.)
        self.q1, self.q2 = rng.normal(size=nx), rng.normal(size=ns)
        self.q3 = rng.normal(size=na)
        self.c = float(rng.normal())
        self.A = [rng.normal(size=(ni, k)) for k in (nx, ns, na)]
        self.b = rng.normal(size=ni) + rng.choice([0., .5, 2.])
        self.E = [rng.normal(size=(ne, k)) for k in (nx, ns, na)]
        self.e = rng.normal(size=ne)

    def traj_opt_constraint(self):
        return (T(self.A[0]), T(self.A[1]), T(self.A[2]), T(self.b),
                T(self.E[0]), T(self.E[1]), T(self.E[2]), T(self.e),
                T(self.Q1), T(self.Q2), T(self.Q3), T(self.q1), T(self.q2),
                T(self.q3), torch.tensor(self.c, dtype=self.dtype))

    def value(self, x, margin=0.):
        """Least cost, or None when nothing is admissible."""
        best = None
        for al in itertools.product((0., 1.), repeat=self.na):
            al = np.array(al)
            v = self.inner(self.b + margin - self.A[0] @ x - self.A[2] @ al,
                           self.e - self.E[0] @ x - self.E[2] @ al)
            if v is None:
                continue
            v += .5 * al @ self.Q3 @ al + self.q3 @ al
            best = v if best is None else min(best, v)
        if best is None:
            return None
        return best + .5 * x @ self.Q1 @ x + self.q1 @ x + self.c

    def inner(self, b, e):
        """min .5 s Q2 s + q2 s, A s <= b, E s = e by active sets."""
        A, E, best = self.A[1], self.E[1], None
        for k in range(min(len(b), self.ns - len(e)) + 1):
            for act in itertools.combinations(range(len(b)), k):
                C = np.vstack([E, A[list(act)]])
                d = np.concatenate([e, b[list(act)]])
                m = len(d)
                K = np.block([[self.Q2, C.T], [C, np.zeros((m, m))]])
                try:
                    z = np.linalg.solve(K, np.concatenate([-self.q2, d]))
                except np.linalg.LinAlgError:
                    continue
                s, mu = z[:self.ns], z[self.ns + len(e):]
                if np.any(A @ s > b + 1e-9) or np.any(mu < -1e-9):
                    continue
                v = .5 * s @ self.Q2 @ s + self.q2 @ s
                best = v if best is None else min(best, v)
        return best


NAMES = ("Q0", "Q1", "Q2", "q0", "q1", "q2", "k", "G0", "G1", "G2", "h",
         "A0", "A1", "A2", "b")


def solve(P, x=None):
    """Least objective of the returned program (optionally at a state)."""
    p = {k: N(v) for k, v in zip(NAMES, P)}
    nx, ny, ng = p["G0"].shape[1], p["G1"].shape[1], p["G2"].shape[1]
    m = gurobipy.Model()
    xv = [m.addVar(lb=-gurobipy.GRB.INFINITY) for _ in range(nx)]
    yv = [m.addVar(lb=-gurobipy.GRB.INFINITY) for _ in range(ny)]
    gv = [m.addVar(lb=0., ub=1., vtype=gurobipy.GRB.BINARY)
          for _ in range(ng)]
    if x is not None:
        for v, t in zip(xv, x):
            v.lb = v.ub = float(t)
    vs = xv + yv + gv
    G = np.hstack([p["G0"], p["G1"], p["G2"]])
    A = np.hstack([p["A0"], p["A1"], p["A2"]])
    for row, r in zip(G, p["h"]):
        m.addLConstr(gurobipy.LinExpr(row.tolist(), vs),
                     sense=gurobipy.GRB.LESS_EQUAL, rhs=float(r))
    for row, r in zip(A, p["b"]):
        m.addLConstr(gurobipy.LinExpr(row.tolist(), vs),
                     sense=gurobipy.GRB.EQUAL, rhs=float(r))
    q = gurobipy.QuadExpr()
    off = 0
    for Q, grp in (("Q0", xv), ("Q1", yv), ("Q2", gv)):
        for i in range(len(grp)):
            for j in range(len(grp)):
                if p[Q][i, j] != 0.:
                    q.add(grp[i] * grp[j], .5 * p[Q][i, j])
        off += len(grp)
    q.add(gurobipy.LinExpr(np.concatenate([p["q0"], p["q1"],
                                           p["q2"]]).tolist(), vs))
    m.setObjective(q, sense=gurobipy.GRB.MINIMIZE)
    m.setParam(gurobipy.GRB.Param.OutputFlag, False)
    progs.solve(m)
    if m.status == gurobipy.GRB.Status.INFEASIBLE:
        return None, None
    if m.status != gurobipy.GRB.Status.OPTIMAL:
        raise gurobipy.SolverInconclusive("status %s" % m.status)
    return (float(m.ObjVal) + float(np.ravel(p["k"])[0]),
            np.array([v.x for v in xv]))


def problem(rng):
    vf = Value(rng)
    net = gen.relu_net(rng, vf.nx, 1, widths=[
        [int(rng.integers(1, 4))], [2, 2], [1, 2]][int(rng.integers(3))])
    lo, up = gen.box(rng, vf.nx)
    d = mb.ModelBounds(vf, net)
    if rng.random() < .3:       # the weights move after construction
        for prm in net.parameters():
            prm.data = prm.data + .3 * T(rng.normal(size=prm.shape))
    P = d.epsilon_opt(net, T(lo), T(up))
    return vf, net, np.array(lo, float), np.array(up, float), P


def eps(vf, npnet, x):
    v = vf.value(x)
    return None if v is None else v - float(gen.fwd(npnet, x)[0])


def clear(vf, x):
    """Admissible or not, independently of the tolerances."""
    return (vf.value(x, 1e-5) is None) == (vf.value(x, -1e-5) is None)


@chk.section(quick=220, thorough=4000, timeout=120)
def fixed_state(c, rng, i):
    vf, net, lo, up, P = problem(rng)
    c.require(len(P) == 15, "fields")
    npn = gen.net_np(net)
    seen = 0
    for x in gen.points(rng, lo, up, 3)[:4]:
        x = np.asarray(x, float)
        if not clear(vf, x):
            c.ev("borderline states")
            continue
        want = eps(vf, npn, x)
        got, _ = solve(P, x)
        c.require((want is None) == (got is None), "admissible",
                  "the program is feasible exactly where V is defined",
                  x=x, want=want, got=got)
        c.ev("inadmissible states" if want is None else "states")
        if want is not None:
            c.close(got, want, "epsilon", "V - network at a state", tol=2e-6,
                    x=x)
            seen += 1
    if seen:
        c.key(vf.q2, vf.c, gen.net_desc(net), lo)
        c.note(states=vf.nx, decisions=vf.ns, binaries=vf.na,
               net=gen.net_desc(net), got=got)
    # outside of the box nothing is admitted
    k = int(rng.integers(vf.nx))
    x = lo + (up - lo) * rng.random(vf.nx)
    x[k] = up[k] + .1 if rng.random() < .5 else lo[k] - .1
    got, _ = solve(P, x)
    c.require(got is None, "box", "a state outside the limits is admitted",
              x=x, lo=lo, up=up)


@chk.section(quick=90, thorough=1500, timeout=200)
def global_bound(c, rng, i):
    vf, net, lo, up, P = problem(rng)
    npn = gen.net_np(net)
    g, xs = solve(P)
    pts = list(gen.points(rng, lo, up, 25)) + \
        list(lo + (up - lo) * rng.random((40, vf.nx)))
    vals = [eps(vf, npn, np.asarray(x, float)) for x in pts]
    ok = [v for v in vals if v is not None]
    if g is None:
        c.require(all(v is None or not clear(vf, np.asarray(x, float))
                      for v, x in zip(vals, pts)), "infeasible",
                  "no state is admitted although V is defined at some")
        c.ev("infeasible programs")
        return
    sc = 1. + abs(g)
    for v in ok:
        c.require(g <= v + 1e-5 * (sc + abs(v)), "lower_bound",
                  "not a lower bound of V - network", bound=g, value=v)
    c.ev("states below", len(ok))
    c.require(np.all(xs >= lo - 1e-6) and np.all(xs <= up + 1e-6), "box",
              x=xs)
    xs = np.clip(xs, lo, up)
    if not clear(vf, xs):
        vf.b = vf.b + 1e-6      # the minimiser is often on the rim
    at = eps(vf, npn, xs)
    if at is None:
        raise Skip("minimiser on the rim of the domain of V")
    c.close(g, at, "attained", "the bound is attained at the minimiser",
            tol=2e-5, x=xs)
    c.key(vf.q2, vf.c, gen.net_desc(net), lo)
    c.note(bound=g, x=xs, net=gen.net_desc(net))


@chk.section(quick=90, thorough=1500, timeout=120)
def differentiable(c, rng, i):
    """The objective carries the gradient w.r.t. the output layer."""
    vf, net, lo, up, P = problem(rng)
    p = dict(zip(NAMES, P))
    z = gen.fwd(gen.net_np(net), lo, trace=True)
    w = rng.normal(size=p["q1"].numel())
    obj = p["q1"] @ T(w) + p["k"].sum()
    if not obj.requires_grad:
        c.require(False, "detached",
                  "objective detached from the network's parameters")
    obj.backward()
    nlast = net[-1].in_features
    c.close(N(net[-1].weight.grad).ravel(), -w[-nlast:], "output_weights",
            tol=1e-12)
    if net[-1].bias is not None:
        c.close(N(net[-1].bias.grad), [-1.], "output_bias", tol=1e-12)
    c.key(w, gen.net_desc(net))
    c.ev("gradients")
    c.note(net=gen.net_desc(net), units=len(z))


if __name__ == "__main__":
    chk.main()

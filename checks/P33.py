"""P33: piecewise-linear Lyapunov synthesis."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np  # noqa: E402
import cvxpy_redirect  # noqa: E402
import neural_network_lyapunov.simple_pwl_lyapunov as spl  # noqa: E402
import scipy.optimize  # noqa: E402

cvxpy_redirect.install()
chk = Check("P33", rule="grid partitions of boxes in dimension 1-3 with "
            "random break points and equilibria (also away from the origin), "
            "random/contracting dynamics, margins, weights; random subsets of "
            "the conditions declared; non-trivial: distinct problems with at "
            "least one vertex condition",
            assumptions=["scipy HiGHS LP as reference optimum; conditions at "
                         "the vertices imply them on the polytope by "
                         "linearity"])


class Problem:
    def __init__(self, rng):
        self.n = n = int(rng.choice([1, 1, 2, 2, 2, 3]))
        br = []
        for k in range(n):
            m = int(rng.integers(1, 4 if n < 3 else 3))
            b = np.cumsum(rng.uniform(.3, 1.5, m + 1))
            b -= b[0] + (b[-1] - b[0]) * rng.uniform(.2, .8)
            if rng.random() < .4:
                b += rng.normal()
            br.append(b)
        self.cells = list(itertools.product(*[range(len(b) - 1)
                                              for b in br]))
        self.br = br
        self.lo = np.array([[br[k][c[k]] for k in range(n)]
                            for c in self.cells])
        self.up = np.array([[br[k][c[k] + 1] for k in range(n)]
                            for c in self.cells])
        self.eq = int(rng.integers(len(self.cells)))
        t = rng.random(n)
        t = np.where(rng.random(n) < .3, np.round(t), t)
        self.xs = self.lo[self.eq] * (1 - t) + self.up[self.eq] * t
        self.e1 = float(rng.choice([.05, .1, .5]))
        self.e2 = float(rng.choice([.01, .1, 1.]))
        self.A, self.g = [], []
        for _ in self.cells:
            if rng.random() < .6:
                A = -np.eye(n) * rng.uniform(.5, 2.) + \
                    .1 * rng.normal(size=(n, n))
                g = -A @ self.xs + rng.normal(size=n) * \
                    float(rng.choice([0., 0., .05]))
            else:
                A, g = rng.normal(size=(n, n)), rng.normal(size=n)
            self.A.append(A)
            self.g.append(g)

    @staticmethod
    def verts(lo, up):
        return np.array(list(itertools.product(*zip(lo, up))))

    def orthants(self, m):
        for s in itertools.product((1, -1), repeat=self.n):
            lo, up = self.lo[m].copy(), self.up[m].copy()
            for k in range(self.n):
                if s[k] == 1:
                    lo[k] = max(lo[k], self.xs[k])
                else:
                    up[k] = min(up[k], self.xs[k])
            if np.all(lo <= up):
                yield np.array(s), self.verts(lo, up)

    def faces(self):
        for i, j in itertools.combinations(range(len(self.cells)), 2):
            lo = np.maximum(self.lo[i], self.lo[j])
            up = np.minimum(self.up[i], self.up[j])
            if np.all(lo <= up):
                v = np.unique(self.verts(lo, up), axis=0)
                yield i, j, v

    def build(self, rng, p=1.):
        d = spl.SimplePWLLyapunov(self.n, len(self.cells), self.e1, self.e2,
                                  self.xs, self.eq)
        self.der, self.pos, self.con = [], [], []
        for m in range(len(self.cells)):
            if rng.random() < p:
                V = self.verts(self.lo[m], self.up[m])
                V = V[rng.permutation(len(V))]
                d.add_lyapunov_derivative_in_mode(m, V, self.A[m], self.g[m])
                self.der.append((m, V))
            for s, V in self.orthants(m):
                if rng.random() < p:
                    d.add_lyapunov_positivity_in_mode(m, V, s)
                    self.pos.append((m, V, s))
        for i, j, V in self.faces():
            if rng.random() < p:
                if rng.random() < .5:
                    i, j = j, i
                d.add_continuity_constraint(i, j, V)
                self.con.append((i, j, V))
        return d

    # --- the documented conditions, evaluated directly
    def violations(self, C, D):
        s1 = s2 = ct = 0.
        for m, V in self.der:
            for v in V:
                s1 = max(s1, C[:, m] @ (self.A[m] @ v + self.g[m]) +
                         self.e2 * (C[:, m] @ v + D[m]))
        for m, V, s in self.pos:
            for v in V:
                s2 = max(s2, self.e1 * np.abs(v - self.xs).sum() -
                         (C[:, m] @ v + D[m]))
        for i, j, V in self.con:
            for v in V:
                ct = max(ct, abs(C[:, i] @ v + D[i] - C[:, j] @ v - D[j]))
        eq = abs(C[:, self.eq] @ self.xs + D[self.eq])
        return s1, s2, ct, eq


def feasible(d, tol):
    return all(np.max(con.violation(), initial=0.) <= tol
               for con in d.constraints)


@chk.section(quick=399, thorough=1500)
def constraints(c, rng, i):
    """Membership of sampled (c, d, s1, s2) in the generated constraints."""
    P = Problem(rng)
    d = P.build(rng, p=float(rng.choice([1., .6])))
    M = len(P.cells)
    c.key(P.n, M, P.xs, P.e1, len(P.der), len(P.pos), len(P.con))
    c.note(dim=P.n, modes=M, x_eq=P.xs)
    for t in range(8):
        kind = int(rng.integers(3))
        if kind == 0 or not P.con:  # one linear function: continuous
            g = rng.normal(size=P.n)
            C = np.tile(g[:, None], (1, M))
            D = np.full(M, -g @ P.xs)
        elif kind == 1:  # continuous on the equilibrium mode only
            C, D = rng.normal(size=(P.n, M)), rng.normal(size=M)
            D[P.eq] = -C[:, P.eq] @ P.xs
        else:  # continuous function breaking across a grid hyperplane
            k = int(rng.integers(P.n))
            b = P.br[k][int(rng.integers(len(P.br[k])))]
            g, h = rng.normal(size=P.n), rng.normal()
            C, D = np.tile(g[:, None], (1, M)), np.zeros(M)
            for m in range(M):
                if P.lo[m][k] >= b - 1e-12:
                    C[k, m] += h
                    D[m] -= h * b
            D -= C[:, P.eq] @ P.xs + D[P.eq]
        s1, s2, ct, eq = P.violations(C, D)
        for a1, a2 in ((1e-6, 1e-6), (-1e-3, 1e-6), (1e-6, -1e-3), (.5, .3)):
            d.c.value, d.d.value = C, D
            d.s1.value, d.s2.value = np.array([s1 + a1]), np.array([s2 + a2])
            want = ct < 1e-9 and eq < 1e-9 and a1 > 0 and a2 > 0
            if not want and 0 < max(ct, eq) < 1e-5 and a1 > 0 and a2 > 0:
                continue
            got = feasible(d, 1e-7)
            c.require(got == want, "membership",
                      "conditions %s but constraints %s" %
                      ("hold" if want else "fail",
                       "admit" if got else "reject"), s1=s1, s2=s2, ct=ct,
                      eq=eq, slack=(a1, a2), dim=P.n)
            c.ev("members" if want else "non_members")


def reference(P, w):
    n, M = P.n, len(P.cells)
    nv = n * M + M + 2
    Aub, bub, Aeq = [], [], []

    def row(m, v, one):
        r = np.zeros(nv)
        r[m * n:(m + 1) * n] = v
        r[n * M + m] = one
        return r

    for m, V in P.der:
        for v in V:
            r = row(m, P.A[m] @ v + P.g[m] + P.e2 * v, P.e2)
            r[-2] = -1
            Aub.append(r)
            bub.append(0.)
    for m, V, s in P.pos:
        for v in V:
            r = -row(m, v, 1.)
            r[-1] = -1
            Aub.append(r)
            bub.append(-P.e1 * np.abs(v - P.xs).sum())
    for i, j, V in P.con:
        for v in V:
            Aeq.append(row(i, v, 1.) - row(j, v, 1.))
    Aeq.append(row(P.eq, P.xs, 1.))
    cost = np.zeros(nv)
    cost[-2], cost[-1] = 1 - w, w
    r = scipy.optimize.linprog(
        cost, A_ub=np.array(Aub) if Aub else None, b_ub=bub if Aub else None,
        A_eq=np.array(Aeq), b_eq=np.zeros(len(Aeq)),
        bounds=[(None, None)] * (nv - 2) + [(0, None)] * 2, method="highs")
    if r.status != 0:
        raise Skip("reference LP: " + r.message)
    return r.fun


@chk.section(quick=399, thorough=1500)
def solve(c, rng, i):
    P = Problem(rng)
    d = P.build(rng)
    w = float(rng.uniform(.1, .9))
    C, D, s1, s2 = d.solve(w)
    c.require(np.asarray(C).shape == (P.n, len(P.cells)) and
              np.asarray(D).shape == (len(P.cells), ), "shape")
    v1, v2, ct, eq = P.violations(C, D)
    sc = 1 + np.abs(C).max() + np.abs(D).max()
    c.require(ct <= 1e-6 * sc and eq <= 1e-6 * sc, "continuity", ct=ct, eq=eq)
    c.require(v1 <= s1 + 1e-6 * sc, "derivative", v1=v1, s1=s1)
    c.require(v2 <= s2 + 1e-6 * sc, "positivity", v2=v2, s2=s2)
    c.require(s1 >= -1e-9 and s2 >= -1e-9, "slack_sign", s1=s1, s2=s2)
    ref = reference(P, w)
    c.close((1 - w) * s1 + w * s2, ref, "optimal_cost", tol=1e-6, w=w)
    # inside the polytopes, not only at the vertices
    if s1 <= 1e-7 and s2 <= 1e-7:
        c.ev("certificates")
    for m, V in P.der:
        L = rng.dirichlet(np.ones(len(V)), size=12)
        X = L @ V
        Vx = X @ C[:, m] + D[m]
        Vd = (X @ P.A[m].T + P.g[m]) @ C[:, m]
        c.require(np.max(Vd + P.e2 * Vx) <= s1 + 1e-6 * sc,
                  "derivative_inside")
        c.require(np.min(Vx - P.e1 * np.abs(X - P.xs).sum(1)) >=
                  -s2 - 1e-6 * sc, "positivity_inside")
        c.ev("interior_points", len(X))
    c.key(P.n, len(P.cells), P.xs, w)
    c.note(dim=P.n, modes=len(P.cells), s1=s1, s2=s2, weight=w)


if __name__ == "__main__":
    chk.main()

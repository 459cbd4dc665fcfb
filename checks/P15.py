"""P15: control-affine systems: f, G, dynamics, encodings, bounds, fitting."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch, DTYPE  # noqa: E402
from gen import T, N, fwd, net_np, points, relu_net, net_desc  # noqa: E402
from sysgen import METHODS  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
from probe import Blocks, fixed  # noqa: E402
import gurobipy  # noqa: E402
from gradcase import fd_case, jiggle, gradient_case  # noqa: E402
from gradcase import METHODS as GM  # noqa: E402
import neural_network_lyapunov.control_affine_system as cas  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov.relu_to_optimization import ReLUFreePattern  # noqa: E402,E501

chk = Check("P15", rule="linear systems, second-order systems with affine, "
            "network and mixed terms (user subclasses), network systems x "
            "bound methods x boxes (also degenerate) x input limits x "
            "states; non-trivial: distinct (system, box, method)",
            assumptions=["numpy f and G reference",
                         "solver stand-in, tolerance 1e-6 relative"])


class Affine(cas.SecondOrderControlAffineSystem):
    """A user-defined system: a = A x + a0 + phi_a(x), b likewise."""

    def __init__(self, lo, up, ulo, uup, A, a0, B, b0, inner=None):
        super().__init__(lo, up, ulo, uup)
        self.A, self.a0, self.B, self.b0 = A, a0, B, b0
        self.inner = inner
        # optional kink max(0, x[0] - c) in both, written with a slack s and
        # a binary: kink = s + d * binary
        self.c, self.d = None, 0.
        self.ha, self.hb = 0. * a0, 0. * b0

    def bend(self, c, d, ha, hb):
        self.c, self.d, self.ha, self.hb = c, d, ha, hb

    def kink(self, x):
        return 0. if self.c is None else torch.clamp(x[0] - self.c, min=0.)

    def bent(self, r, h):
        """Adds the kink to an affine output."""
        lo, up = float(self.x_lo[0]) - self.c, float(self.x_up[0]) - self.c
        d, n = self.d, self.x_dim
        # y >= 0, y >= w, y <= up b, y <= w - lo (1 - b); y = s + d b
        x = torch.zeros((4, n), dtype=self.dtype)
        x[1, 0], x[3, 0] = 1., -1.
        r.Ain_input = x
        r.Ain_slack = T([[-1.], [-1.], [1.], [1.]])
        r.Ain_binary = T([[-d], [-d], [d - up], [d - lo]])
        r.rhs_in = T([0., self.c, 0., -self.c - lo])
        r.Aout_slack, r.Aout_binary = h.reshape(-1, 1), d * h.reshape(-1, 1)
        return torch.clamp(h * up, max=0.), torch.clamp(h * up, min=0.)

    def a(self, x):
        r = self.A @ x + self.a0 + self.kink(x) * self.ha
        return r if self.inner is None else r + self.inner.a(x)

    def b(self, x):
        r = (self.B @ x + self.b0 + self.kink(x) * self.hb).reshape(
            (self.nq, self.u_dim))
        return r if self.inner is None else r + self.inner.b(x)

    def _mixed_integer_constraints_v(self):
        from neural_network_lyapunov.mip_utils import compute_range_by_IA
        ra = compute_range_by_IA(self.A, self.a0, self.x_lo, self.x_up)
        rb = compute_range_by_IA(self.B, self.b0, self.x_lo, self.x_up)
        ca = gtm.MixedIntegerConstraintsReturn()
        cb = gtm.MixedIntegerConstraintsReturn()
        if self.inner is not None:
            ca, cb, al, au, bl, bu = self.inner._mixed_integer_constraints_v()
            ra, rb = (ra[0] + al, ra[1] + au), (rb[0] + bl, rb[1] + bu)
        for r, M, v in ((ca, self.A, self.a0), (cb, self.B, self.b0)):
            r.Aout_input = M if r.Aout_input is None else r.Aout_input + M
            v0 = 0. if r.Cout is None else r.Cout
            r.Cout = v + v0 if bool((v != 0).any()) or r.Cout is not None \
                else None
        if self.c is not None:
            va, vb = self.bent(ca, self.ha), self.bent(cb, self.hb)
            ra = (ra[0] + va[0], ra[1] + va[1])
            rb = (rb[0] + vb[0], rb[1] + vb[1])
        return ca, cb, ra[0], ra[1], rb[0], rb[1]


class Sys:
    pass


def make(rng, kind):
    S = Sys()
    m = int(rng.integers(1, 4))
    nq = int(rng.integers(1, 3))
    n = int(rng.integers(1, 4)) if kind == "linear" else 2 * nq
    lo = rng.normal(size=n) - rng.uniform(0, 1.5, n)
    up = lo + rng.uniform(.2, 3., n) * (rng.random(n) < .9)
    ulo = rng.normal(size=m) - rng.uniform(0, 1.5, m)
    uup = ulo + rng.uniform(0., 3., m)
    box = (T(lo), T(up), T(ulo), T(uup))
    S.n, S.m, S.lo, S.up, S.ulo, S.uup = n, m, lo, up, ulo, uup
    meth = METHODS[int(rng.integers(4))]
    S.tight = None

    def sparse(*shape):
        return rng.normal(size=shape) * (rng.random(shape) < .7)

    if kind == "linear":
        A, B = sparse(n, n), sparse(n, m)
        S.repo = cas.LinearSystem(T(A), T(B), *box)
        S.f, S.G = (lambda x: A @ x), (lambda x: B)
        S.desc = ("linear", n, m)
        Ap, An = np.maximum(A, 0), np.minimum(A, 0)
        S.tight = lambda: ((Ap @ lo + An @ up, Ap @ up + An @ lo),
                           (B.reshape(-1), B.reshape(-1)))
        return S
    S.desc = (kind, n, m)
    ab = (lambda x: np.zeros(nq)), (lambda x: np.zeros((nq, m)))
    if kind in ("relu", "mixed"):
        while True:
            pa = relu_net(rng, n, nq, nhidden=int(rng.integers(1, 3)))
            pb = relu_net(rng, n, nq * m, nhidden=int(rng.integers(1, 3)))
            na, nb = net_np(pa), net_np(pb)
            if sum(len(b) for _, b, s in na + nb if s is not None) <= 14:
                break
        S.desc += (net_desc(pa), net_desc(pb), meth.name)
        S.repo = cas.ReluSecondOrderControlAffineSystem(*box, pa, pb, meth)
        ab = (lambda x: fwd(na, x)), (lambda x: fwd(nb, x).reshape(nq, m))

        def tight():
            r = [ReLUFreePattern(p, DTYPE).output_constraint(
                box[0], box[1], meth) for p in (pa, pb)]
            o = np.zeros(nq * m)
            return ((np.r_[lo[nq:], N(r[0].nn_output_lo)],
                     np.r_[up[nq:], N(r[0].nn_output_up)]),
                    (np.r_[o, N(r[1].nn_output_lo)],
                     np.r_[o, N(r[1].nn_output_up)]))
        if kind == "relu":
            S.tight = tight
    if kind in ("affine", "mixed"):
        A, a0, B, b0 = sparse(nq, n), sparse(nq), sparse(nq * m, n), \
            sparse(nq * m)
        if rng.random() < .3:
            a0, b0 = a0 * 0., b0 * 0.
        S.repo = Affine(*box, T(A), T(a0), T(B), T(b0),
                        S.repo if kind == "mixed" else None)
        p, q = ab
        ha, hb, k0 = 0. * a0, 0. * b0, 0.
        if kind == "affine" and up[0] > lo[0] and rng.random() < .6:
            ha, hb, k0 = rng.normal(size=nq), rng.normal(size=nq * m), \
                lo[0] + rng.uniform(.1, .9) * (up[0] - lo[0])
            S.repo.bend(float(k0), float(rng.normal()), T(ha), T(hb))
            S.desc += ("kink", )
        ab = (lambda x: A @ x + a0 + p(x) + ha * max(x[0] - k0, 0.)), \
            (lambda x: (B @ x + b0 + hb * max(x[0] - k0, 0.)).reshape(nq, m)
             + q(x))
    a, b = ab
    S.f = lambda x: np.concatenate((x[nq:], a(x)))
    S.G = lambda x: np.vstack((np.zeros((nq, m)), b(x)))
    return S


KINDS = ("linear", "affine", "relu", "mixed")


@chk.section(quick=814, thorough=9000)
def dynamics(c, rng, i):
    S = make(rng, KINDS[i % 4])
    c.require(S.repo.x_dim == S.n and S.repo.u_dim == S.m and
              S.repo.dtype == DTYPE, "dims", "dimensions")
    c.close(np.concatenate((S.repo.x_lo_all, S.repo.x_up_all)),
            np.concatenate((S.lo, S.up)), "box", "the state box", tol=0.,
            scale=1.)
    for x in points(rng, S.lo - .5, S.up + .5, 5):
        f, G = S.f(x), S.G(x)
        sc = 1 + np.abs(f).max() + np.abs(G).max()
        c.close(N(S.repo.f(T(x))), f, "f", "drift", tol=1e-10, scale=sc,
                system=S.desc, x=x)
        c.close(N(S.repo.G(T(x))), G, "G", "input matrix", tol=1e-10,
                scale=sc, system=S.desc, x=x)
        for u in points(rng, S.ulo - 1, S.uup + 1, 3):
            c.close(N(S.repo.dynamics(T(x), T(u))),
                    f + G @ np.clip(u, S.ulo, S.uup), "dynamics",
                    "f + G clamp(u)", tol=1e-10, scale=sc * 5,
                    system=S.desc, x=x, u=u, ulo=S.ulo, uup=S.uup)
            c.ev("inputs saturated" if np.any((u < S.ulo) | (u > S.uup)) else
                 "inputs inside")
    c.key(S.desc, S.lo)
    c.note(system=S.desc)


@chk.section(quick=407, thorough=4000)
def encoding(c, rng, i):
    S = make(rng, KINDS[i % 4])
    r = S.repo.mixed_integer_constraints()
    flo, fup = N(r.f_lo), N(r.f_up)
    glo, gup = N(r.G_flat_lo), N(r.G_flat_up)
    c.require(flo.shape == fup.shape == (S.n, ) and
              glo.shape == gup.shape == (S.n * S.m, ), "bound_shape",
              "shapes of the bounds", system=S.desc)
    X = points(rng, S.lo, S.up, 60)
    F = np.array([S.f(x) for x in X])
    G = np.array([S.G(x).reshape(-1) for x in X])
    sc = 1 + np.abs(F).max() + np.abs(G).max()
    for V, lo, up, w in ((F, flo, fup, "f"), (G, glo, gup, "G")):
        c.require(np.all(V >= lo - 1e-6 * sc) and np.all(V <= up + 1e-6 * sc),
                  "bounds", "a value outside the returned bounds", which=w,
                  system=S.desc, low=(V - lo).min(), high=(up - V).min())
    c.ev("values within bounds", V.size)
    # no looser than what the declared method gives
    if S.tight is not None:
        for (wl, wu), lo, up, w in zip(S.tight(), (flo, glo), (fup, gup),
                                       "fG"):
            c.require(np.all(lo >= wl - 1e-6 * sc) and
                      np.all(up <= wu + 1e-6 * sc), "loose_bounds",
                      "bounds looser than those of the method", which=w,
                      system=S.desc, lo=lo, up=up, want=(wl, wu))
        c.ev("bounds as tight as the method")
    blocks = ((Blocks(r.mip_cnstr_f, nx=S.n), F, "f"),
              (Blocks(r.mip_cnstr_G, nx=S.n), G, "G"))
    for j in rng.permutation(len(X))[:3]:
        for blk, V, w in blocks:
            pr = blk.model(fixed("input", X[j]))
            c.require(blk.nout == V.shape[1], "outputs", "number of outputs",
                      which=w, system=S.desc)
            for k in range(V.shape[1]):
                R = pr.out_range(k)
                c.require(R is not None, "admitted", "no value of " + w +
                          " admitted", system=S.desc, x=X[j])
                c.require(abs(R[0] - V[j, k]) < 3e-6 * sc and
                          abs(R[1] - V[j, k]) < 3e-6 * sc, "exact",
                          "admitted values of " + w, got=R, want=V[j, k],
                          entry=k, system=S.desc, x=X[j], lo=S.lo, up=S.up)
                c.ev("entries:" + w)
    # through the program class, f and G together, extreme entries
    prog = gtm.GurobiTorchMILP(DTYPE)
    x = prog.addVars(S.n, lb=T(S.lo), ub=T(S.up))
    f = prog.addVars(S.n, lb=-gurobipy.GRB.INFINITY)
    g = prog.addVars(S.n * S.m, lb=-gurobipy.GRB.INFINITY)
    for ret, y, w in ((r.mip_cnstr_f, f, "f"), (r.mip_cnstr_G, g, "g")):
        prog.add_mixed_integer_linear_constraints(
            ret, x, y, w + "s", w + "b", w + "i", w + "e", w + "o",
            gurobipy.GRB.BINARY)
    w = rng.normal(size=S.n + S.n * S.m) * (rng.random(S.n + S.n * S.m) < .5)
    prog.setObjective([T(w)], [f + g], 0., gurobipy.GRB.MAXIMIZE)
    opt = solve(prog)
    c.require(opt is not None, "admitted", "f and G together are infeasible",
              system=S.desc)
    xs = val(x)
    got = np.concatenate((val(f), val(g)))
    want = np.concatenate((S.f(xs), S.G(xs).reshape(-1)))
    c.close(got, want, "joint", "f and G at the solution", tol=5e-6,
            scale=sc, system=S.desc, x=xs)
    best = max(np.concatenate((S.f(p), S.G(p).reshape(-1))) @ w for p in X)
    c.require(best <= opt + 3e-6 * sc * (1 + np.abs(w).sum()), "dominates",
              "a state has a larger value", got=best, opt=opt, system=S.desc)
    pin = Pin(prog, x)
    for p in X[:2]:
        v = pin.at(p)
        e = np.concatenate((S.f(p), S.G(p).reshape(-1))) @ w
        c.require(v is not None and abs(v - e) < 5e-6 * sc *
                  (1 + np.abs(w).sum()), "pinned", "value at a state", got=v,
                  want=e, system=S.desc, x=p)
    c.key(S.desc, S.lo)
    c.note(system=S.desc, objective=opt)


@chk.section(quick=90, thorough=1500, floor=.4)
def gradients(c, rng, i):
    """Gradients of f, G and of their constraints in the parameters."""
    S = make(rng, ("relu", "relu", "linear", "affine")[i % 4])
    o = S.repo
    if hasattr(o, "phi_a"):
        ps = list(o.phi_a.parameters()) + list(o.phi_b.parameters())
        o.method = GM[int(rng.integers(2))]
    else:
        # the box ranges of these are not meant to carry gradients
        ps = [o.A, o.B]
        for p in ps:
            p.requires_grad_(True)
    ctx = dict(system=S.desc, lo=S.lo, up=S.up, ulo=S.ulo, uup=S.uup)
    x = T(points(rng, S.lo, S.up, 1)[0])
    u = T(points(rng, S.ulo - .5, S.uup + .5, 1)[0])
    jiggle(rng, *ps)
    w = T(rng.normal(size=S.n))

    def step():
        return (o.dynamics(x, u) * w).sum()
    fd_case(c, rng, step(), lambda: float(step()), ps, "dynamics", ctx)
    v = T(rng.normal(size=S.n + S.n * S.m))

    def build():
        prog = gtm.GurobiTorchMILP(DTYPE)
        r = o.mixed_integer_constraints()
        y = prog.addVars(S.n, lb=T(S.lo), ub=T(S.up))
        f = prog.addVars(S.n, lb=-gurobipy.GRB.INFINITY)
        g = prog.addVars(S.n * S.m, lb=-gurobipy.GRB.INFINITY)
        for ret, z, k in ((r.mip_cnstr_f, f, "f"), (r.mip_cnstr_G, g, "g")):
            prog.add_mixed_integer_linear_constraints(
                ret, y, z, k + "s", k + "b", k + "i", k + "e", k + "o",
                gurobipy.GRB.BINARY)
        prog.setObjective([v], [f + g], 0., gurobipy.GRB.MAXIMIZE)
        return prog
    gradient_case(c, rng, build, ps, "constraints of " + S.desc[0], ctx)
    c.key(S.desc, S.lo)


@chk.section(quick=101, thorough=800)
def fitting(c, rng, i):
    """One epoch on copies of a sample: the step must reduce the documented
    error, parameter by parameter."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    pf = relu_net(rng, n, n, slope=.1, hostile=False)
    pg = relu_net(rng, n, n * m, slope=.1, hostile=False)
    xe, ue = rng.normal(size=n), rng.normal(size=m)
    k = int(rng.integers(5, 12))
    z, y = rng.normal(size=n + m), rng.normal(size=n)
    data = torch.utils.data.TensorDataset(T(np.tile(z, (k, 1))),
                                          T(np.tile(y, (k, 1))))
    ps = list(pf.parameters()) + list(pg.parameters())

    def model():
        x, u = T(z[:n]), T(z[n:])
        return pf(x) + pg(x).reshape(n, m) @ u - pf(T(xe)) - \
            pg(T(xe)).reshape(n, m) @ T(ue)
    a, b = net_np(pf), net_np(pg)
    want = fwd(a, z[:n]) + fwd(b, z[:n]).reshape(n, m) @ z[n:] - \
        fwd(a, xe) - fwd(b, xe).reshape(n, m) @ ue
    c.close(N(model()), want, "reference", "reference model", tol=1e-9,
            scale=1 + np.abs(want).max())
    loss = ((model() - T(y))**2).mean()
    g = [N(v) for v in torch.autograd.grad(loss, ps)]
    before = [N(p).copy() for p in ps]
    cas.train_control_affine_forward_model(
        pf, pg, T(xe), T(ue), data, 1, 1e-6, batch_size=k, verbose=False)
    for p, q, d in zip(ps, before, g):
        step = N(p) - q
        big = np.abs(d) > 1e-5 * (1 + np.abs(d).max())
        c.require(np.all(np.sign(step[big]) == -np.sign(d[big])), "descent",
                  "a parameter does not follow the error's gradient",
                  step=step, gradient=d, n=n, m=m)
        c.ev("parameters", int(big.sum()))
    if loss > 1e-6:
        c.require(float(((model() - T(y))**2).mean()) < float(loss),
                  "descent", "the error does not decrease")
    c.key(n, m, z)


if __name__ == "__main__":
    chk.main()

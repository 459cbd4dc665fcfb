"""P14: barrier functions: values, extreme values, decrease, losses."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
from gen import T, N, points, grid, fwd, net_np, relu_net, net_desc  # noqa
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
from gradcase import gradient_case, methods, fd_case, jiggle  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
import neural_network_lyapunov.barrier as barrier  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P14", rule="nine system kinds x networks x offsets x rates x "
            "regions (half-spaces, boxes, box boundary, unions with binary "
            "variables, the whole box, regions sticking out of the box) x "
            "bound methods; non-trivial: distinct (system, network, region, "
            "rate)",
            assumptions=["numpy barrier and membership reference",
                         "solver stand-in, tolerance 1e-6 relative"])
NEG = -np.inf


class Bar:
    def __init__(self, rng, n, xstar, maxunits=5, scale=1.):
        while True:
            self.net = relu_net(rng, n, 1, nhidden=int(rng.integers(1, 3)),
                                scale=scale)
            self.npn = net_np(self.net)
            if sum(len(b) for _, b, s in self.npn if s is not None) <= \
                    maxunits:
                break
        self.xs = xstar
        self.c = float(rng.choice([.01, .1, .5, 2.]))
        self.h0 = float(fwd(self.npn, xstar)[0])
        self.desc = (net_desc(self.net), self.c)

    def h(self, X):
        return fwd(self.npn, X)[..., 0] - self.h0 + self.c


def region(rng, lo, up, kind=None):
    """(constraints, margin(X): positive inside, negative outside, name)."""
    n = len(lo)
    kind = int(rng.integers(6)) if kind is None else kind
    r = gtm.MixedIntegerConstraintsReturn()
    ctr = rng.uniform(.2, .8, n) * (up - lo) + lo
    if kind == 0:  # half-spaces
        k = int(rng.integers(1, 4))
        A = rng.normal(size=(k, n))
        b = A @ ctr + rng.uniform(0, .3, k)
        r.Ain_input, r.rhs_in = T(A), T(b)
        return r, (lambda X: np.min(b - X @ A.T, axis=-1)), "polytope"
    if kind == 1:  # a box given as variable bounds, may stick out
        a = ctr - rng.uniform(.1, 1.2, n) * (up - lo)
        b = ctr + rng.uniform(.1, 1.2, n) * (up - lo)
        r.input_lo, r.input_up = T(a), T(b)
        # the rows have to repeat the bounds (MixedIntegerConstraintsReturn)
        r.Ain_input = T(np.vstack((np.eye(n), -np.eye(n))))
        r.rhs_in = T(np.concatenate((b, -a)))
        return r, (lambda X: np.minimum(X - a, b - X).min(axis=-1)), "bounds"
    if kind == 2:  # boundary of a box inside the state box
        a = lo + (ctr - lo) * rng.uniform(0, .9, n)
        b = up - (up - ctr) * rng.uniform(0, .9, n)
        r = utils.box_boundary(T(a), T(b))
        return r, (lambda X: -np.abs(np.minimum(X - a, b - X).min(axis=-1))),\
            "boundary"
    if kind == 3:  # at least one of two half-spaces
        A = rng.normal(size=(2, n))
        b = A @ ctr - rng.uniform(0, .3, 2)
        M = np.abs(A).sum() * (np.abs(np.vstack((lo, up))).max() + 1) + \
            np.abs(b).max()
        # A_i x <= b_i + M (1 - z_i), z_1 + z_2 = 1
        r.Ain_input = T(A)
        r.Ain_binary = T(M * np.eye(2))
        r.rhs_in = T(b + M)
        r.Aeq_binary, r.rhs_eq = T([[1., 1.]]), T([1.])
        return r, (lambda X: np.max(b - X @ A.T, axis=-1)), "union"
    if kind == 4:  # everything
        r.Ain_input, r.rhs_in = T(np.vstack((np.eye(n), -np.eye(n)))), \
            T(np.concatenate((up, -lo)))
        return r, (lambda X: np.full(np.shape(X)[:-1], np.inf)), "all"
    # sum of slacks: |x - ctr|_1 <= rho with slack variables
    rho = float(rng.uniform(.2, 1.) * (up - lo).sum())
    Ix, Is = np.eye(n), np.eye(n)
    r.Ain_input = T(np.vstack((Ix, -Ix, np.zeros((1, n)))))
    r.Ain_slack = T(np.vstack((-Is, -Is, np.ones((1, n)))))
    r.rhs_in = T(np.concatenate((ctr, -ctr, [rho])))
    return r, (lambda X: rho - np.abs(X - ctr).sum(axis=-1)), "diamond"


def climb(f, X, lo, up, rng, iters=30):
    F = f(X)
    k = np.argsort(-F)[:20]
    B, FB = X[k].copy(), F[k].copy()
    w, s = up - lo, .3
    for _ in range(iters):
        C = np.clip(B + rng.normal(size=B.shape) * s * w, lo, up)
        C = np.where(rng.random(B.shape) < .4, B, C)
        FC = f(C)
        b = FC > FB
        B[b], FB[b] = C[b], FC[b]
        s *= .85
    j = int(np.argmax(FB))
    return FB[j], B[j]


@chk.section(quick=350, thorough=9000, floor=.6)
def extreme(c, rng, i):
    """The extreme value over a region."""
    S = sysgen.any_system(rng, i // 6)
    B = Bar(rng, S.n, points(rng, S.lo, S.up, 1)[0], maxunits=7)
    dut = barrier.Barrier(S.repo, B.net)
    m = sysgen.METHODS[int(rng.integers(4))]
    dut.network_bound_propagate_method = m
    reg, marg, name = region(rng, S.lo, S.up, i % 6)
    safe = bool(rng.integers(2))
    sg = -1. if safe else 1.
    milp, x = dut.value_as_milp(T(B.xs), B.c, reg, safe)
    opt = solve(milp)
    ctx = dict(net=B.desc, region=name, safe=safe, method=m.name, lo=S.lo,
               up=S.up, xstar=B.xs)
    tolm = 1e-7 if name == "boundary" else 0.

    def f(X):
        return np.where(marg(X) >= -tolm, sg * B.h(X), NEG)
    X = np.vstack((points(rng, S.lo, S.up, 200),
                   grid(S.lo, S.up, {1: 101, 2: 15, 3: 7}.get(S.n, 3))))
    if name == "boundary":
        a, b = box_of(reg, S.n)
        X = np.clip(X, a, b)
        for q in X:
            j = int(rng.integers(S.n))
            q[j] = (a, b)[int(rng.integers(2))][j]
    best, bx = climb(f, X, S.lo, S.up, rng)
    if opt is None:
        c.require(best == NEG or marg(bx) < 1e-6 and name != "boundary",
                  "infeasible", "program infeasible although the region "
                  "meets the box", x=bx, **ctx)
        c.ev("empty regions")
    else:
        xs = val(x)
        sc = 1 + abs(opt) + np.abs(B.h(np.vstack((S.lo, S.up)))).max()
        c.require(marg(xs) >= -3e-6, "in_region", "reported state is not in "
                  "the region", x=xs, margin=float(marg(xs)), **ctx)
        c.require(np.all(xs >= S.lo - 1e-6) and np.all(xs <= S.up + 1e-6),
                  "in_box", "reported state outside the box", x=xs, **ctx)
        c.require(abs(sg * float(B.h(xs)) - opt) < 2e-6 * sc, "attained",
                  "value at the reported state", got=sg * float(B.h(xs)),
                  opt=opt, x=xs, **ctx)
        c.require(best <= opt + 2e-6 * sc, "dominates",
                  "a state of the region is more extreme", x=bx, got=best,
                  opt=opt, **ctx)
        c.close(N(milp.compute_objective_from_mip_data_and_solution(
            solution_number=0)), np.array(opt), "recomputed",
            "objective from the recorded data", 1e-5)
        c.ev("gap below 1e-3" if opt - best < 1e-3 * sc else
             "gap above 1e-3")
    pin = Pin(milp, x)
    for p in points(rng, S.lo, S.up, 4):
        mg = float(marg(p))
        if abs(mg) < 1e-5:
            continue
        v = pin.at(p)
        if mg > 0:
            c.require(v is not None and abs(v - sg * float(B.h(p))) < 4e-6 *
                      (1 + abs(v)), "pointwise", "value with the state fixed",
                      got=v, want=sg * float(B.h(p)), x=p, **ctx)
        else:
            c.require(v is None, "outside_region",
                      "a state outside the region is feasible", x=p, **ctx)
        c.ev("pointwise inside" if mg > 0 else "pointwise outside")
    c.ev("region:" + name)
    c.key(S.desc, B.desc, name, safe, m.name, S.lo)
    c.note(network=B.desc, region=name, safe=safe, optimum=opt)


def box_of(reg, n):
    """The extent of a region, by probing."""
    from probe import Blocks
    blk = Blocks(reg, nx=n)
    pr = blk.model()
    R = np.array([pr.var_range("input", j) for j in range(n)])
    return R[:, 0], R[:, 1]


@chk.section(quick=220, thorough=6000, floor=.6)
def decrease(c, rng, i):
    """The largest violation of the decrease condition."""
    S = sysgen.any_system(rng, i, maxunits=6)
    B = Bar(rng, S.n, points(rng, S.lo, S.up, 1)[0],
            scale=float(rng.choice([.3, 1.])))
    dut = barrier.DiscreteTimeBarrier(S.repo, B.net)
    m = sysgen.METHODS[int(rng.integers(4))]
    dut.network_bound_propagate_method = m
    eps = float(rng.choice([0., .01, .1, .5, 1., 1.3]))
    r = dut.derivative_as_milp(T(B.xs), B.c, eps)
    opt = solve(r.milp)
    ctx = dict(kind=S.desc, net=B.desc, eps=eps, method=m.name, lo=S.lo,
               up=S.up, xstar=B.xs)

    def f(X, tie=0., pad=0.):
        X = np.atleast_2d(X)
        Y, M = S.cand(X, tie)
        best = np.full(len(X), NEG)
        for y, k in zip(Y, M):
            ok = k & np.all((y >= S.lo - pad) & (y <= S.up + pad), axis=1)
            if ok.any():
                best[ok] = np.maximum(best[ok], (1 - eps) * B.h(X[ok]) -
                                      B.h(y[ok]))
        return best
    X = np.vstack((points(rng, S.lo, S.up, 150), S.eq[None],
                   grid(S.lo, S.up, {1: 101, 2: 15, 3: 7}.get(S.n, 3))))
    best, bx = climb(f, X, S.lo, S.up, rng)
    if opt is None:
        c.require(best == NEG or f(bx, -1e-6, -1e-6)[0] == NEG, "infeasible",
                  "program infeasible although a state is admissible", x=bx,
                  **ctx)
    else:
        xs, yn = val(r.x), val(r.x_next)
        sc = 1 + abs(opt) + np.abs(B.h(np.vstack((S.lo, S.up)))).max()
        c.require(np.all(xs >= S.lo - 1e-6) and np.all(xs <= S.up + 1e-6) and
                  np.all(yn >= S.lo - 1e-6) and np.all(yn <= S.up + 1e-6),
                  "in_box", "reported states outside the box", x=xs, y=yn,
                  **ctx)
        Y = S.nexts(xs, 1e-5)
        c.require(any(np.abs(y - yn).max() < 2e-5 * (1 + np.abs(y).max())
                      for y in Y), "next_state", "reported next state is not "
                  "the simulated one", y=yn, want=Y, x=xs, **ctx)
        c.require(f(xs, 2e-6 * sc, 2e-6 * sc)[0] >= opt - 2e-5 * sc,
                  "attained", "violation at the reported state",
                  got=f(xs, 2e-6 * sc, 2e-6 * sc)[0], opt=opt, x=xs, **ctx)
        c.require(best <= opt + 2e-6 * sc, "dominates",
                  "a state violates more", x=bx, got=best, opt=opt, **ctx)
        c.close(N(r.milp.compute_objective_from_mip_data_and_solution(
            solution_number=0)), np.array(opt), "recomputed",
            "objective from the recorded data", 1e-5)
        c.ev("gap below 1e-3" if opt - best < 1e-3 * sc else
             "gap above 1e-3")
    pin = Pin(r.milp, r.x)
    P = points(rng, S.lo, S.up, 4)
    if opt is not None:
        P = np.vstack((P, xs))
    for p in P:
        a, b = f(p, 1e-6, 1e-6)[0], f(p, -1e-6, -1e-6)[0]
        v = pin.at(p)
        v = NEG if v is None else v
        t = 4e-6 * (1 + (abs(v) if np.isfinite(v) else 0.))
        if a == NEG:
            c.require(v == NEG, "pointwise_infeasible",
                      "inadmissible state is feasible", x=p, **ctx)
        else:
            c.require(v <= a + t and v >= b - t, "pointwise",
                      "violation with the state fixed", got=v, want=(a, b),
                      x=p, **ctx)
        c.ev("pointwise" if a != NEG else "pointwise inadmissible")
        if v != NEG:
            patterns(c, B, r, p, ctx)
    q = dut.derivative_as_milp(T(B.xs), B.c, eps,
                               binary_var_type=gtm.BINARYRELAX)
    if i % 4 == 0:
        rel = solve(q.milp)
        c.require(q.milp.gurobi_model.getAttr(GRB.Attr.NumBinVars) == 0,
                  "relaxation", "a relaxed program still has binaries", **ctx)
        c.require(opt is None or (rel is not None and rel >= opt - 2e-6 * sc),
                  "relaxation", "relaxation below the optimum", got=rel,
                  opt=opt, **ctx)
        q.milp.remove_binary_relaxation()
        v = solve(q.milp)
        c.require((v is None) == (opt is None) and
                  (v is None or abs(v - opt) < 2e-6 * sc), "restored",
                  "optimum after restoring the binaries", got=v, opt=opt,
                  **ctx)
        c.ev("relaxed and restored")
    c.key(S.desc, B.desc, eps, m.name, S.lo)
    c.note(system=S.desc, network=B.desc, rate=eps, optimum=opt)


def patterns(c, B, r, p, ctx):
    """The returned binaries are the activations at the two states."""
    for nm, bs, x in (("current", r.binary_current, p),
                      ("next", r.binary_next, pinned(r.x_next))):
        z, j = x, 0
        for W, b, s in B.npn:
            z = z @ W.T + b
            if s is None:
                continue
            for k in range(len(b)):
                if abs(z[k]) > 1e-5:
                    c.require(abs(pinned([bs[j + k]])[0] - (z[k] > 0)) < 1e-5,
                              "activation", "returned binary is not the "
                              "unit's activation", which=nm, unit=j + k, x=x,
                              **ctx)
                    c.ev("activations")
            j += len(b)
            z = np.where(z > 0, z, s * z)
        c.require(len(bs) == j, "activation", "one binary per hidden unit",
                  which=nm, **ctx)


def pinned(vs):
    return np.array([v.x for v in vs])


@chk.section(quick=120, thorough=4000, floor=.4)
def gradients(c, rng, i):
    """Gradients of values, losses and optima."""
    S = sysgen.any_system(rng, i, maxunits=5)
    B = Bar(rng, S.n, points(rng, S.lo, S.up, 1)[0], maxunits=4)
    dut = barrier.DiscreteTimeBarrier(S.repo, B.net)
    eps = float(rng.choice([0., .1, .5, 1.3]))
    own = list(B.net.parameters())
    ps = list(own)
    if S.kind.startswith("fb_"):
        ps += list(S.cnet.parameters())
        if "net" in S.fw and S.kind != "fb_relu":
            ps += list(S.fw["net"].parameters())
    elif S.kind.startswith("relu") and S.kind != "relu_plain":
        ps += list(S.net.parameters())
    ctx = dict(net=B.desc, system=S.desc, eps=eps, lo=S.lo, up=S.up,
               xstar=B.xs)
    star = T(B.xs)
    k = int(rng.choice([1, 2, 4]))
    X = points(rng, S.lo, S.up, k)
    x = T(X if rng.random() < .7 else X[0])
    jiggle(rng, *ps, x)
    y = T(points(rng, S.lo, S.up, k))
    w = T(rng.normal(size=x.shape[:-1]))
    red = RED[int(rng.integers(3))]
    mg = float(rng.choice([0., .3]))

    def value():
        return (dut.value(x, star, B.c).reshape(w.shape) * w).sum()

    def loss():
        return dut.derivative_loss_at_samples_and_next_states(
            star, B.c, eps, T(X), y, margin=mg, reduction=red).reshape(())

    def change():
        return dut.derivative(T(X[0]), star, B.c, eps).reshape(())
    fd_case(c, rng, value(), lambda: float(value()), own, "values", ctx)
    fd_case(c, rng, loss(), lambda: float(loss()), own, "losses", ctx)
    if len(S.nexts(X[0], 1e-6)) == 1 and S.kind != "pwa":
        fd_case(c, rng, change(), lambda: float(change()), ps,
                "decrease violations", ctx)
    ctx["methods"] = methods(rng, dut, S)
    reg, _, name = region(rng, S.lo, S.up, i % 6)
    safe = bool(rng.integers(2))
    part = i % 2
    if part == 0:
        gradient_case(c, rng, lambda: dut.value_as_milp(
            star, B.c, reg, safe)[0], own, "extreme value",
            dict(ctx, region=name, safe=safe))
    else:
        gradient_case(c, rng, lambda: dut.derivative_as_milp(
            star, B.c, eps).milp, ps, "decrease program", ctx)
    c.key(S.desc, B.desc, eps, X)


RED = ("mean", "max", "4norm")


def reduce(h, red):
    return float({"mean": np.mean, "max": np.max, "4norm":
                  lambda v: np.sum(v**4)**.25}[red](h))


@chk.section(quick=400, thorough=10000)
def values(c, rng, i):
    """Values, decrease violations and losses at states."""
    S = sysgen.any_system(rng, i)
    B = Bar(rng, S.n, points(rng, S.lo, S.up, 1)[0], maxunits=20)
    dut = barrier.DiscreteTimeBarrier(S.repo, B.net)
    k = int(rng.choice([1, 2, 5, 9]))
    X = points(rng, S.lo - .2, S.up + .2, k)
    ctx = dict(net=B.desc, kind=S.desc, num=k)
    v = N(dut.value(T(X), T(B.xs), B.c))
    c.require(v.size == k and (k == 1 or v.shape == (k, )), "value_shape",
              "one value per state of a batch", shape=v.shape, **ctx)
    c.close(v.reshape(-1), B.h(X), "value", "values of a batch", 1e-10,
            1 + np.abs(B.h(X)).max())
    for p in X[:2]:
        c.close(N(dut.value(T(p), T(B.xs), B.c)).reshape(-1),
                B.h(p[None]), "value", "value of one state", 1e-10,
                1 + abs(B.h(p)))
    c.close(N(dut.value(T(B.xs), T(B.xs), B.c)).reshape(-1),
            np.array([B.c]), "value_at_star", "value at x* is the offset",
            1e-10, 1.)
    eps = float(rng.choice([0., .01, .1, .5, 1., 1.3]))
    for p in points(rng, S.lo, S.up, 3):
        a, b = S.nexts(p, 1e-7), S.nexts(p, -1e-7)
        if S.kind.startswith("fb_") and S.kind != "fb_hybrid":
            a = b = [S.fw["f"](p[None], S.policy(p[None]))[0]]
        if len(a) != 1 or len(b) != 1 or S.kind == "fb_hybrid":
            continue
        got = N(dut.derivative(T(p), T(B.xs), B.c, eps)).reshape(-1)
        want = (1 - eps) * B.h(p) - B.h(a[0])
        c.close(got, np.array([want]), "derivative", "decrease violation",
                1e-9, 1 + abs(want))
        c.ev("decrease violations")
    Y = points(rng, S.lo, S.up, k)
    red = RED[int(rng.integers(3))]
    margin = float(rng.choice([0., .1, 1., -.2]))
    o = {}
    if margin != 0. or rng.random() < .5:
        o["margin"] = margin
    if red != "mean" or rng.random() < .5:
        o["reduction"] = red
    got = N(dut.derivative_loss_at_samples_and_next_states(
        T(B.xs), B.c, eps, T(X), T(Y), **o)).reshape(-1)
    h = np.maximum(0, margin + (1 - eps) * B.h(X) - B.h(Y))
    c.close(got, np.array([reduce(h, red)]), "loss", "loss at samples", 1e-9,
            1 + np.abs(h).max())
    c.ev("losses:" + red)
    c.ev("samples violating", int((h > 0).sum()))
    c.key(S.desc, B.desc, eps, X)


@chk.section(quick=120, thorough=3000, floor=.6)
def trainer(c, rng, i):
    """The trainer's barrier losses, adversarial states and sample pools."""
    kinds = ("given", "plain", "residual", "fb_relu", "fb_given", "fb_second")
    k = kinds[i % len(kinds)]
    S = sysgen.feedback(rng, kind=k[3:], maxunits=6) if k[:2] == "fb" else \
        sysgen.auto_relu(rng, kind=k, maxunits=5)
    B = Bar(rng, S.n, points(rng, S.lo, S.up, 1)[0], maxunits=4)
    eps = float(rng.choice([0., .1, .5]))
    dut = barrier.DiscreteTimeBarrier(S.repo, B.net)
    tr = tlb.Trainer()
    tr.add_barrier(dut, T(B.xs), B.c, eps)
    pool = int(rng.integers(1, 4))
    tr.barrier_value_mip_pool_solutions = pool
    tr.barrier_derivative_mip_pool_solutions = pool
    tr.add_adversarial_state_only = bool(rng.integers(2))
    tr.sample_loss_reduction = red = RED[int(rng.integers(3))]
    tr.max_sample_pool_size = int(rng.choice([3, 1000]))
    regs = {}
    for safe in (True, False):
        rs = [region(rng, S.lo, S.up, int(k)) for k in
              rng.choice([0, 1, 3, 4, 5], int(rng.integers(0, 3)))]
        rs = [r for r in rs if solve(dut.value_as_milp(
            T(B.xs), B.c, r[0], safe)[0]) is not None]
        regs[safe] = rs
    tr.safe_regions = [r[0] for r in regs[True]]
    tr.unsafe_regions = [r[0] for r in regs[False]]
    opts = {s: [solve(dut.value_as_milp(T(B.xs), B.c, r[0], s)[0])
                for r in regs[s]] for s in regs}
    dopt = solve(dut.derivative_as_milp(T(B.xs), B.c, eps).milp)

    def pooled(m):
        """Violations of the solutions the solver keeps, best first."""
        g = m.gurobi_model
        if pool > 1:
            g.setParam(GRB.Param.PoolSearchMode, 2)
            g.setParam(GRB.Param.PoolSolutions, pool)
        g.optimize()
        out = []
        for k in range(min(pool, g.solCount)):
            g.setParam(GRB.Param.SolutionNumber, k)
            out.append(g.PoolObjVal)
        return out
    pools = [sum((pooled(dut.value_as_milp(T(B.xs), B.c, r[0], s)[0])
                  for r in regs[s]), []) for s in (True, False)]
    pools.append([v for v in pooled(dut.derivative_as_milp(
        T(B.xs), B.c, eps).milp) if v > 0 or not tr.add_adversarial_state_only]
        if dopt is not None else [])
    limit = float(rng.integers(100, 200))
    tr.barrier_derivative_mip_params[GRB.Param.TimeLimit] = limit
    seen = []
    w = [None if rng.random() < .2 else float(rng.choice([0., .5, 2.]))
         for _ in range(3)]
    if dopt is None:
        w[2] = None
    sw = [float(rng.choice([0., .5, 2.])) for _ in range(3)]
    P = [points(rng, S.lo, S.up, int(rng.choice([0, 1, 4])))
         for _ in range(3)]
    P = [p.reshape(-1, S.n) for p in P]
    ctx = dict(kind=S.desc, net=B.desc, weights=w, sample_weights=sw,
               sizes=[len(p) for p in P], pool=pool,
               only=tr.add_adversarial_state_only)
    gurobipy.MONITORS.append(lambda m: seen.append(m._params.get(
        "timelimit")))
    r = tr.compute_barrier_loss(*[T(p).reshape(-1, S.n) for p in P], *sw, *w)
    del gurobipy.MONITORS[:]
    c.require(w[2] is None or limit in seen, "solver_options", "no program "
              "was solved with the given solver options", want=limit)
    H = [lambda X: -B.h(X), lambda X: B.h(X)]

    def nxt(X):
        return S.fw["f"](X, S.policy(X)) if hasattr(S, "fw") else \
            S.cand(X, 0.)[0][0]
    H.append(lambda X: (1 - eps) * B.h(X) - B.h(nxt(X)))
    names = ("safe", "unsafe", "derivative")
    for j in range(3):
        nm = names[j]
        obj = getattr(r, nm + "_mip_obj")
        loss = getattr(r, nm + "_mip_loss")
        want = [dopt] if j == 2 else opts[j == 0]
        if w[j] is None:
            c.require(obj is None and loss is None, "disabled",
                      "a disabled part has no objective", part=nm, **ctx)
        else:
            got = [obj] if j == 2 else obj
            c.require(len(got) == len(want) and np.allclose(
                got, want, rtol=1e-5, atol=1e-6), "mip_obj",
                "objective of the program", part=nm, got=got, want=want,
                **ctx)
            if w[j] != 0:
                ls = [loss] if j == 2 else loss
                c.require(np.allclose([float(v) for v in ls],
                                      w[j] * np.array(want), rtol=1e-4,
                                      atol=1e-5), "mip_loss",
                          "weighted program loss", part=nm,
                          got=[float(v) for v in ls], want=want, **ctx)
            c.ev("programs:" + nm, len(want))
        X = N(getattr(r, nm + "_state_samples")).reshape(-1, S.n)
        c.require(len(X) >= len(P[j]) and np.all(X[:len(P[j])] == P[j]),
                  "samples_kept", "given samples come first", part=nm, **ctx)
        new = X[len(P[j]):]
        if w[j] is None:
            c.require(len(new) == 0, "adversarial", "no program, no new "
                      "samples", part=nm, **ctx)
        else:
            c.require(len(new) <= pool * len(want), "adversarial",
                      "more states than requested", part=nm, **ctx)
            if j < 2:
                c.require(len(new) >= len(want), "adversarial",
                          "a program without its worst state", part=nm,
                          **ctx)
                ok = [any(g[1](x) >= -1e-5 for g in regs[j == 0])
                      for x in new]
                c.require(all(ok), "adversarial_region", "adversarial state "
                          "outside the regions", part=nm, x=new, **ctx)
            elif tr.add_adversarial_state_only:
                c.require(np.all(H[2](new) > -1e-5) if len(new) else True,
                          "adversarial_only", "state that does not violate",
                          x=new, **ctx)
                c.require(len(new) > 0 or dopt <= 1e-5, "adversarial_only",
                          "violating state not added", **ctx)
            else:
                c.require(len(new) > 0, "adversarial", "worst state missing",
                          **ctx)
            for v in want:
                if len(new) and (j < 2 or v > 1e-5 or
                                 not tr.add_adversarial_state_only):
                    c.require(np.min(np.abs(H[j](new) - v)) < 2e-5 *
                              (1 + abs(v)), "adversarial_worst",
                              "no adversarial state attains the optimum",
                              part=nm, want=v, got=H[j](new), **ctx)
            if j < 2 or all(abs(v) > 1e-6 for v in pools[2]):
                a, b = np.sort(H[j](new) if len(new) else []), np.sort(
                    pools[j])
                c.require(len(a) == len(b) and np.all(
                    np.abs(a - b) < 2e-5 * (1 + np.abs(b))), "pool",
                    "adversarial states are not those of the solver's pool",
                    part=nm, got=a, want=b, **ctx)
                c.ev("pools of several states", int(len(b) > len(want)))
            c.ev("adversarial states", len(new))
        use = X[-tr.max_sample_pool_size:]
        h = np.maximum(0, H[j](use)) if len(use) else np.zeros(0)
        wl = sw[j] * reduce(h, red) if len(h) and sw[j] else 0.
        got = N(getattr(r, nm + "_sample_loss")).reshape(-1)
        c.require(got.size == 1 and abs(got[0] - wl) < 1e-7 * (1 + abs(wl)),
                  "sample_loss", "loss on the sample pool", part=nm, got=got,
                  want=wl, reduction=red, **ctx)
        c.ev("sample losses")
    c.key(S.desc, B.desc, eps, w, sw)


if __name__ == "__main__":
    chk.main()

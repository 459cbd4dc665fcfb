"""P18: closed-loop controllers: limits, law, encoding and control bounds."""
import os
import sys
import scipy.integrate

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch, DTYPE  # noqa: E402
from gen import T, N, fwd, net_np, points, relu_net, net_desc, aged  # noqa: E402
import sysgen  # noqa: E402
from sysgen import Sys, clamp, METHODS  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
from gradcase import fd_case, jiggle  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.feedback_system as fsys  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402
from neural_network_lyapunov.examples.car import unicycle  # noqa: E402
from neural_network_lyapunov.examples.car import unicycle_feedback_system \
    as ufs  # noqa: E402
from neural_network_lyapunov.examples.car import acceleration_car  # noqa
from neural_network_lyapunov.examples.quadrotor3d import quadrotor  # noqa
from neural_network_lyapunov.examples.quadrotor3d import \
    quadrotor_feedback_system as qfs  # noqa: E402
from neural_network_lyapunov.examples.pole import pole_relu_system  # noqa

INF = GRB.INFINITY
chk = Check("P18", rule="five library forward systems, the continuous "
            "pendulum and planar quadrotor, the quadrotor and unicycle "
            "feedback examples x network and linear controllers x limits "
            "(symmetric, beyond the equilibrium input, equal, one-sided "
            "boxes, none) x bound methods x states; non-trivial: distinct "
            "(system, controller, limits, method)",
            assumptions=["numpy closed-loop reference",
                         "solver stand-in, tolerance 1e-6 relative",
                         "states whose input leaves the range of the forward "
                         "model are out of its domain"])
KINDS = sysgen.FORWARD + ("pendulum", "quad2d", "quad3", "unicycle")
LIMITS = ("hostile", "finite", "mixed", "none")
FM = ("residue", "pendulum", "quad2d")


class Uni(unicycle.UnicycleReLUModel):
    """Accepts the arguments that closed loops pass."""

    def add_dynamics_constraint(self, *a, binary_var_type=GRB.BINARY,
                                u_input_prog=None, **k):
        assert binary_var_type == GRB.BINARY
        return super().add_dynamics_constraint(*a, **k)


def small(rng, nin, nout, k=5):
    while True:
        net = relu_net(rng, nin, nout, nhidden=int(rng.integers(1, 3)),
                       scale=float(rng.choice([.4, .8])))
        npn = net_np(net)
        if sum(len(b) for _, b, s in npn if s is not None) <= k:
            return net, npn


def quad3(rng, i):
    n, m = 12, 4
    hover = float(rng.uniform(.5, 3.))
    xeq, ueq = np.zeros(n), np.full(m, hover)
    lo, up = -rng.uniform(.3, 1., n), rng.uniform(.3, 1., n)
    ulo, uup = ueq - rng.uniform(.5, 2., m), ueq + rng.uniform(.5, 2., m)
    net, npn = small(rng, 10, 9)
    cnet, cnp = small(rng, n, m)
    dt = .1
    fw = quadrotor.QuadrotorReLUSystem(DTYPE, T(lo), T(up), T(ulo), T(uup),
                                       net, hover, dt)
    a, b = rng.uniform(.1, .9, m), rng.uniform(.1, .9, m)
    ll, lu = ueq + (ulo - ueq) * a, ueq + (uup - ueq) * b
    s = qfs.QuadrotorFeedbackSystem(fw, cnet, ll, lu)
    meth = [METHODS[k] for k in rng.integers(0, 3, 2)]
    fw.network_bound_propagate_method = meth[0]
    s.controller_network_bound_propagate_method = meth[1]
    c0, f0 = fwd(cnp, xeq), fwd(npn, np.concatenate((np.zeros(6), ueq)))

    def policy(X):
        return clamp(fwd(cnp, X) - c0 + ueq, ll, lu)

    def cand(X, tie=0.):
        U = policy(X)
        d = fwd(npn, np.hstack((X[:, 3:6], X[:, 9:], U))) - f0
        v = X[:, 6:9] + d[:, 3:6]
        Y = np.hstack((X[:, :3] + (v + X[:, 6:9]) * dt / 2, d[:, :3], v,
                       d[:, 6:]))
        return [Y], [np.ones(len(X), dtype=bool)]

    return Sys("quad3", s, lo, up, xeq, cand,
               ("quad3", net_desc(cnet), meth[0].name, meth[1].name),
               policy=policy, cnp=cnp, cnet=cnet, ulo=ll, uup=lu, ueq=ueq,
               method=meth[1])


def unicyc(rng, i):
    lo, up = -rng.uniform(.3, 1.5, 3), rng.uniform(.3, 1.5, 3)
    if rng.random() < .3:
        lo[:2] = rng.uniform(.05, .2, 2)    # |R p| on one side of zero
        lo[:2] = np.where(rng.random(2) < .5, 0., lo[:2])
    ulo = np.array([0., -rng.uniform(.5, 2.)])
    uup = rng.uniform(.5, 3., 2)
    net, npn = small(rng, 3, 2)
    cnet, cnp = small(rng, 3, 2)
    dt, lam = .1, float(rng.uniform(.1, 2.))
    Rn = rng.normal(size=(int(rng.integers(2, 4)), 2))
    fw = Uni(DTYPE, T(lo), T(up), T(ulo - 1e-9), T(uup + 1e-9), net, dt, True)
    s = ufs.UnicycleFeedbackSystem(fw, cnet, ulo, uup, lam,
                                   ro.FixedROptions(T(Rn)))
    meth = METHODS[int(rng.integers(4))]
    s.controller_network_bound_propagate_method = meth
    c0, f0 = fwd(cnp, np.zeros(3)), fwd(npn, np.zeros(3))

    def policy(X):
        u = fwd(cnp, X) - c0
        u = u + np.outer(lam * np.abs(X[:, :2] @ Rn.T).sum(axis=1),
                         np.array([1., 0.]))
        return clamp(u, ulo, uup)

    def cand(X, tie=0.):
        U = policy(X)
        p = X[:, :2] + fwd(npn, np.hstack((X[:, 2:], U))) - f0
        return [np.hstack((p, X[:, 2:] + U[:, 1:] * dt))], [
            np.ones(len(X), dtype=bool)]

    return Sys("unicycle", s, lo, up, np.zeros(3), cand,
               ("unicycle", net_desc(cnet), meth.name, Rn.shape),
               policy=policy, cnp=cnp, cnet=cnet, ulo=ulo, uup=uup,
               ueq=np.zeros(2), method=meth)


def make(rng, i, kinds=KINDS):
    k = kinds[i % len(kinds)]
    if k == "quad3":
        return quad3(rng, i)
    if k == "unicycle":
        return unicyc(rng, i)
    wide = {}
    if k in ("hybrid", "relu", "given") and i % 3 == 0:
        wide = {"m": 3, "ckind": "linear"}
    S = sysgen.feedback(rng, kind=k, limits=LIMITS[(i // 3) % 4], **wide,
                        discrete=k != "given" or rng.random() < .6)
    if k in FM:
        S.fw["repo"].network_bound_propagate_method = \
            METHODS[int(rng.integers(4))]
    return S


def usable(S, X):
    """States at which the input and the mode are in the model's domain."""
    Y, M = S.cand(X, 0.)
    return np.array([sum(bool(m[k]) for m in M) == 1 for k in range(len(X))])


@chk.section(quick=284, thorough=2500, floor=.9)
def control(c, rng, i):
    """The control law and closed-loop simulation."""
    S = make(rng, i)
    X = points(rng, S.lo, S.up, 10)
    X[0] = S.eq
    X = np.vstack((X, S.eq + 5 * rng.normal(size=(3, S.n))))
    U = S.policy(X)
    with torch.no_grad():
        one = np.array([N(S.repo.compute_u(T(x))) for x in X])
        c.require(one.shape == U.shape, "control shape", sys=S.kind)
        batch = N(S.repo.compute_u(T(X)))
        single = N(S.repo.compute_u(T(X[:1])))
    for u in (one, batch):
        c.require(np.all(u >= S.ulo) and np.all(u <= S.uup),
                  "the control lies within its limits", sys=S.kind,
                  lo=S.ulo, up=S.uup)
    c.close(one, U, "control law", tol=1e-10, sys=S.kind, x=X)
    c.close(batch, U, "batched control law", tol=1e-10, sys=S.kind)
    c.close(single, U[:1], "batch of one", tol=1e-10, sys=S.kind)
    c.close(one[0], clamp(S.ueq, S.ulo, S.uup), "equilibrium control",
            tol=1e-12, sys=S.kind)
    c.ev("controls", 2 * len(X) + 1)
    X = X[:10]
    ok = usable(S, X)
    if S.kind == "unicycle":
        ok &= np.all((U[:10] >= S.ulo) & (U[:10] <= S.uup), axis=1)
    Y, M = S.cand(X, 0.)
    with torch.no_grad():
        for k in np.flatnonzero(ok):
            want = [y[k] for y, m in zip(Y, M) if m[k]][0]
            x = T(X[k])
            c.close(N(S.repo.step_forward(x)), want, "closed-loop step",
                    tol=1e-9, sys=S.kind, x=X[k])
            c.require(np.array_equal(N(x), X[k]), "state changed",
                      sys=S.kind)
            if S.kind != "fb_quad2d":
                pd = S.repo.possible_dx(x)
                c.require(len(pd) >= 1, "possible_dx", sys=S.kind)
                c.require(any(np.allclose(N(p), want, atol=1e-8)
                              for p in pd), "possible_dx contains the step",
                          sys=S.kind)
            c.ev("steps")
        if S.kind != "fb_hybrid" and ok.any():
            B = N(S.repo.step_forward(T(X[ok])))
            c.close(B, Y[0][ok], "batched closed-loop step", tol=1e-9,
                    sys=S.kind)
        # iterated simulation, as long as it stays in the model's domain
        path, x = None, X[0]
        for k in range(3):
            if not usable(S, x[None])[0]:
                break
            x = [y[0] for y, m in zip(*S.cand(x[None], 0.)) if m[0]][0]
        else:
            path = utils.step_system(S.repo, T(X[0]), 3)
    if path is not None:
        c.require(len(path) == 4, "step_system length", sys=S.kind)
        c.close(N(path[0]), X[0], "step_system start", sys=S.kind)
        for a, b in zip(path[:-1], path[1:]):
            opts = S.nexts(N(a), tie=1e-9) if S.kind == "fb_hybrid" else \
                [S.cand(N(a)[None], 0.)[0][0][0]]
            c.require(any(np.allclose(N(b), o, atol=1e-7 * (
                1 + np.abs(o).max())) for o in opts), "step_system steps",
                sys=S.kind)
    # variables offered to training
    vs = S.repo.controller_variables()
    ids = {id(v) for v in vs}
    c.require(all(id(p) in ids for p in S.cnet.parameters()),
              "controller variables", sys=S.kind)
    c.key((S.kind, S.desc))


@chk.section(quick=120, thorough=1500, floor=.4)
def gradients(c, rng, i):
    """Gradients of the control law and of closed-loop steps."""
    S = make(rng, i)
    k = int(rng.integers(1, 4))
    x = T(points(rng, S.lo, S.up, k)).requires_grad_(True)
    ps = list(S.cnet.parameters()) + [x]
    jiggle(rng, *ps)
    w, v = T(rng.normal(size=(k, len(S.ueq)))), T(rng.normal(size=(k, S.n)))
    ctx = dict(sys=S.kind, desc=S.desc, lo=S.lo, up=S.up)

    def ub():
        return (S.repo.compute_u(x) * w).sum()

    def u1():
        return sum((S.repo.compute_u(x[j]) * w[j]).sum() for j in range(k))
    fd_case(c, rng, ub(), lambda: float(ub()), ps, "batched control", ctx)
    fd_case(c, rng, u1(), lambda: float(u1()), ps, "control", ctx)
    if S.kind != "fb_hybrid":
        def f():
            return sum((S.repo.step_forward(x[j]) * v[j]).sum()
                       for j in range(k))
        fd_case(c, rng, f(), lambda: float(f()), ps, "closed-loop steps", ctx)
    c.key((S.kind, S.desc))


def program(S, bt=GRB.BINARY, cls=gtm.GurobiTorchMILP):
    mip = cls(DTYPE)
    x = mip.addVars(S.n, lb=-INF, name="x")
    y = mip.addVars(S.n, lb=-INF, name="y")
    kw = {} if bt == GRB.BINARY else {"binary_var_type": bt}
    u, fr, cr = S.repo.add_dynamics_mip_constraint(
        mip, x, y, "u", "fs", "fb", "cs", "cb", **kw)
    mip.gurobi_model.update()
    return mip, x, y, u, fr, cr


def objective(mip, vs, d):
    mip.setObjective([T(d)], [vs], 0., GRB.MAXIMIZE)
    mip.gurobi_model.update()


def states(S, rng, k):
    X = points(rng, S.lo, S.up, 3 * k)
    if np.all(S.eq >= S.lo) and np.all(S.eq <= S.up):
        X[0] = S.eq
    X = X[usable(S, X)][:k]
    if len(X) == 0:
        raise Skip("no state in the domain of the forward model")
    Y, M = S.cand(X, 0.)
    Z = np.array([[y[j] for y, m in zip(Y, M) if m[j]][0]
                  for j in range(len(X))])
    return X, S.policy(X), Z


@chk.section(quick=182, thorough=1500, floor=.7, timeout=150)
def encode(c, rng, i):
    """At each state the program admits exactly the simulated step."""
    S = make(rng, i)
    X, U, Y = states(S, rng, 4)
    mip, x, y, u, fr, cr = program(S)
    pin = Pin(mip, x)
    for k in range(len(X)):
        for vs, w in ((u, U[k]), (y, Y[k])):
            d = rng.normal(size=len(w))
            for s in (1., -1.):
                objective(mip, vs, s * d)
                o = pin.at(X[k])
                c.require(o is not None, "the simulated step is admitted",
                          sys=S.kind, x=X[k], desc=str(S.desc))
                c.close(o, s * d @ w, "the admitted step is the simulated "
                        "one", scale=1. + np.abs(d) @ np.abs(w), sys=S.kind,
                        x=X[k], which="u" if vs is u else "x_next")
                c.ev("pins")
    # over the whole box
    d = rng.normal(size=S.n)
    objective(mip, y, d)
    for v, lo, up in zip(x, S.lo, S.up):
        v.lb, v.ub = lo, up
    o = solve(mip)
    c.require(o is not None, "the box is feasible", sys=S.kind)
    xs, us, ys = val(x), val(u), val(y)
    c.close(us, S.policy(xs[None])[0], "the optimal control follows the law",
            tol=1e-5, scale=10., sys=S.kind)
    cs = S.nexts(xs, tie=1e-5)
    c.require(any(np.allclose(ys, v, atol=2e-4) for v in cs),
              "the optimal step is a simulated one", sys=S.kind, got=ys,
              want=cs)
    W = points(rng, S.lo, S.up, 300)
    ok = usable(S, W)
    if ok.any():
        Yw, M = S.cand(W[ok], 0.)
        best = max(float(np.max(np.where(m, y2 @ d, -np.inf)))
                   for y2, m in zip(Yw, M))
        c.require(o >= best - 1e-6 * (1 + abs(best)),
                  "the optimum covers every sampled step", sys=S.kind, o=o,
                  best=best)
    c.key((S.kind, S.desc))


@chk.section(quick=182, thorough=1500, floor=.7, timeout=150)
def bounds(c, rng, i):
    """Control bounds (and all others returned) contain every value."""
    S = make(rng, i)
    aged(S.cnet, lambda: program(S), i)
    mip, x, y, u, fr, cr = program(S)
    W = points(rng, S.lo, S.up, 600)
    U = S.policy(W)
    lo, up = N(cr.u_lower_bound), N(cr.u_upper_bound)
    c.require(np.all(U >= lo - 1e-7 * (1 + np.abs(U))) and np.all(
        U <= up + 1e-7 * (1 + np.abs(U))),
        "the control bounds contain every control", sys=S.kind, lo=lo, up=up,
        umin=U.min(axis=0), umax=U.max(axis=0))
    f = np.isfinite(S.ulo)
    c.require(np.all(lo[f] >= S.ulo[f] - 1e-9) and np.all(
        up[f] <= S.uup[f] + 1e-9), "the control bounds respect the limits",
        sys=S.kind)
    c.ev("bounds", 2 * len(lo))
    if cr.relu_input_lo is not None:
        _, pre = fwd(S.cnp, W, trace=True)
        pre = np.hstack(pre)
        c.require(np.all(pre >= N(cr.relu_input_lo) - 1e-6) and np.all(
            pre <= N(cr.relu_input_up) + 1e-6),
            "the controller's ReLU bounds contain every value", sys=S.kind)
    P = cr.control_bound_prog
    if P is not None and P.prog is not None and S.method.name != "IA":
        P.prog.gurobi_model.update()
        for v, a, b in zip(P.x_var, S.lo, S.up):
            v.lb, v.ub = max(v.lb, a), min(v.ub, b)
        for j in range(len(lo)):
            for s in (1., -1.):
                P.prog.gurobi_model.setObjective(
                    gurobipy.LinExpr([s], [P.u_var[j]]), sense=GRB.MAXIMIZE)
                P.prog.gurobi_model.update()
                o = solve(P.prog)
                b = float(np.max(s * U[:, j]))
                # a forward model whose range is exceeded cuts the program
                Uok = U[usable(S, W)]
                b = float(np.max(s * Uok[:, j])) if len(Uok) else -np.inf
                c.require((o is None and not len(Uok)) or (
                    o is not None and o >= b - 1e-6 * (1 + abs(b))),
                    "the control bound program covers every control",
                    sys=S.kind, o=o, best=b)
                c.ev("bound_programs")
    ok = usable(S, W)
    if fr.x_next_lb_IA is not None and ok.any():
        Y, M = S.cand(W[ok], 0.)
        a, b = N(fr.x_next_lb_IA), N(fr.x_next_ub_IA)
        for y2, m in zip(Y, M):
            c.require(np.all(y2[m] >= a - 1e-6) and np.all(
                y2[m] <= b + 1e-6), "next-state bounds contain every step",
                sys=S.kind)
    if getattr(fr, "x_next_bound_prog", None) is not None and ok.any():
        Y, M = S.cand(W[ok], 0.)
        p = fr.x_next_bound_prog
        p.gurobi_model.update()
        xv = fr.x_var
        for v, a, b in zip(xv, S.lo, S.up):
            v.lb, v.ub = max(v.lb, a), min(v.ub, b)
        e = np.eye(S.n)[i % S.n] * (1. if i % 2 else -1.)
        p.gurobi_model.setObjective(gurobipy.LinExpr(
            [float(v) for v in e], fr.x_next_bound_var), sense=GRB.MAXIMIZE)
        p.gurobi_model.update()
        o = solve(p)
        best = max(float(np.max(np.where(m, y2 @ e, -np.inf)))
                   for y2, m in zip(Y, M))
        c.require(o is not None and o >= best - 1e-6 * (1 + abs(best)),
                  "the step bound program covers every step", sys=S.kind,
                  o=o, best=best)
        c.ev("bound_programs")
    c.key((S.kind, S.desc))


RK = tuple(k for k in KINDS if k != "unicycle")


@chk.section(quick=121, thorough=900, floor=.6, timeout=200)
def strengthened(c, rng, i):
    """Relaxation, cuts at its optimum, and restoring keep every step."""
    S = make(rng, i, RK)
    X, U, Y = states(S, rng, 3)
    mip, x, y, u, fr, cr = program(S, gtm.BINARYRELAX)
    c.require(mip.gurobi_model.NumBinVars == 0, "the relaxed program has no "
              "binaries", sys=S.kind)
    for v, lo, up in zip(x, S.lo, S.up):
        v.lb, v.ub = lo, up
    pin = Pin(mip, x)
    d = rng.normal(size=S.n)
    objective(mip, y, d)
    for k in range(len(X)):
        o = pin.at(X[k])
        b = d @ Y[k]
        c.require(o is not None and o >= b - 1e-6 * (
            1 + np.abs(d) @ np.abs(Y[k])), "the relaxation contains the step",
            sys=S.kind, o=o, want=float(b))
        c.ev("relaxed_pins")
    cuts = 0
    if S.kind not in ("fb_quad2d", ):   # its input transform is unsupported
        for _ in range(3):
            objective(mip, y, rng.normal(size=S.n))
            o = solve(mip)
            if o is None:
                break
            n0 = mip.gurobi_model.NumConstrs
            S.repo.strengthen_dynamics_constraint(mip, fr, cr)
            mip.gurobi_model.update()
            cuts += mip.gurobi_model.NumConstrs - n0
        c.ev("cuts", cuts)
    mip.remove_binary_relaxation()
    pin = Pin(mip, x)
    for k in range(len(X)):
        d = rng.normal(size=S.n)
        for s in (1., -1.):
            objective(mip, y, s * d)
            o = pin.at(X[k])
            c.require(o is not None, "the step survives the cuts",
                      sys=S.kind, x=X[k], desc=str(S.desc), cuts=cuts)
            c.close(o, s * d @ Y[k], "exact after cuts and restoring",
                    scale=1. + np.abs(d) @ np.abs(Y[k]), sys=S.kind,
                    cuts=cuts)
    c.key((S.kind, S.desc, cuts > 0))


class Plant:
    def __init__(self, A, B):
        self.A, self.B, self.us = A, B, []

    def dynamics(self, x, u):
        self.us.append(np.array(u))
        return self.A @ x + self.B @ u


@chk.section(quick=40, thorough=200, floor=.9)
def plant(c, rng, i):
    """simulate_plant_with_controller: the saturated law drives the plant."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    net, npn = small(rng, n, m)
    xe, ue = rng.normal(size=n), rng.normal(size=m)
    ulo, uup = ue - rng.uniform(.1, 1., m), ue + rng.uniform(.1, 1., m)
    if rng.random() < .3:
        ulo, uup = ue + .1, ue + .4
    P = Plant(rng.normal(size=(n, n)) - np.eye(n), rng.normal(size=(n, m)))
    x0 = xe + rng.normal(size=n)
    t1 = float(rng.uniform(.05, .3))
    r = utils.simulate_plant_with_controller(P, net, (0., t1), T(xe), T(ue),
                                             T(ulo), T(uup), x0)
    us = np.array(P.us)
    c.require(np.all(us >= ulo) and np.all(us <= uup),
              "every control applied lies within the limits")
    c.close(r.t, np.arange(0., t1, .01), "sample times")
    c.close(r.y[:, 0], x0, "initial state")
    c.require(r.success, "integration")

    def law(x):
        return clamp(fwd(npn, x) - fwd(npn, xe) + ue, ulo, uup)

    # A kinked law is integrated to the solver's own tolerance, which can be
    # loose: a trajectory equal to that of the same adaptive solver on the
    # reference law is right too.
    ref = scipy.integrate.solve_ivp(
        lambda t, x: P.A @ x + P.B @ law(x), (0., t1), x0, t_eval=r.t)
    if ref.y.shape == r.y.shape and np.allclose(ref.y, r.y, atol=1e-8):
        c.ev("controls", len(us))
        c.key((n, m, net_desc(net), i))
        return
    x, h = x0.copy(), 1e-4
    for k in range(1, len(r.t)):
        for _ in range(100):        # midpoint rule with a fine step
            f = P.A @ x + P.B @ law(x)
            xm = x + .5 * h * f
            x = x + h * (P.A @ xm + P.B @ law(xm))
        c.require(np.allclose(r.y[:, k], x, atol=5e-3 * (
            1 + np.abs(x).max()), rtol=5e-3), "simulated trajectory",
            got=r.y[:, k], want=x, k=k)
    c.ev("controls", len(us))
    c.key((n, m, net_desc(net), i))


def loops():
    o2, o3 = torch.ones(2, dtype=DTYPE), torch.ones(3, dtype=DTYPE)
    o4 = torch.ones(4, dtype=DTYPE)

    def net(i, o):
        return torch.nn.Sequential(torch.nn.Linear(i, 2), torch.nn.ReLU(),
                                   torch.nn.Linear(2, o)).type(DTYPE)
    o9, o7 = torch.ones(9, dtype=DTYPE), torch.ones(7, dtype=DTYPE)
    yield "uni", unicycle.UnicycleReLUModel(
        DTYPE, -o3, o3, -o2, o2, net(3, 2), .1, True), 2
    yield "unizero", unicycle.UnicycleReLUZeroVelModel(
        DTYPE, -o3, o3, -o2, o2, net(3, 2), .1, True), 2
    yield "acar", acceleration_car.AccelerationCarReLUModel(
        DTYPE, -o4, o4, -o2, o2, net(4, 2), .1), 2
    yield "px4", quadrotor.QuadrotorWithPixhawkReLUSystem(
        DTYPE, -o9, o9, -o4, o4, net(7, 6), .5, .1), 4
    yield "pole", pole_relu_system.PoleReluSystem(
        -o7, o7, -o3, o3, net(7, 5), .1, .5), 3


@chk.section(quick=5, thorough=5, floor=.9)
def example_loops(c, rng, i):
    """Every example network system can be put in a closed loop."""
    name, fw, m = list(loops())[i]
    c.key(name)
    n = fw.x_dim
    ctl = torch.nn.Sequential(torch.nn.Linear(n, 2), torch.nn.ReLU(),
                              torch.nn.Linear(2, m)).type(DTYPE)
    s = fsys.FeedbackSystem(fw, ctl, fw.x_equilibrium, fw.u_equilibrium,
                            np.full(m, -1.), np.full(m, 1.))
    mip = gtm.GurobiTorchMILP(DTYPE)
    x = mip.addVars(n, lb=-INF)
    y = mip.addVars(n, lb=-INF)
    try:
        s.add_dynamics_mip_constraint(mip, x, y, "u", "a", "b", "c", "d")
        err = None
    except TypeError as e:
        err = str(e)
    c.require(err is None or "u_input_prog" in err or
              "binary_var_type" in err, "example_loop_other", sys=name,
              err=err)
    c.require(err is None, "example_loop_" + name, err=err)


if __name__ == "__main__":
    chk.main()

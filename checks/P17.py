"""P17: neural-network dynamics: simulation, equilibrium, encoding, bounds."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch, DTYPE  # noqa: E402
from gen import T, N, fwd, net_np, points, relu_net, net_desc  # noqa: E402
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
from gradcase import jiggle, fd_case, gradient_case  # noqa: E402
from gradcase import METHODS as GM  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov.examples.car import unicycle  # noqa: E402
from neural_network_lyapunov.examples.car import acceleration_car  # noqa: E402
from neural_network_lyapunov.examples.quadrotor3d import quadrotor  # noqa
from neural_network_lyapunov.examples.pole import pole_relu_system  # noqa

METHODS = sysgen.METHODS
INF = GRB.INFINITY
chk = Check("P17", rule="seven library network systems (discrete and "
            "continuous) and eight example ones x networks x boxes x bound "
            "methods x extra input bounds x states (interior, faces, corners, "
            "equilibrium); non-trivial: distinct (system, network, box)",
            assumptions=["numpy reference of the documented dynamics",
                         "solver stand-in, tolerance 1e-6 relative"])


class Case:
    pass


def auto(rng, kind):
    disc = kind == "plain" or bool(rng.random() < .6)
    S = sysgen.auto_relu(rng, kind=kind, discrete=disc, maxunits=9)
    C = Case()
    C.s, C.n, C.m, C.lo, C.up = S.repo, S.n, 0, S.lo, S.up
    C.ulo = C.uup = np.zeros(0)
    C.f = lambda X, U: S.f(X)
    C.xeq, C.ueq = S.eq, np.zeros(0)
    C.rest = None if kind == "plain" else (S.eq if disc else 0 * S.eq)
    C.desc, C.npn = (S.desc, disc), S.npn
    C.nin = lambda X, U: X
    C.method = S.method
    C.second = None
    return C


def lib(rng, kind):
    disc = kind != "given" or bool(rng.random() < .6)
    m = int(rng.integers(1, 3))
    n = int(rng.integers(1, 4))
    if kind in ("second", "residue"):
        n = int(rng.choice([2, 4]))
    F = sysgen.forward(rng, kind, n, m, maxunits=8, discrete=disc)
    C = Case()
    C.s, C.n, C.m = F["repo"], n, m
    for k in ("lo", "up", "ulo", "uup", "f", "xeq", "ueq", "npn"):
        setattr(C, k, F[k])
    C.rest = None if kind == "relu" else (C.xeq if disc else 0 * C.xeq)
    C.desc = (F["desc"], disc)
    idx = F["idx"] if kind == "residue" else list(range(n))
    C.nin = lambda X, U: np.hstack((X[:, idx], U))
    C.method = METHODS[0]
    if kind == "residue":
        C.method = C.s.network_bound_propagate_method = \
            METHODS[int(rng.integers(4))]
    C.second = (F["nq"], F["dt"]) if kind in ("second", "residue") else None
    return C


def net_upto(rng, nin, nout, k=7):
    while True:
        net = relu_net(rng, nin, nout, nhidden=int(rng.integers(1, 3)),
                       scale=float(rng.choice([.4, .8])))
        npn = net_np(net)
        if sum(len(b) for _, b, s in npn if s is not None) <= k:
            return net, npn


def example(rng, kind):
    C = Case()
    C.second, C.method = None, METHODS[0]
    if kind in ("pendulum", "quad2d"):
        F = sysgen.example_ct(rng, kind, 7)
        C.s = F["repo"]
        for k in ("lo", "up", "ulo", "uup", "f", "xeq", "ueq", "npn"):
            setattr(C, k, F[k])
        C.rest = 0 * C.xeq
        C.nin = (lambda X, U: np.hstack((X, U))) if kind == "pendulum" else \
            (lambda X, U: np.hstack((X[:, 2:3], U)))
        C.method = C.s.network_bound_propagate_method = \
            METHODS[int(rng.integers(4))]
        C.n, C.m = len(C.lo), len(C.ulo)
        C.desc = F["desc"]
        return C
    n, m = {"uni": (3, 2), "unizero": (3, 2), "acar": (4, 2),
            "quad3": (12, 4), "px4": (9, 4), "pole": (7, 3)}[kind]
    C.n, C.m = n, m
    C.xeq, C.ueq = np.zeros(n), np.zeros(m)
    if kind == "quad3":
        C.ueq = np.full(4, float(rng.uniform(.5, 3)))
    elif kind == "px4":
        C.ueq[3] = rng.uniform(.5, 3)
    elif kind == "pole":
        C.ueq[2] = rng.uniform(.5, 3)
    C.lo = C.xeq - rng.uniform(.3, 1.5, n)
    C.up = C.xeq + rng.uniform(.3, 1.5, n)
    C.ulo = C.ueq - rng.uniform(.3, 2., m)
    C.uup = C.ueq + rng.uniform(.3, 2., m)
    dt = float(rng.choice([.01, .1, .5]))
    C.rest = C.xeq
    args = [DTYPE, T(C.lo), T(C.up), T(C.ulo), T(C.uup)]
    if kind in ("uni", "unizero"):
        td = bool(rng.random() < .5)
        net, npn = net_upto(rng, 3 if td else 2, 2)
        cls = unicycle.UnicycleReLUModel if kind == "uni" else \
            unicycle.UnicycleReLUZeroVelModel
        C.s = cls(*args, net, dt, td)

        def nin(X, U):
            return np.hstack((X[:, 2:3], U if td else U[:, :1]))

        def f(X, U):
            Z = nin(X, U)
            Z0 = Z * 0
            if kind == "unizero":
                Z0 = Z.copy()
                Z0[:, 1] = 0.
            p = X[:, :2] + fwd(npn, Z) - fwd(npn, Z0)
            return np.hstack((p, X[:, 2:] + U[:, 1:] * dt))
        if kind == "unizero":
            C.rest = None   # any heading is at rest without velocity
            C.still = True
    elif kind == "acar":
        net, npn = net_upto(rng, 4, 2)
        C.s = acceleration_car.AccelerationCarReLUModel(*args, net, dt)

        def nin(X, U):
            return np.hstack((X[:, 2:], U))

        def f(X, U):
            p = X[:, :2] + fwd(npn, nin(X, U)) - fwd(npn, np.zeros(4))
            return np.hstack((p, X[:, 2:] + U * dt))
    elif kind == "pole":
        net, npn = net_upto(rng, 7, 5)
        C.s = pole_relu_system.PoleReluSystem(*args[1:], net, dt, C.ueq[2])

        def nin(X, U):
            return np.hstack((X[:, :2], X[:, 5:], U))

        def f(X, U):
            v = X[:, 2:] + fwd(npn, nin(X, U)) - fwd(
                npn, np.concatenate((np.zeros(4), C.ueq)))
            return np.hstack((X[:, :2] + (v[:, 3:] + X[:, 5:]) * dt / 2, v))
    elif kind == "px4":
        net, npn = net_upto(rng, 7, 6)
        C.s = quadrotor.QuadrotorWithPixhawkReLUSystem(*args, net, C.ueq[3],
                                                       dt)

        def nin(X, U):
            return np.hstack((X[:, 3:6], U))

        def f(X, U):
            d = fwd(npn, nin(X, U)) - fwd(npn, np.concatenate(
                (np.zeros(3), C.ueq)))
            v = X[:, 6:] + d[:, :3]
            return np.hstack((X[:, :3] + (v + X[:, 6:]) * dt / 2,
                              X[:, 3:6] + d[:, 3:], v))
    else:
        net, npn = net_upto(rng, 10, 9)
        C.s = quadrotor.QuadrotorReLUSystem(*args, net, C.ueq[0], dt)

        def nin(X, U):
            return np.hstack((X[:, 3:6], X[:, 9:], U))

        def f(X, U):
            d = fwd(npn, nin(X, U)) - fwd(npn, np.concatenate(
                (np.zeros(6), C.ueq)))
            v = X[:, 6:9] + d[:, 3:6]
            return np.hstack((X[:, :3] + (v + X[:, 6:9]) * dt / 2,
                              d[:, :3], v, d[:, 6:]))
        C.method = C.s.network_bound_propagate_method = \
            METHODS[int(rng.integers(3))]
        C.rest = C.xeq
    C.f, C.nin, C.npn = f, nin, npn
    C.desc = (kind, net_desc(net), C.method.name)
    return C


AUTO, LIB = ("plain", "given", "residual"), ("relu", "given", "second",
                                             "residue")
EX = ("pendulum", "quad2d", "uni", "unizero", "acar", "quad3", "px4", "pole")
ALL = [(auto, k) for k in AUTO] + [(lib, k) for k in LIB] + \
    [(example, k) for k in EX]


def make(rng, i, which=ALL):
    g, k = which[i % len(which)]
    C = g(rng, k)
    C.kind = g.__name__ + "_" + k
    C.args = lambda x, u: (T(x), ) if C.m == 0 else (T(x), T(u))
    return C


def sample(rng, C, k):
    X = points(rng, C.lo, C.up, k)
    U = points(rng, C.ulo, C.uup, k) if C.m else np.zeros((k, 0))
    if k > 2:
        X[0], U[0] = C.xeq, C.ueq
        X[1] = C.xeq
    return X, U


@chk.section(quick=724, thorough=2500, floor=.9)
def simulate(c, rng, i):
    """Single and batched steps equal the documented formula."""
    C = make(rng, i)
    X, U = sample(rng, C, 8)
    Y = C.f(X, U)
    with torch.no_grad():
        one = []
        for k in range(len(X)):
            a = C.args(X[k], U[k])
            b = [v.clone() for v in a]
            y = C.s.step_forward(*a)
            c.require(tuple(y.shape) == (C.n, ), "single step shape",
                      sys=C.kind, got=tuple(y.shape))
            c.require(all(torch.equal(p, q) for p, q in zip(a, b)),
                      "simulation changes its arguments", sys=C.kind)
            if C.kind != "example_quad2d":   # has no such method
                pd = C.s.possible_dx(*C.args(X[k], U[k]))
                c.require(len(pd) == 1, "one possible next state",
                          sys=C.kind)
                c.close(N(pd[0]), N(y), "possible_dx", sys=C.kind)
            one.append(N(y))
        one = np.array(one)
        c.close(one, Y, "single step", tol=1e-9, sys=C.kind, x=X, u=U)
        for nb in (len(X), 1, 2):
            B = C.s.step_forward(*C.args(X[:nb], U[:nb]))
            c.require(tuple(B.shape) == (nb, C.n), "batched step shape",
                      sys=C.kind, got=tuple(B.shape))
            c.close(N(B), Y[:nb], "batched step", tol=1e-9, sys=C.kind)
    if C.rest is not None:
        c.close(one[0], C.rest, "the equilibrium is kept", tol=1e-12,
                sys=C.kind)
        # after parameters change, still exactly kept
        with torch.no_grad():
            for p in C.s.dynamics_relu.parameters():
                p += .3 * torch.tensor(rng.normal(size=tuple(p.shape)))
            y = N(C.s.step_forward(*C.args(C.xeq, C.ueq)))
        c.close(y, C.rest, "the equilibrium is kept by every network",
                tol=1e-12, sys=C.kind)
    if getattr(C, "still", False):
        U2 = U.copy()
        U2[:, 0] = 0.
        if np.all(U2 >= C.ulo) and np.all(U2 <= C.uup):
            with torch.no_grad():
                Z = N(C.s.step_forward(T(X), T(U2)))
            c.close(Z[:, :2], X[:, :2], "no motion at zero velocity",
                    tol=1e-12, sys=C.kind)
    if C.second is not None:
        nq, dt = C.second
        c.close(one[:, :nq], X[:, :nq] + (X[:, nq:] + one[:, nq:]) * dt / 2,
                "position update", tol=1e-12, sys=C.kind)
    c.ev("steps", 3 * len(X))
    c.key((C.kind, C.desc))


def program(C, extra=None, btype=GRB.BINARY, cls=gtm.GurobiTorchMILP):
    mip = cls(DTYPE)
    x = mip.addVars(C.n, lb=-INF, name="x")
    y = mip.addVars(C.n, lb=-INF, name="y")
    u = mip.addVars(C.m, lb=-INF, name="u") if C.m else []
    kw = {}
    if btype != GRB.BINARY:
        kw["binary_var_type"] = btype
    if C.m == 0:
        r = C.s.add_dynamics_constraint(mip, x, y, "s", "b", **kw)
    elif extra is None:
        r = C.s.add_dynamics_constraint(mip, x, y, u, "s", "b", **kw)
    else:
        r = C.s.add_dynamics_constraint(mip, x, y, u, "s", "b",
                                        additional_u_lo=T(extra[0]),
                                        additional_u_up=T(extra[1]), **kw)
    mip.gurobi_model.update()
    return mip, x, y, u, r


def direction(mip, y, d):
    mip.setObjective([T(d)], [y], 0., GRB.MAXIMIZE)
    mip.gurobi_model.update()


@chk.section(quick=180, thorough=2000, floor=.4, timeout=150)
def gradients(c, rng, i):
    """Gradients of steps and of the constraints in the network."""
    C = make(rng, i)
    ps = list(C.s.dynamics_relu.parameters())
    k = int(rng.integers(1, 4))
    X, U = sample(rng, C, k)
    for V, lo, up in ((X, C.lo, C.up), (U, C.ulo, C.uup)):
        V[:] = .5 * (lo + up) + .95 * (V - .5 * (lo + up)) if V.size else V
    a = [v.requires_grad_(True) for v in C.args(X, U)]
    jiggle(rng, *ps, *(() if C.m else a))
    w = T(rng.normal(size=(k, C.n)))
    ctx = dict(sys=C.kind, desc=C.desc, lo=C.lo, up=C.up)

    def batched():
        return (C.s.step_forward(*a) * w).sum()

    def single():
        return sum((C.s.step_forward(*[v[j] for v in a]) * w[j]).sum()
                   for j in range(k))
    fd_case(c, rng, batched(), lambda: float(batched()), ps + a,
            "batched steps", ctx)
    fd_case(c, rng, single(), lambda: float(single()), ps + a,
            "single steps", ctx)
    c.key((C.kind, C.desc))
    for o in (C.s, ):
        if hasattr(o, "network_bound_propagate_method"):
            o.network_bound_propagate_method = GM[int(rng.integers(2))]
    v = rng.normal(size=2 * C.n)

    def build():
        mip, x, y, u, r = program(C)
        if C.m:
            # the inputs stay in their range
            mip.addMConstr([torch.eye(C.m, dtype=DTYPE)], [u],
                           sense=GRB.LESS_EQUAL, b=T(C.uup))
            mip.addMConstr([torch.eye(C.m, dtype=DTYPE)], [u],
                           sense=GRB.GREATER_EQUAL, b=T(C.ulo))
        mip.setObjective([T(v[:C.n]), T(v[C.n:])], [x, y], 0., GRB.MAXIMIZE)
        return mip
    gradient_case(c, rng, build, ps, "constraints", ctx)


@chk.section(quick=434, thorough=1500, floor=.8, timeout=150)
def encode(c, rng, i):
    """At each (x, u) the program admits exactly the simulated next state."""
    C = make(rng, i)
    extra = None
    if C.m and rng.random() < .5:
        a = rng.uniform(0, .45, C.m)
        b = rng.uniform(.55, 1., C.m)
        w = C.uup - C.ulo
        extra = (C.ulo + a * w, C.ulo + b * w)
        if rng.random() < .3 and C.kind not in (
                "example_pendulum", "example_quad2d"):
            # bounds beyond the range of the model
            k = int(rng.integers(C.m))
            extra[0][k] = C.ulo[k] - 1.
    mip, x, y, u, r = program(C, extra)
    X, U = sample(rng, C, 5)
    if extra is not None:
        elo, eup = np.maximum(extra[0], C.ulo), np.minimum(extra[1], C.uup)
        U = points(rng, elo, eup, 5)
    Y = C.f(X, U)
    pin = Pin(mip, x + u)
    for k in range(len(X)):
        d = rng.normal(size=C.n)
        for s in (1., -1.):
            direction(mip, y, s * d)
            o = pin.at(np.concatenate((X[k], U[k])))
            c.require(o is not None, "the simulated step is admitted",
                      sys=C.kind, x=X[k], u=U[k], method=C.method.name)
            c.close(o, s * d @ Y[k], "the admitted next state is the "
                    "simulated one", scale=1. + np.abs(d) @ np.abs(Y[k]),
                    sys=C.kind, x=X[k], u=U[k], sign=s)
        c.ev("pins", 2)
    # over the whole box
    d = rng.normal(size=C.n)
    direction(mip, y, d)
    for v, lo, up in zip(x, C.lo, C.up):
        v.lb, v.ub = lo, up
    if C.m:
        elo, eup = (C.ulo, C.uup) if extra is None else (elo, eup)
        for v, lo, up in zip(u, elo, eup):
            v.lb, v.ub = lo, up
    o = solve(mip)
    c.require(o is not None, "the box is feasible", sys=C.kind)
    xs, us, ys = val(x), (val(u) if C.m else np.zeros(0)), val(y)
    c.close(ys, C.f(xs[None], us[None])[0], "the optimal next state is the "
            "simulated one", tol=1e-5, scale=10., sys=C.kind, x=xs, u=us)
    X = points(rng, C.lo, C.up, 400)
    U = points(rng, elo, eup, 400) if C.m else np.zeros((400, 0))
    best = float(np.max(C.f(X, U) @ d))
    c.require(o >= best - 1e-6 * (1 + abs(best)),
              "the optimum covers every sampled step", sys=C.kind, o=o,
              best=best)
    c.key((C.kind, C.desc, extra is not None))


RELAX = [a for a in ALL if a[1] not in ("uni", )]


@chk.section(quick=289, thorough=800, floor=.8, timeout=120)
def relaxed(c, rng, i):
    """Relaxed binaries: a relaxation, and exact again once restored."""
    C = make(rng, i, RELAX)
    bt = gtm.BINARYRELAX if i // len(RELAX) % 2 else GRB.CONTINUOUS
    mip, x, y, u, r = program(C, None, bt)
    c.require(mip.gurobi_model.NumBinVars == 0, "the relaxed program has no "
              "binaries", sys=C.kind)
    X, U = sample(rng, C, 3)
    Y = C.f(X, U)
    pin = Pin(mip, x + u)
    for k in range(len(X)):
        d = rng.normal(size=C.n)
        direction(mip, y, d)
        o = pin.at(np.concatenate((X[k], U[k])))
        c.require(o is not None and o >= d @ Y[k] - 1e-6 * (
            1. + np.abs(d) @ np.abs(Y[k])),
            "the relaxation contains the simulated step", sys=C.kind, o=o,
            want=float(d @ Y[k]))
        c.ev("relaxed_pins")
    if bt == gtm.BINARYRELAX:
        mip.remove_binary_relaxation()
        for k in range(len(X)):
            d = rng.normal(size=C.n)
            direction(mip, y, d)
            o = Pin(mip, x + u).at(np.concatenate((X[k], U[k])))
            c.require(o is not None, "admitted after restoring", sys=C.kind)
            c.close(o, d @ Y[k], "exact after restoring the binaries",
                    scale=1. + np.abs(d) @ np.abs(Y[k]), sys=C.kind)
    c.key((C.kind, C.desc, bt))


@chk.section(quick=289, thorough=900, floor=.8, timeout=150)
def bounds(c, rng, i):
    """Every declared bound contains the values it bounds."""
    C = make(rng, i)
    mip, x, y, u, r = program(C)
    if isinstance(r, tuple):
        # documented return of the zero-velocity unicycle: variables only
        c.require(C.kind == "example_unizero", "return value", sys=C.kind)
        return
    X = points(rng, C.lo, C.up, 500)
    U = points(rng, C.ulo, C.uup, 500) if C.m else np.zeros((500, 0))
    Y = C.f(X, U)
    Z = C.nin(X, U)
    out, pre = fwd(C.npn, Z, trace=True)
    pre = np.hstack(pre)
    slopes = np.concatenate([np.full(len(b), s) for _, b, s in C.npn
                             if s is not None])
    post = np.where(pre > 0, pre, slopes * pre)
    tol = 1e-6

    def inside(v, lo, up, what):
        if lo is None and up is None:
            return
        lo, up = N(lo).reshape(-1), N(up).reshape(-1)
        c.require(lo.shape == (v.shape[1], ) and up.shape == lo.shape,
                  what + " shape", sys=C.kind, got=lo.shape)
        sc = 1 + np.abs(v)
        c.require(np.all(v >= lo - tol * sc) and np.all(v <= up + tol * sc),
                  what + " contain every value", sys=C.kind, lo=lo, up=up,
                  vmin=v.min(axis=0), vmax=v.max(axis=0))
        c.ev("bounds", 2 * len(lo))

    inside(Z, r.nn_input_lo, r.nn_input_up, "network input bounds")
    inside(out, r.nn_output_lo, r.nn_output_up, "network output bounds")
    inside(pre, r.relu_input_lo, r.relu_input_up, "ReLU input bounds")
    inside(post, r.relu_output_lo, r.relu_output_up, "ReLU output bounds")
    inside(Y, r.x_next_lb_IA, r.x_next_ub_IA, "next-state bounds")
    pin = Pin(mip, x + u)
    mip.setObjective([], [], 0., GRB.MAXIMIZE)
    mip.gurobi_model.update()
    if pin.at(np.concatenate((X[0], U[0]))) is not None:
        want = np.concatenate((X[0], U[0])) if C.kind == "example_quad2d" \
            else Z[0]
        c.close(val(r.nn_input), want, "network input variables", sys=C.kind)
    p = r.x_next_bound_prog
    if p is not None:
        xv, yv = r.x_var, r.x_next_bound_var
        c.require(len(xv) == C.n and len(yv) == C.n, "bound program",
                  sys=C.kind)
        p.gurobi_model.update()
        for v, lo, up in zip(xv, C.lo, C.up):
            v.lb, v.ub = max(v.lb, lo), min(v.ub, up)
        for j in range(min(C.n, 3)):
            e = np.eye(C.n)[(i + j) % C.n] * (1. if j % 2 else -1.)
            p.gurobi_model.setObjective(
                gurobipy.LinExpr([float(v) for v in e], yv),
                sense=GRB.MAXIMIZE)
            p.gurobi_model.update()
            o = solve(p)
            b = float(np.max(Y @ e))
            c.require(o is not None and o >= b - tol * (1 + abs(b)),
                      "the bound program covers every step", sys=C.kind, o=o,
                      best=b)
            if C.method.name in ("MIP", "IA_MIP"):
                if C.m == 0:
                    xs = val(xv)
                    ys = C.f(xs[None], np.zeros((1, 0)))[0] @ e
                    c.close(o, ys, "the exact bound program is attained",
                            tol=1e-5, scale=10., sys=C.kind)
            c.ev("bound_programs")
    c.key((C.kind, C.desc, C.method.name))


if __name__ == "__main__":
    chk.main()

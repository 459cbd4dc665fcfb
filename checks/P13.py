"""P13: the continuous-time Lyapunov derivative and its programs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
from gen import T, N, points, grid, fwd, jac, net_np, relu_net  # noqa: E402
import itertools  # noqa: E402
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.mip_utils as mu  # noqa: E402

chk = Check("P13", rule="piecewise-affine, three autonomous network kinds and "
            "the example closed loops in continuous time x candidates x rates x value "
            "bounds x bound methods x both hybrid formulations; kink points "
            "by exact dyadic arithmetic; non-trivial: distinct (system, "
            "candidate, rate, options)",
            assumptions=["numpy dynamics and one-sided derivative reference",
                         "solver stand-in, tolerance 1e-6 relative",
                         "points within 1e-6 of a kink or mode boundary are "
                         "judged against the set of all their limits"])
EPS = lyapunov.ConvergenceEps.ExpLower
M = mu.PropagateBoundsMethod
NEG = -np.inf
KINDS = ("pwa", "plain", "given", "residual", "fb_pendulum", "fb_quad2d",
         "fb_pendulum")


def system(rng, i, maxunits=7, n=None):
    k = KINDS[i % len(KINDS)]
    if k == "pwa":
        return sysgen.pwa(rng, n=n)
    if k.startswith("fb"):
        return sysgen.feedback(rng, kind=k[3:], maxunits=maxunits, n=n,
                               discrete=False)
    return sysgen.auto_relu(rng, kind=k, maxunits=maxunits, n=n,
                            discrete=False)


def grads(npn, X):
    """Gradient of the scalar network (kinks: some limit), vectorised."""
    X = np.atleast_2d(X)
    _, pre = fwd(npn, X, trace=True)
    J = np.broadcast_to(npn[-1][0], (len(X), ) + npn[-1][0].shape)
    for (W, b, s), z in zip(npn[:-1][::-1], pre[::-1]):
        d = np.where(z > 0, 1., s)
        J = (J * d[:, None, :]) @ W
    return J[:, 0, :]


class Ref:
    """One-sided derivative along the dynamics plus rate times value."""

    def __init__(self, S, L, eps, vlo=None, vup=None):
        self.S, self.L, self.eps, self.vlo, self.vup = S, L, eps, vlo, vup

    def __call__(self, X):
        """A lower bound of the largest value: one limit per mode."""
        X = np.atleast_2d(X)
        L = self.L
        V = L.V(X)
        # on a kink: the limit from inside the box (a kink along a face of
        # the box has only that one)
        Z = X + 1e-10 * (.5 * (self.S.lo + self.S.up) - X)
        sg = np.where((Z - L.eq) @ L.Rn.T >= 0, 1., -1.)
        dV = grads(L.npn, Z) + L.lam * sg @ L.Rn
        Y, Mk = self.S.cand(X, 0.)
        best = np.full(len(X), NEG)
        for y, m in zip(Y, Mk):
            v = np.sum(dV * y, axis=1) + self.eps * V
            best[m] = np.maximum(best[m], v[m])
        if self.vlo is not None:
            best[V < self.vlo] = NEG
        if self.vup is not None:
            best[V > self.vup] = NEG
        return best

    def all(self, x, tie, vpad=0., stie=None):
        """Every value the limits at x can give."""
        L = self.L
        V = float(L.V(x))
        if self.vlo is not None and V < self.vlo - vpad:
            return []
        if self.vup is not None and V > self.vup + vpad:
            return []
        r = L.Rn @ (x - L.eq)
        opts = [(1., -1.) if abs(v) <= tie else (np.sign(v), ) for v in r]
        sgs = list(itertools.product(*opts))
        Js = jac(L.npn, x, tie=tie)
        return [float((J.reshape(-1) + L.lam * np.array(s) @ L.Rn) @ y) +
                self.eps * V for y in self.S.nexts(x, tie if stie is None
                                                   else stie)
                for J in Js for s in sgs]


def scale(S, L, opt):
    X = np.vstack((S.lo, S.up, .5 * (S.lo + S.up)))
    Y, _ = S.cand(X, 9e9)
    return 1. + abs(opt) + np.abs(L.V(X)).max() + \
        max(np.abs(y).max() for y in Y) * (
            L.lam * np.abs(L.Rn).sum() + 1. + np.abs(grads(L.npn, X)).max())


def search(ref, S, rng, n0=150, iters=30):
    lo, up = S.lo, S.up
    X = np.vstack((grid(lo, up, {1: 101, 2: 15, 3: 7}.get(len(lo), 4)),
                   points(rng, lo, up, n0),
                   np.clip(S.eq + rng.normal(size=(20, S.n)) * 1e-4, lo, up)))
    F = ref(X)
    k = np.argsort(-F)[:20]
    B, FB = X[k].copy(), F[k].copy()
    w, s = up - lo, .3
    for _ in range(iters):
        C = np.clip(B + rng.normal(size=B.shape) * s * w, lo, up)
        C = np.where(rng.random(B.shape) < .4, B, C)
        FC = ref(C)
        b = FC > FB
        B[b], FB[b] = C[b], FC[b]
        s *= .85
    j = int(np.argmax(FB))
    return FB[j], B[j]


def safe(ref, x, t):
    """x is admissible with a margin."""
    return len(ref.all(x, 0., -t, -t)) > 0


def judge(c, ref, S, L, milp, xv, rng, ctx, npts=4):
    opt = solve(milp)
    best, bx = search(ref, S, rng)
    if opt is None:
        c.require(best == NEG or not safe(ref, bx, 1e-6), "infeasible",
                  "program infeasible although a state is admissible", x=bx,
                  **ctx)
    else:
        xs = val(xv)
        sc = scale(S, L, opt)
        c.require(np.all(xs >= S.lo - 1e-6) and np.all(xs <= S.up + 1e-6),
                  "in_box", "state outside the box", x=xs, **ctx)
        A = ref.all(xs, 3e-6 * sc, 3e-6 * sc)
        c.require(len(A) and max(A) >= opt - 3e-5 * sc, "attained",
                  "value at the reported state", got=A[:8], opt=opt, x=xs,
                  **ctx)
        c.require(best <= opt + 2e-6 * sc, "dominates", "a state has a larger"
                  " value than the optimum", got=best, x=bx, opt=opt, **ctx)
        c.ev("gap below 1e-3" if opt - best < 1e-3 * sc else
             "gap above 1e-3")
    pin = Pin(milp, xv)
    P = points(rng, S.lo, S.up, npts)
    P[0] = S.eq
    if ref.vlo is not None or ref.vup is not None:
        Q = points(rng, S.lo, S.up, 30)
        P[-1] = Q[int(np.argmin(L.V(Q)))]
        c.ev("state of negative value between limits"
             if L.V(P[-1]) < 0 else "state of small value between limits")
    if len(P) > 1:  # a zero coordinate of the norm
        k = int(rng.integers(S.n))
        P[1, k] = S.eq[k]
    for p in P:
        wide = ref.all(p, 1e-6, 1e-6)
        sharp = ref.all(p, 0., -1e-6, -1e-6)
        v = pin.at(p)
        if v is None:
            c.require(not sharp, "pointwise_infeasible",
                      "an admissible state is infeasible", x=p, **ctx)
            c.ev("pointwise inadmissible")
            continue
        t = 4e-6 * scale(S, L, v)
        c.require(len(wide) and min(abs(np.array(wide) - v)) < t,
                  "pointwise", "value with the state fixed is none of the "
                  "one-sided values", got=v, want=wide[:8], x=p, **ctx)
        # no one-sided limit from inside the box exceeds it
        Q = p + 1e-6 * rng.normal(size=(24, S.n))
        Q = Q[np.all((Q > S.lo) & (Q < S.up), axis=1)]
        if sharp and len(Q):
            c.require(v >= max(ref(Q)) - 10 * t, "pointwise_max",
                      "a limit exceeds the value with the state fixed",
                      got=v, want=max(ref(Q)), x=p, **ctx)
            c.ev("limits")
        c.ev("pointwise kink" if len(wide) > 1 else "pointwise smooth")
    return opt


def setup(rng, i, maxunits=6):
    S = system(rng, i, maxunits)
    hybrid = S.kind == "pwa"
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=4,
                    rkind=0 if hybrid else None,
                    scale=float(rng.choice([.1, 1., 1.])),
                   lam=float(rng.choice([.02, .1, .5, 1., 2.])))
    eps = float(rng.choice([0., .01, .1, .5, 2.]))
    vlo = vup = None
    u = rng.random()
    if u < .3:
        V = np.sort(L.V(points(rng, S.lo, S.up, 20)))
        a, b = np.sort(rng.choice(V, 2, replace=False))
        if V[0] < 0 and rng.random() < .6:  # limits around negative values
            a, b = V[0] - 1e-3, float(rng.choice([V[1], V[-1]]))
        vlo = float(a) if u < .2 else None
        vup = float(b) if u < .1 or u > .2 else None
    if hybrid:
        dut = ctl.LyapunovContinuousTimeHybridSystem(S.repo, L.net)
    else:
        dut = ctl.LyapunovContinuousTimeSystem(S.repo, L.net)
    ctx = dict(kind=S.desc, net=L.desc, eps=eps, eq=S.eq, lo=S.lo, up=S.up,
               lower=vlo, upper=vup)
    return S, L, dut, eps, vlo, vup, ctx


def methods(rng, S, dut):
    """A consistent pair of bound methods (candidate, dynamics)."""
    if S.kind == "pwa":
        dut.network_bound_propagate_method = list(M)[int(rng.integers(4))]
        return dut.network_bound_propagate_method.name
    m = (M.IA, M.LP, M.MIP)[int(rng.integers(3))]
    dut.network_bound_propagate_method = m
    if S.kind.startswith("fb"):
        S.repo.forward_system.network_bound_propagate_method = m
        mc = m
        S.repo.controller_network_bound_propagate_method = mc
        return m.name
    ms = m if m != M.IA or rng.random() < .7 else M.IA_MIP
    S.repo.network_bound_propagate_method = ms
    return m.name + "/" + ms.name


def build(dut, S, L, eps, vlo, vup, **kw):
    return dut.lyapunov_derivative_as_milp(
        T(S.eq), L.lam, eps, EPS, R=L.R, lyapunov_lower=vlo,
        lyapunov_upper=vup, **kw)


@chk.section(quick=180, thorough=5000, floor=.7)
def program(c, rng, i):
    S, L, dut, eps, vlo, vup, ctx = setup(rng, i)
    ctx["method"] = methods(rng, S, dut)
    ref = Ref(S, L, eps, vlo, vup)
    if S.kind == "pwa" and rng.random() < .5:
        L.R = T(np.eye(S.n))    # only the identity is supported
        bad = np.eye(S.n)
        bad[int(rng.integers(S.n)), int(rng.integers(S.n))] += .25
        for f in (dut.lyapunov_derivative_as_milp,
                  dut.lyapunov_derivative_as_milp2):
            try:
                f(T(S.eq), L.lam, eps, EPS, R=T(bad))
                ok = False
            except Exception:
                ok = True
            c.require(ok, "unsupported", "a program was built although "
                      "the norm is not supported", R=bad, **ctx)
        c.ev("hybrid identity norm")
    kw = {}
    if rng.random() < .3:
        kw["x_warmstart"] = T(points(rng, S.lo, S.up, 3)[2])
    r = build(dut, S, L, eps, vlo, vup, **kw)
    opt = judge(c, ref, S, L, r.milp, r.x, rng, ctx)
    solve(r.milp)
    if opt is not None:
        xs = val(r.x)
        if S.kind != "pwa":
            y = val(r.xdot)
            Y = S.nexts(xs, 1e-5)
            c.require(any(np.abs(y - z).max() < 2e-5 * (1 + np.abs(z).max())
                          for z in Y), "xdot", "reported derivative is not "
                      "the dynamics", y=y, want=Y, x=xs, **ctx)
        c.close(N(r.milp.compute_objective_from_mip_data_and_solution(
            solution_number=0)), np.array(opt), "recomputed",
            "objective from the recorded data", 1e-5)
    c.ev("kind:" + S.kind)
    if S.kind != "pwa":
        q = build(dut, S, L, eps, vlo, vup,
                  binary_var_type=gtm.BINARYRELAX).milp
        rel = solve(q)
        c.require(q.gurobi_model.NumBinVars == 0, "relaxation", "a relaxed "
                  "program still has binaries", **ctx)
        c.require(opt is None or (rel is not None and rel >= opt - 3e-6 *
                                  scale(S, L, opt)), "relaxation",
                  "relaxation below the optimum", got=rel, opt=opt, **ctx)
        q.remove_binary_relaxation()
        v = solve(q)
        c.require((v is None) == (opt is None) and (
            v is None or abs(v - opt) < 3e-6 * scale(S, L, opt)), "restored",
            "optimum after restoring the binaries", got=v, opt=opt, **ctx)
        c.ev("relaxed and restored")
    if S.kind == "pwa":
        q = dut.lyapunov_derivative_as_milp2(
            T(S.eq), L.lam, eps, EPS, R=L.R, lyapunov_lower=vlo,
            lyapunov_upper=vup)
        o2 = judge(c, ref, S, L, q.milp, q.x, rng, dict(ctx, form="2"), 3)
        c.require((opt is None) == (o2 is None) and (
            opt is None or abs(opt - o2) < 3e-6 * scale(S, L, opt)),
            "formulations", "the two formulations disagree", got=(opt, o2),
            **ctx)
        c.ev("hybrid formulations compared")
    c.key(S.desc, L.desc, eps, S.lo, S.eq)
    c.note(system=S.desc, candidate=L.desc, rate=eps, optimum=opt)


def dyadic(net, rng):
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.round(p * 4) / 4)


@chk.section(quick=500, thorough=15000)
def values(c, rng, i):
    """lyapunov_derivative: exactly the one-sided derivatives."""
    hybrid = i % 3 == 0
    n = int(rng.integers(1, 4))
    S = system(rng, 0 if hybrid else 1 + int(rng.integers(3)), n=n)
    n = S.n
    kink = rng.random() < .6
    if kink:
        eq = np.round(rng.normal(size=n) * 4) / 4
    else:
        eq = S.eq
    L = sysgen.Lyap(rng, n, eq, maxunits=8, rkind=0 if hybrid else None)
    tol = 0.
    if kink:
        L.net = relu_net(rng, n, 1, slope=float(rng.choice([0., .5, .25])),
                         nhidden=int(rng.integers(1, 3)))
        dyadic(L.net, rng)
        L.npn = net_np(L.net)
        if L.R is None or rng.random() < .5:
            L.Rn, L.R = np.eye(n), (None if hybrid else T(np.eye(n)))
        else:
            L.Rn = np.round(L.Rn * 4) / 4
            L.R = T(L.Rn)
        L.phi0 = float(fwd(L.npn, eq)[0])
    elif L.R is None and not hybrid:
        L.R = T(np.eye(n))
    if hybrid:
        dut = ctl.LyapunovContinuousTimeHybridSystem(S.repo, L.net)
    else:
        dut = ctl.LyapunovContinuousTimeSystem(S.repo, L.net)
        tol = float(rng.choice([0., 1e-6, .05]))
    eps = float(rng.uniform(0, 2))
    ref = Ref(S, L, eps)
    P = points(rng, S.lo, S.up, 6)
    P[0] = S.eq
    if kink:
        P = np.round(P * 8) / 8
        P[0] = eq
        W, b, s = L.npn[0]
        for k in range(2, 6):  # onto first-layer kinks along an axis
            j, a = int(rng.integers(len(b))), int(rng.integers(n))
            if W[j, a] != 0:
                P[k, a] -= (W[j] @ P[k] + b[j]) / W[j, a]
        if hybrid:
            P = np.array([p for p in P if S.nexts(p, -1e-9)])
    for p in P:
        if hybrid and not S.nexts(p, -1e-9):
            continue
        # a point whose ties are clear cut
        near = len(ref.all(p, tol + 1e-9))
        far = len(ref.all(p, max(tol - 1e-9, 0.), stie=tol + 1e-9)) \
            if tol else len(ref.all(p, 0., stie=1e-9))
        A = np.array(ref.all(p, tol, stie=0.))
        exact = np.all(p * 64 == np.round(p * 64)) or len(A) == 1
        if near != far or not len(A) or not exact:
            c.ev("near-tie skipped")
            continue
        if hybrid:
            got = dut.lyapunov_derivative(T(p), T(eq), L.lam, eps, L.R)
            got = np.array([float(g.reshape(-1)[0]) for g in got])
        else:
            got = N(dut.lyapunov_derivative(T(p), T(eq), L.lam, eps, R=L.R,
                                            zero_tol=tol)).reshape(-1)
        t = 1e-8 * (1 + np.abs(A).max() + np.abs(got).max(initial=0))
        ctx = dict(x=p, eq=eq, kind=S.desc, net=L.desc, zero_tol=tol)
        c.require(all(np.min(np.abs(got - a), initial=9e9) < t for a in A),
                  "value_missing", "a one-sided value is missing", got=got,
                  want=A, **ctx)
        c.require(all(np.min(np.abs(A - g), initial=9e9) < t for g in got),
                  "value_spurious", "not a one-sided value", got=got,
                  want=A, **ctx)
        c.require(len(got) <= len(A), "value_count", "number of values",
                  got=len(got), want=len(A), **ctx)
        c.ev("states with %s value" % ("one" if len(A) == 1 else
                                       "more than one"))
        if kink and tol == 0. and len(A) == 1:
            difference_quotient(c, ref, S, L, p, A[0], eps, ctx)
    c.key(S.desc, L.desc, eps, tol, eq)


def difference_quotient(c, ref, S, L, p, want, eps, ctx):
    """The value is a derivative of V along the flow."""
    y = S.nexts(p, 0.)[0]
    h = 1e-6
    d = [(L.V(p + s * h * y) - L.V(p)) / (s * h) for s in (1, -1)]
    if abs(d[0] - d[1]) < 1e-6 * (1 + abs(d[0])):
        c.require(abs(d[0] + eps * L.V(p) - want) < 1e-5 * (1 + abs(want)),
                  "directional", "directional derivative of V", got=d,
                  want=want, **ctx)
        c.ev("difference quotients")


@chk.section(quick=200, thorough=4000)
def products(c, rng, i):
    """The gradient-times-vector and sign-times-vector helper constraints."""
    S = sysgen.pwa(rng)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=4, rkind=0)
    dut = ctl.LyapunovContinuousTimeHybridSystem(S.repo, L.net)
    n, K = S.n, S.repo.num_modes
    x = S.lo + (S.up - S.lo) * rng.uniform(size=n)
    modes = [k for k, (A, g, P, q) in enumerate(S.modes)
             if np.all(P @ x <= q - 1e-6)]
    if not modes:
        return
    k = modes[0]
    A, g = S.modes[k][:2]
    J = jac(L.npn, x, tie=0.)[0].reshape(-1)
    sg = np.where(x >= S.eq, 1., -1.)
    m = gtm.GurobiTorchMILP(torch.float64)
    which = i % 6
    _, pre = fwd(L.npn, x, trace=True)
    beta = m.addVars(len(np.concatenate(pre)), vtype="B")
    for v, z in zip(beta, np.concatenate(pre)):
        v.lb = v.ub = float(z > 0)
    alpha = m.addVars(n, vtype="B")
    for v, z in zip(alpha, sg):
        v.lb = v.ub = float(z > 0)
    s = m.addVars(n * K, lb=-9e9)
    for j, v in enumerate(s):
        v.lb = v.ub = float(x[j - k * n]) if k * n <= j < (k + 1) * n else 0.
    gamma = m.addVars(K, vtype="B")
    for j, v in enumerate(gamma):
        v.lb = v.ub = float(j == k)
    dx = A @ x + g
    xdot = m.addVars(n, lb=-9e9)
    for v, z in zip(xdot, dx):
        v.lb = v.ub = float(z)
    extra = 0.
    lo, up = S.repo.dx_lower, S.repo.dx_upper
    c.require(np.all(dx >= lo - 1e-7) and np.all(dx <= up + 1e-7),
              "dx_bounds", "derivative outside its bounds", x=x)
    if which == 0:
        z, a = dut.add_relu_gradient_times_Aisi(m, s, beta)
        want = J @ A @ x
    elif which == 1:
        z, a = dut.add_relu_gradient_times_gigammai(m, gamma, beta)
        want = J @ g
    elif which == 2:
        z, a = dut.add_relu_gradient_times_xdot(m, xdot, beta, lo, up)
        want = J @ dx
        z, a = [z], [a]
    elif which == 3:
        z, a, e = dut.add_sign_state_error_times_Aisi(m, s, alpha)
        want = sg @ A @ x
        extra = N(e[k]) @ x
    elif which == 4:
        z, a, e = dut.add_sign_state_error_times_gigammai(m, gamma, alpha)
        want = sg @ g
        extra = N(e[k]).sum()
    else:
        z, a, e = dut.add_sign_state_error_times_xdot(m, xdot, alpha, lo, up)
        want = sg @ dx
        extra = N(e) @ dx
        z, a = [z], [a]
    vs = sum((list(v) for v in z), [])
    for sense in (gtm.gurobipy.GRB.MAXIMIZE, gtm.gurobipy.GRB.MINIMIZE):
        m.setObjective([t.reshape(-1) for t in a], z, 0., sense)
        v = solve(m)
        c.require(v is not None and abs(v + extra - want) < 1e-5 * (
            1 + abs(want) + np.abs(dx).sum()), "product",
            "product admitted by the constraints", which=which, want=want,
            got=None if v is None else v + extra, x=x, kind=S.desc)
    c.ev("products:%d" % which)
    c.key(S.desc, L.desc, which, S.eq, len(vs))


@chk.section(quick=80, thorough=2000)
def certified(c, rng, i):
    """A non-positive optimum makes V decay along integrated motions."""
    n = int(rng.integers(1, 3))
    lam = float(rng.choice([.5, 1., 2.]))
    if i % 2:
        S = sysgen.pwa(rng, n=n, gain=.15)
        # xdot = A (x - eq) with a shift that makes it contractive
        s = sysgen.hls.AutonomousHybridLinearSystem(n, torch.float64)
        modes = []
        for A, g, P, q in S.modes:
            A2 = A - np.eye(n)
            g2 = -A2 @ S.eq
            s.add_mode(T(A2), T(g2), T(P), T(q))
            modes.append((A2, g2, P, q))
        S.repo, S.modes = s, modes

        def cand(X, tie=0.):
            return ([X @ A.T + g for A, g, _, _ in modes],
                    [np.all(X @ P.T <= q + tie, axis=1)
                     for _, _, P, q in modes])
        S.cand = cand
        cls = ctl.LyapunovContinuousTimeHybridSystem
    else:
        S = sysgen.auto_relu(rng, n=n, kind="given", maxunits=4,
                             discrete=False)
        W = torch.nn.Linear(n, 2 * n).type(torch.float64)
        V = torch.nn.Linear(2 * n, n).type(torch.float64)
        with torch.no_grad():
            W.weight.copy_(T(np.vstack((np.eye(n), -np.eye(n)))))
            W.bias.copy_(T(rng.normal(size=2 * n) * .2))
            V.weight.copy_(T(np.hstack((-np.eye(n), np.eye(n))) +
                             rng.normal(size=(n, 2 * n)) * .1))
            V.bias.copy_(T(rng.normal(size=n)))
        net = torch.nn.Sequential(W, torch.nn.ReLU(), V)
        S.repo = sysgen.rsys.AutonomousReLUSystemGivenEquilibrium(
            torch.float64, T(S.lo), T(S.up), net, T(S.eq), False)
        npn = net_np(net)
        f0 = fwd(npn, S.eq)
        S.cand = sysgen._one(lambda X: fwd(npn, X) - f0)
        cls = ctl.LyapunovContinuousTimeSystem
    L = sysgen.Lyap(rng, n, S.eq, maxunits=3, scale=.05, rkind=0, lam=lam)
    dut = cls(S.repo, L.net)
    eps = float(rng.choice([.01, .1, .3]))
    ctx = dict(kind=S.desc, net=L.desc, eps=eps, eq=S.eq)
    ref = Ref(S, L, eps)
    r = build(dut, S, L, eps, None, None)
    opt = judge(c, ref, S, L, r.milp, r.x, rng, ctx, 2)
    c.key(S.desc, L.desc, eps, S.eq)
    if opt is None or opt > 1e-7:
        c.ev("not certified")
        return
    c.ev("certificates")
    for p in points(rng, S.lo, S.up, 4):
        x, h = p, 1e-3
        for k in range(300):
            Y = S.nexts(x, 1e-12)
            if not Y or not S.inbox(x, 0.):
                break
            y = x + h * Y[0]
            c.require(L.V(y) <= L.V(x) * (1 - eps * h) + 2e-3 * h * scale(
                S, L, 0.) + 1e-9 + 40 * h * h * scale(S, L, 0.),
                "certified_decay", "value along a motion", x=x, y=y,
                V=(L.V(x), L.V(y)), **ctx)
            x = y
        c.ev("certified motion steps", k)


if __name__ == "__main__":
    chk.main()

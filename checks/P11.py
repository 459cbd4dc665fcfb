"""P11: losses at sampled states, and gradients of the certificates' optima."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, fwd, net_np, points, relu_net, net_desc  # noqa: E402
import sysgen  # noqa: E402
from progs import solve  # noqa: E402
from gradcase import gradient_case, methods, METHODS  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.dynamic_system as ds  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402
import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P11", rule="losses: all system kinds x rate types x reductions "
            "x margins x weights x batch sizes from 1; gradients: positivity "
            "and decrease programs of random candidates, autonomous and "
            "closed-loop systems, w.r.t. candidate, controller and norm "
            "parameters along random directions; non-trivial: distinct "
            "(system, candidate, options) with a non-zero loss or gradient",
            assumptions=["numpy reference of the violations",
                         "gradients are compared with central differences of "
                         "re-solved programs only where the one-sided "
                         "differences of two step sizes agree"])
EPS = list(lyapunov.ConvergenceEps)
RED = ("mean", "max", "4norm")


def reduce(h, red, w=None):
    if red == "mean":
        return float(np.mean(h if w is None else w * h))
    if red == "max":
        return float(np.max(h))
    return float(np.sum(np.abs(h)**4)**.25)


def options(rng, k):
    red = RED[int(rng.integers(3))]
    margin = float(rng.choice([0., 0., .1, 1., -.2]))
    w = None
    if red == "mean" and rng.random() < .5:
        w = rng.uniform(0, 2, k)
        if rng.random() < .3:
            w[int(rng.integers(k))] = 0.
    return red, margin, w


def kw(margin, red, w, rng):
    d = {}
    if margin != 0 or rng.random() < .5:
        d["margin"] = margin
    if red != "mean" or rng.random() < .5:
        d["reduction"] = red
    if w is not None:
        d["weight"] = T(w)
    return d


def judge(c, got, h, red, w, what, **ctx):
    got = N(got).reshape(-1)
    c.require(got.size == 1, what, "a loss is one number", shape=got.shape)
    want = reduce(h, red, w)
    c.close(got[0], want, what, "loss", tol=1e-9,
            scale=1 + abs(want), reduction=red, weight=w, hinge=h, **ctx)
    c.ev("losses:%s%s" % (red, "" if w is None else " weighted"))
    c.ev("samples violating", int((h > 0).sum()))
    c.ev("samples satisfying", int((h <= 0).sum()))


@chk.section(quick=250, thorough=8000)
def positivity(c, rng, i):
    S = sysgen.any_system(rng, i)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=20)
    cls = (lyapunov.LyapunovDiscreteTimeHybridSystem,
           lyapunov.LyapunovHybridLinearSystem)[int(rng.integers(2))]
    dut = cls(S.repo, L.net)
    for _ in range(3):
        k = int(rng.choice([1, 2, 5, 17]))
        X = points(rng, S.lo, S.up, k)
        if rng.random() < .3:
            X[-1] = S.eq
        eps = float(rng.choice([0., .01, .5, 2., 5.]))
        red, margin, w = options(rng, k)
        got = dut.lyapunov_positivity_loss_at_samples(
            T(S.eq), T(X), L.lam, eps, R=L.R, **kw(margin, red, w, rng))
        h = np.maximum(0, margin + eps * L.l1(X) - L.V(X))
        judge(c, got, h, red, w, "positivity_loss", eps=eps, margin=margin,
              candidate=L.desc)
    c.key("pos", S.desc, L.desc, X)
    c.note(system=S.desc, candidate=L.desc, loss=N(got))


def viol(V, Vn, l1, et, eps):
    if et.name == "ExpLower":
        return Vn - (1 - eps) * V
    if et.name == "ExpUpper":
        return -(Vn - (1 - eps) * V)
    return Vn - V + eps * l1


@chk.section(quick=250, thorough=8000)
def decrease(c, rng, i):
    S = sysgen.any_system(rng, i)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=20)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    k = int(rng.choice([1, 2, 5, 17]))
    X = points(rng, S.lo, S.up, k)
    if rng.random() < .3:
        X[-1] = S.eq
    for _ in range(3):
        et = EPS[int(rng.integers(3))]
        eps = float(rng.choice([0., .01, .1, .5, 1., 1.5]))
        red, margin, w = options(rng, k)
        o = kw(margin, red, w, rng)
        # next states given by the caller (need not be those of the system)
        Y = points(rng, S.lo - .3, S.up + .3, k)
        got = dut.lyapunov_derivative_loss_at_samples_and_next_states(
            L.lam, eps, T(X), T(Y), T(S.eq), et, R=L.R, **o)
        h = np.maximum(0, margin + viol(L.V(X), L.V(Y), L.l1(X), et, eps))
        judge(c, got, h, red, w, "decrease_loss", et=et.name, eps=eps,
              margin=margin, candidate=L.desc)
        # next states of the system
        Yc = []
        for x in X:
            if S.kind.startswith("fb_") and S.kind != "fb_hybrid":
                Yc.append(S.fw["f"](x[None], S.policy(x[None]))[0])
                continue
            a, b = S.nexts(x, 1e-7), S.nexts(x, -1e-7)
            if len(a) != len(b) or not a:
                break
            if len(a) > 1:
                break
            Yc.append(a[0])
        if len(Yc) < k or S.kind == "fb_hybrid":
            c.ev("samples on a mode boundary: skipped")
            continue
        Y = np.array(Yc)
        got = dut.lyapunov_derivative_loss_at_samples(
            L.lam, eps, T(X), T(S.eq), et, R=L.R, **o)
        h = np.maximum(0, margin + viol(L.V(X), L.V(Y), L.l1(X), et, eps))
        judge(c, got, h, red, w, "decrease_loss_system", et=et.name, eps=eps,
              margin=margin, system=S.desc, candidate=L.desc, X=X, Y=Y)
    c.key("der", S.desc, L.desc, X)
    c.note(system=S.desc, candidate=L.desc)


def dV(L, x, d, h=1e-7):
    """Two-sided directional derivative of V (nan when they differ)."""
    a = (L.V(x + h * d) - L.V(x)) / h
    b = (L.V(x) - L.V(x - h * d)) / h
    return a if abs(a - b) < 1e-5 * (1 + abs(a)) else np.nan


@chk.section(quick=200, thorough=6000)
def decrease_continuous(c, rng, i):
    n = int(rng.integers(1, 4))
    hybrid = i % 2 == 0
    if hybrid:
        S = sysgen.pwa(rng, n=n)
        L = sysgen.Lyap(rng, n, S.eq, maxunits=20, rkind=0)
        if rng.random() < .5:
            L.R = T(np.eye(n))
        dut = ctl.LyapunovContinuousTimeHybridSystem(S.repo, L.net)
    else:
        S = sysgen.auto_relu(rng, n=n, discrete=False)
        L = sysgen.Lyap(rng, n, S.eq, maxunits=20)
        dut = ctl.LyapunovContinuousTimeSystem(S.repo, L.net)
    k = int(rng.choice([1, 2, 6]))
    X = rng.uniform(size=(k, n)) * (S.up - S.lo) + S.lo
    et = EPS[int(rng.integers(3))] if hybrid else EPS[0]
    if not hybrid:
        et = lyapunov.ConvergenceEps.ExpLower
    eps = float(rng.choice([0., .01, .1, .5, 1.5]))
    red, margin, w = options(rng, k)
    if hybrid:
        red, w = "mean", None
    o = kw(margin, red, w, rng)
    Y = rng.normal(size=(k, n))
    D = np.array([dV(L, x, y) for x, y in zip(X, Y)])
    if np.any(np.isnan(D)):
        raise Skip("a sample next to a kink")

    def want(D):
        v = D + eps * (L.l1(X) if et.name == "Asymp" else L.V(X))
        return np.maximum(0, margin + (-v if et.name == "ExpUpper" else v))

    def check(got, D, what):
        got = N(got).reshape(-1)
        c.require(got.size == 1, what, "a loss is one number")
        h = want(D)
        r = reduce(h, red, w)
        c.close(got[0], r, what, "loss", tol=2e-5, scale=1 + np.abs(h).max(),
                reduction=red, weight=w, eps=eps, et=et.name, margin=margin,
                candidate=L.desc, X=X)
        c.ev("losses:" + red)

    got = dut.lyapunov_derivative_loss_at_samples_and_next_states(
        L.lam, eps, T(X), T(Y), T(S.eq), et, R=L.R, **o)
    check(got, D, "decrease_loss_continuous")
    # gradient flows to the candidate: the loss is a function of its weights
    ps = [p for p in L.net.parameters()]
    if got.requires_grad and all(bool((p != 0).all()) for p in ps):
        g = torch.autograd.grad(got, ps, allow_unused=True)
        d = [rng.normal(size=tuple(p.shape)) for p in ps]
        s = 1e-6
        f = []
        for t in (s, -s):
            with torch.no_grad():
                for p, q in zip(ps, d):
                    p.add_(T(q) * t)
            f.append(float(dut.
                           lyapunov_derivative_loss_at_samples_and_next_states(
                               L.lam, eps, T(X), T(Y), T(S.eq), et, R=L.R,
                               **o)))
            with torch.no_grad():
                for p, q in zip(ps, d):
                    p.sub_(T(q) * t)
        f0 = float(got)
        a, b = (f[0] - f0) / s, (f0 - f[1]) / s
        if abs(a - b) < 1e-5 * (1 + abs(a)):
            gd = sum(float((N(x) * q).sum()) for x, q in zip(g, d)
                     if x is not None)
            c.close(gd, (a + b) / 2, "loss_gradient", "gradient of the loss",
                    tol=1e-4, scale=1 + abs(a), candidate=L.desc, et=et.name)
            c.ev("loss gradients")
    if hybrid:
        Y = []
        for x in X:
            a = S.nexts(x, -1e-7)
            if len(a) != 1 or len(S.nexts(x, 1e-7)) != 1:
                break
            Y.append(a[0])
        if len(Y) == k:
            D = np.array([dV(L, x, y) for x, y in zip(X, Y)])
            if not np.any(np.isnan(D)):
                got = dut.lyapunov_derivative_loss_at_samples(
                    L.lam, eps, T(X), T(S.eq), et, R=L.R, **o)
                check(got, D, "decrease_loss_hybrid")
    c.key("ct", S.desc, L.desc, X)
    c.note(system=S.desc, candidate=L.desc, loss=N(got))


@chk.section(quick=60, thorough=1000)
def reduction(c, rng, i):
    k = int(rng.integers(1, 9))
    v = rng.normal(size=k) * float(rng.choice([.01, 1., 100.]))
    for red in RED:
        c.close(N(utils.loss_reduction(T(v), red)).reshape(()),
                np.array(reduce(v, red)), "loss_reduction", "reduction",
                tol=1e-9, v=v, red=red)
        c.ev("reductions")
    try:
        utils.loss_reduction(T(v), "median")
        bad = True
    except Exception:
        bad = False
    c.require(not bad, "loss_reduction", "an unknown reduction is accepted")
    c.key("red", v)


@chk.section(quick=40, thorough=1200, floor=.5)
def gradient_positivity(c, rng, i):
    S = sysgen.any_system(rng, i, maxunits=3)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=5)
    dut = lyapunov.LyapunovHybridLinearSystem(S.repo, L.net)
    ps = list(L.net.parameters())
    R = L.R
    if R is not None:
        R = R.clone().requires_grad_(True)
        ps = ps + [R]
    eps = float(rng.choice([0., .1, .7])) * L.lam
    ms = methods(rng, dut, S)

    def build():
        return dut.lyapunov_positivity_as_milp(T(S.eq), L.lam, eps, R=R)[0]
    gradient_case(c, rng, build, ps, "positivity",
                  dict(candidate=L.desc, lo=S.lo, up=S.up, eq=S.eq, eps=eps,
                       methods=ms))


@chk.section(quick=80, thorough=2400, floor=.4)
def gradient_decrease(c, rng, i):
    S = sysgen.any_system(rng, i, maxunits=5)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=4)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    tag = "decrease of " + S.kind
    ps = list(L.net.parameters())
    if S.kind.startswith("fb_"):
        ps += [p for p in S.cnet.parameters()]
        if "net" in S.fw and S.kind != "fb_relu":
            ps += [p for p in S.fw["net"].parameters()]
    elif S.kind.startswith("relu"):
        ps += [p for p in S.net.parameters()] \
            if S.kind != "relu_plain" else []
    R = L.R
    if R is not None:
        R = R.clone().requires_grad_(True)
        ps = ps + [R]
    et = EPS[int(rng.integers(3))]
    eps = float(rng.choice([0., .05, .3]))
    ms = methods(rng, dut, S)
    vlo = vup = None
    if rng.random() < .45:
        # the side of the bound that the objective pushes against
        V = np.sort(L.V(points(rng, S.lo, S.up, 40)))
        if (et.name == "ExpUpper") == (rng.random() < .85):
            vup = float(V[int(rng.integers(4, 25))])
        else:
            vlo = float(V[int(rng.integers(8, 30))])

    def build():
        return dut.lyapunov_derivative_as_milp(
            T(S.eq), L.lam, eps, et, R=R, lyapunov_lower=vlo,
            lyapunov_upper=vup).milp
    gradient_case(c, rng, build, ps, tag,
                  dict(candidate=L.desc, lo=S.lo, up=S.up, eq=S.eq, eps=eps,
                       et=et.name, system=S.desc, methods=ms, vlo=vlo,
                       vup=vup))


def dynamics_params(S):
    ps = []
    if S.kind.startswith("fb_"):
        ps += list(S.cnet.parameters())
        if "net" in S.fw:
            ps += list(S.fw["net"].parameters())
    elif S.kind.startswith("relu"):
        ps += list(S.net.parameters())
    return ps


CT = ("plain", "given", "residual", "fb_pendulum", "fb_quad2d")


@chk.section(quick=60, thorough=2000, floor=.4)
def gradient_continuous(c, rng, i):
    """The decrease programs of continuous-time systems."""
    k = (CT + ("pwa", "pwa"))[i % 7]
    if k == "pwa":
        S = sysgen.pwa(rng)
    elif k.startswith("fb"):
        S = sysgen.feedback(rng, kind=k[3:], maxunits=4, discrete=False)
    else:
        S = sysgen.auto_relu(rng, kind=k, maxunits=4, discrete=False)
    hybrid = S.kind == "pwa"
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=3, rkind=0 if hybrid else None)
    dut = (ctl.LyapunovContinuousTimeHybridSystem if hybrid else
           ctl.LyapunovContinuousTimeSystem)(S.repo, L.net)
    ps = list(L.net.parameters()) + dynamics_params(S)
    R = L.R
    if R is not None:
        R = R.clone().requires_grad_(True)
        ps = ps + [R]
    eps = float(rng.choice([0., .1, .7]))
    m = METHODS[0]
    for o, a in ((dut, "network_bound_propagate_method"),
                 (S.repo, "network_bound_propagate_method"),
                 (S.repo, "controller_network_bound_propagate_method"),
                 (getattr(S, "fw", {}).get("repo"),
                  "network_bound_propagate_method")):
        if hasattr(o, a):
            setattr(o, a, m)
    two = hybrid and bool(rng.integers(2))

    def build():
        f = dut.lyapunov_derivative_as_milp2 if two else \
            dut.lyapunov_derivative_as_milp
        return f(T(S.eq), L.lam, eps, lyapunov.ConvergenceEps.ExpLower,
                 R=R).milp
    gradient_case(c, rng, build, ps, "continuous decrease of " + S.kind +
                  " 2" * two,
                  dict(candidate=L.desc, lo=S.lo, up=S.up, eq=S.eq, eps=eps,
                       system=S.desc))


@chk.section(quick=90, thorough=2400, floor=.4)
def gradient_dynamics(c, rng, i):
    """A linear objective of the state and its successor."""
    kinds = sysgen.KINDS[1:] + CT
    k = kinds[i % len(kinds)]
    if i % len(kinds) < len(sysgen.KINDS) - 1:
        S = sysgen.any_system(rng, 1 + i % len(kinds), maxunits=6)
    elif k.startswith("fb"):
        S = sysgen.feedback(rng, kind=k[3:], maxunits=6, discrete=False)
    else:
        S = sysgen.auto_relu(rng, kind=k, maxunits=6, discrete=False)
    ms = methods(rng, S, S)
    w, v = rng.normal(size=S.n), rng.normal(size=S.n)

    def build():
        r = gtm.GurobiTorchMILP(S.repo.dtype)
        x = r.addVars(S.n, lb=-gurobipy.GRB.INFINITY)
        y = r.addVars(S.n, lb=-gurobipy.GRB.INFINITY)
        ds._add_system_constraint(S.repo, r, x, y)
        r.setObjective([T(w), T(v)], [x, y], 0., gurobipy.GRB.MAXIMIZE)
        return r
    gradient_case(c, rng, build, dynamics_params(S), "dynamics of " + S.kind,
                  dict(lo=S.lo, up=S.up, eq=S.eq, system=S.desc, methods=ms,
                       disc=k))


if __name__ == "__main__":
    chk.main()

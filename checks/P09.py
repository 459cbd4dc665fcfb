"""P09: Lyapunov value and positivity program."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
from gen import T, N, relu_net, net_desc, net_np, fwd, points  # noqa: E402
from gen import local_max, grid  # noqa: E402
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402
import neural_network_lyapunov.relu_system as rsys  # noqa: E402
import neural_network_lyapunov.mip_utils as mu  # noqa: E402

chk = Check("P09", rule="random state boxes (equilibrium interior, on a face "
            "or at a corner), (leaky) ReLU candidates with 1-3 hidden layers, "
            "R absent / square / tall / permuted, lambda and epsilon of "
            "either order, all bound methods; non-trivial: distinct "
            "(network, box, equilibrium, lambda, epsilon, R) whose value "
            "varies over the box",
            assumptions=["numpy forward pass as reference", "solver stand-in "
                         "for Gurobi (HiGHS), tolerance 1e-6 relative"])
METHODS = list(mu.PropagateBoundsMethod)


def make(rng, maxunits=7, n=None):
    n = int(rng.integers(1, 4)) if n is None else n
    eq = rng.normal(size=n) * float(rng.choice([0., .5, 1.]))
    lo = eq - rng.uniform(.2, 1.5, n)
    up = eq + rng.uniform(.2, 1.5, n)
    for k in range(n):
        u = rng.random()
        if u < .1:
            lo[k] = eq[k]
        elif u < .2:
            up[k] = eq[k]
    L = sysgen.Lyap(rng, n, eq, maxunits=maxunits)
    kind = int(rng.integers(4))
    if kind == 0:
        s = rsys.AutonomousReLUSystem(torch.float64, T(lo), T(up),
                                      relu_net(rng, n, n, nhidden=1))
        dut = lyapunov.LyapunovDiscreteTimeHybridSystem(s, L.net)
    elif kind == 1:
        s = rsys.AutonomousReLUSystem(torch.float64, T(lo), T(up),
                                      relu_net(rng, n, n, nhidden=1))
        dut = ctl.LyapunovContinuousTimeSystem(s, L.net)
    elif kind == 2:
        s = hls.AutonomousHybridLinearSystem(n, torch.float64)
        s.add_mode(T(np.eye(n) * .5), T(eq * .5),
                   T(np.vstack((np.eye(n), -np.eye(n)))),
                   T(np.concatenate((up, -lo))))
        dut = lyapunov.LyapunovHybridLinearSystem(s, L.net)
    else:
        s = hls.AutonomousHybridLinearSystem(n, torch.float64)
        s.add_mode(T(-np.eye(n)), T(eq),
                   T(np.vstack((np.eye(n), -np.eye(n)))),
                   T(np.concatenate((up, -lo))))
        dut = ctl.LyapunovContinuousTimeHybridSystem(s, L.net)
    m = METHODS[int(rng.integers(4))]
    dut.network_bound_propagate_method = m
    return n, eq, lo, up, L, dut, (kind, m.name)


@chk.section(quick=420, thorough=8000)
def value(c, rng, i):
    n, eq, lo, up, L, dut, kd = make(rng, maxunits=20)
    if rng.random() < .5:
        L.lam = float(rng.uniform(0, 3))
    X = points(rng, lo - .5, up + .5, int(rng.integers(1, 12)))
    X[0] = eq
    want = L.V(X)
    kw = {} if L.R is None and rng.random() < .5 else {"R": L.R}
    v = dut.lyapunov_value(T(X), T(eq), L.lam, **kw)
    c.close(N(v).reshape(-1), want, "value_batch", "batched value", tol=1e-10)
    c.require(N(v).size == len(X), "value_batch", "one value per state",
              shape=tuple(v.shape))
    for x, w in zip(X, want):
        v1 = dut.lyapunov_value(T(x), T(eq), L.lam, **kw)
        c.close(N(v1).reshape(-1), np.array([w]), "value_single",
                "value of one state", tol=1e-10)
    z = N(dut.lyapunov_value(T(eq), T(eq), L.lam, **kw)).reshape(-1)
    c.require(abs(z[0]) < 1e-12 * (1 + abs(L.phi0)), "zero_at_equilibrium",
              "V(x*)", z=z)
    dut.validate_x_equilibrium(T(eq))
    # the value as a function of the candidate's parameters
    ps = list(L.net.parameters())
    w = rng.normal(size=len(X))

    def total():
        v = dut.lyapunov_value(T(X), T(eq), L.lam, **kw)
        s = v.reshape(-1) @ T(w)
        for k in (0, len(X) - 1):
            s = s + dut.lyapunov_value(T(X[k]), T(eq), L.lam,
                                       **kw).reshape(())
        return s
    t0 = total()
    if t0.requires_grad:
        g = torch.autograd.grad(t0, ps, allow_unused=True)
        d = [rng.normal(size=tuple(p.shape)) for p in ps]
        f = []
        for h in (1e-6, -1e-6):
            with torch.no_grad():
                for p, q in zip(ps, d):
                    p.add_(T(h * q))
                f.append((float(total()) - float(t0)) / h)
                for p, q in zip(ps, d):
                    p.sub_(T(h * q))
        pre = fwd(net_np(L.net), np.vstack((X, eq)), trace=True)[1]
        # exact kinks of a degenerate network can look smooth from two sides
        if abs(f[0] - f[1]) < 1e-6 * (1 + abs(f[0])) and \
                min(np.abs(q).min() for q in pre) > 1e-4:
            gd = sum(float((N(x) * q).sum()) for x, q in zip(g, d)
                     if x is not None)
            c.close(gd, np.mean(f), "value_gradient", "gradient of values in "
                    "the candidate's parameters", 1e-5, scale=1 + abs(f[0]),
                    candidate=L.desc)
            c.ev("parameter gradients")
    c.ev("states", len(X))
    c.key("value", L.desc, kd, eq, want)


@chk.section(quick=112, thorough=2500)
def gradient(c, rng, i):
    """V's gradient: batched autograd and the one-sided set."""
    n, eq, lo, up, L, dut, kd = make(rng, maxunits=8)
    X = points(rng, lo, up, 6)
    h = 1e-6
    tX = T(X).requires_grad_(bool(i % 2))
    G = N(dut._lyapunov_gradient_batch(tX, T(eq), L.lam, T(L.Rn), False))
    c.require(G.shape == X.shape, "gradient_batch", "shape", got=G.shape)
    c.require(tX.requires_grad == bool(i % 2) and np.all(N(tX) == X),
              "arguments", "the caller's states were changed")
    used = 0
    for x, g in zip(X, G):
        # smooth point: finite difference exact on the linear piece
        D = np.vstack((np.eye(n), -np.eye(n), rng.normal(size=(4, n))))
        fp = L.V(x + h * D)
        f0 = L.V(x)
        fm = L.V(x - h * D)
        dp, dm = (fp - f0) / h, (f0 - fm) / h
        S = N(dut._lyapunov_gradient(T(x), T(eq), L.lam, T(L.Rn), 1e-9))
        c.require(S.ndim == 2 and S.shape[1] == n, "gradient_set", "shape",
                  got=S.shape)
        if np.max(np.abs(dp - dm)) < 1e-6:
            c.close(D @ g, dp, "gradient_batch", "directional derivatives",
                    tol=1e-5, x=x, eq=eq)
            for g in S:  # (a dead unit's pattern may repeat the gradient)
                c.close(D @ g, dp, "gradient_set", "gradient", tol=1e-5,
                        x=x, eq=eq)
            used += 1
    # at the equilibrium (kink of the norm)
    S = N(dut._lyapunov_gradient(T(eq), T(eq), L.lam, T(L.Rn), 1e-9))
    D = rng.normal(size=(12, n))
    dp = (L.V(eq + h * D) - L.V(eq)) / h
    for d, w in zip(D, dp):
        v = S @ d
        c.require(np.min(np.abs(v - w)) < 1e-5 * (1 + np.abs(S).max()),
                  "gradient_set", "one-sided derivative at the equilibrium "
                  "is not attained by a returned gradient", d=d, want=w, got=v)
    c.ev("smooth_states", used)
    c.key("grad", L.desc, kd, eq)


@chk.section(quick=84, thorough=2000)
def equilibrium_outside(c, rng, i):
    """An equilibrium outside the box in any coordinate is refused."""
    n, eq, lo, up, L, dut, kd = make(rng, maxunits=3)
    k = int(rng.integers(n))
    bad = eq.copy()
    d = float(rng.choice([1e-3, .1, 3.]))
    bad[k] = up[k] + d if i % 2 else lo[k] - d
    calls = [lambda: dut.validate_x_equilibrium(T(bad)),
             lambda: dut.lyapunov_positivity_as_milp(T(bad), L.lam, .1,
                                                     R=L.R)]

    def l1():
        m = gtm.GurobiTorchMILP(torch.float64)
        x = m.addVars(n, lb=-GRB.INFINITY, name="x")
        dut.add_state_error_l1_constraint(
            m, T(bad), x, **({} if L.R is None else {"R": L.R}))
    calls.append(l1)
    for j, f in enumerate(calls):
        try:
            f()
            ok = False
        except Exception:
            ok = True
        c.require(ok, "outside_accepted", "an equilibrium outside the box "
                  "was accepted", call=j, eq=bad, lo=lo, up=up)
    # ... and one on the faces is not
    face = np.where(rng.random(n) < .5, lo, up)
    dut.validate_x_equilibrium(T(face))
    eq0, lo0 = eq, lo
    try:
        m = gtm.GurobiTorchMILP(torch.float64)
        x = m.addVars(n, lb=-GRB.INFINITY, name="x")
        dut.add_state_error_l1_constraint(m, T(face), x)
        ok = True
    except Exception:
        ok = False
    c.require(ok, "face_refused", "an equilibrium on the faces of the box "
              "was refused", eq=face, lo=lo0, up=up)
    c.ev("refusals", len(calls))
    c.key("outside", eq0, k, i % 2, lo, up)


@chk.section(quick=84, thorough=2000)
def norm_encoding(c, rng, i):
    """add_state_error_l1_constraint: s = |R (x - x*)| with its binaries."""
    n, eq, lo, up, L, dut, kd = make(rng, maxunits=3)
    three = bool(i % 2)
    m = gtm.GurobiTorchMILP(torch.float64)
    x = m.addVars(n, lb=-GRB.INFINITY, name="x")
    kw = {} if L.R is None else {"R": L.R}
    s, a = dut.add_state_error_l1_constraint(m, T(eq), x,
                                             binary_for_zero_input=three, **kw)
    c.require(len(s) == len(L.Rn) and len(a) == len(s), "norm_rows",
              "one slack per row of R", got=len(s))
    pts = points(rng, lo, up, 4)
    pts[0] = eq
    pin = Pin(m, x)
    k = int(rng.integers(len(s)))
    for p in pts:
        w = np.abs(L.Rn @ (p - eq))
        for sg in (GRB.MAXIMIZE, GRB.MINIMIZE):
            m.gurobi_model.setObjective(gurobipy.LinExpr(1., s[k]), sg)
            v = pin.at(p)
            c.require(v is not None and abs(v - w[k]) < 1e-6 * (1 + w[k]),
                      "norm_value", "|R_k (x - x*)|", got=v, want=w[k],
                      three=three, x=p, eq=eq, lo=lo, up=up)
        v = L.Rn[k] @ (p - eq)
        ok = []
        cands = a[k] if isinstance(a[k], (list, tuple)) else [a[k]]
        for j, b in enumerate(cands):
            m.gurobi_model.setObjective(gurobipy.LinExpr(1., b), GRB.MAXIMIZE)
            r = pin.at(p)
            m.gurobi_model.setObjective(gurobipy.LinExpr(1., b), GRB.MINIMIZE)
            r2 = pin.at(p)
            c.require(r is not None and r2 is not None, "norm_binary",
                      "infeasible", x=p)
            ok.append((round(r2), round(r)))
        rng_k = (lo, up)
        if three and len(cands) == 3 and abs(v) > 1e-5:
            want = [(1, 1) if v < 0 else (0, 0), (0, 0),
                    (1, 1) if v > 0 else (0, 0)]
            c.require(ok == want, "norm_binary", "binaries away from zero",
                      got=ok, want=want, v=v, rng=rng_k)
        elif not three and abs(v) > 1e-5:
            e = (1, 1) if v > 0 else (0, 0)
            c.require(ok == [e], "norm_binary", "sign binary", got=ok, want=e,
                      v=v)
    c.ev("norm_probes", len(pts) * 2)
    c.key("norm", L.Rn, lo, up, eq, three)


@chk.section(quick=280, thorough=5000, floor=.9)
def positivity(c, rng, i):
    n, eq, lo, up, L, dut, kd = make(rng)
    eps = float(rng.choice([0., .01, .1, .5, 1., 2.]))
    ws = T(points(rng, lo, up, 3)[2]) if rng.random() < .3 else None
    milp, x = dut.lyapunov_positivity_as_milp(T(eq), L.lam, eps, R=L.R,
                                              x_warmstart=ws)

    def f(X):
        return eps * L.l1(X) - L.V(X)

    opt = solve(milp)
    c.require(opt is not None, "infeasible", "positivity program infeasible",
              L=L.desc, lo=lo, up=up)
    xs = val(x)
    sc = 1 + abs(opt)
    c.require(np.all(xs >= lo - 1e-6) and np.all(xs <= up + 1e-6), "in_box",
              "maximizer outside the box", x=xs, lo=lo, up=up)
    c.require(abs(f(xs) - opt) < 1e-6 * sc, "attained",
              "value at the maximizer", f=f(xs), opt=opt, x=xs, L=L.desc,
              lo=lo, up=up, eq=eq, eps=eps)
    c.require(opt >= -1e-6, "equilibrium", "the equilibrium has value 0",
              opt=opt)
    G = grid(lo, up, {1: 201, 2: 21, 3: 9}[n])
    S = np.vstack((G, points(rng, lo, up, 60), eq[None]))
    F = f(S)
    best, bx = local_max(f, lo, up, rng, S[np.argsort(-F)[:20]])
    c.require(max(best, F.max()) <= opt + 1e-6 * sc, "dominates",
              "a state violates more than the optimum", f=best, x=bx, opt=opt,
              L=L.desc, lo=lo, up=up, eq=eq, eps=eps, method=kd[1])
    pin = Pin(milp, x)
    P = points(rng, lo, up, 4)
    P[0] = eq
    for p in P:
        v = pin.at(p)
        c.require(v is not None and abs(v - f(p)) < 1e-6 * (1 + abs(v)),
                  "pointwise", "value with the state fixed", got=v, want=f(p),
                  x=p, L=L.desc, lo=lo, up=up, eq=eq, eps=eps, method=kd[1])
    # the differentiable objective is the same number
    solve(milp)
    c.close(N(milp.compute_objective_from_mip_data_and_solution(
        solution_number=0)), np.array(opt), "recomputed", "objective", 1e-5)
    c.ev("states", len(S))
    c.key("pos", L.desc, kd, eps, eq, lo, up)
    c.note(net=net_desc(L.net), eps=eps, lam=L.lam, optimum=opt,
           certified=bool(opt <= 1e-6))


if __name__ == "__main__":
    chk.main()

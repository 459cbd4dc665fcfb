"""P10: the discrete-time Lyapunov decrease program."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, points, grid  # noqa: E402
import contextlib  # noqa: E402
import io  # noqa: E402
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402

chk = Check("P10", rule="nine system kinds (piecewise affine; three "
            "autonomous network kinds; five closed loops) x three rate types "
            "x with/without value bounds, warm start, relaxed-then-restored "
            "binaries, cuts and binary tightening x all bound methods; "
            "non-trivial: distinct (system, candidate, rate, options)",
            assumptions=["numpy simulation and Lyapunov reference",
                         "solver stand-in, tolerance 1e-6 relative",
                         "points within 1e-6 of a mode boundary or of the "
                         "box face (after the step) are judged against the "
                         "set of all their limits"])
EPS = list(lyapunov.ConvergenceEps)
METHODS = sysgen.METHODS
NEG = -np.inf


def violation(L, et, eps):
    def F(X, Y):
        if et.name == "ExpLower":
            return L.V(Y) - (1 - eps) * L.V(X)
        if et.name == "ExpUpper":
            return -L.V(Y) + (1 - eps) * L.V(X)
        return L.V(Y) - L.V(X) + eps * L.l1(X)
    return F


class Ref:
    """Largest violation of each state over its admissible next states."""

    def __init__(self, S, L, et, eps, vlo=None, vup=None):
        self.S, self.L, self.vlo, self.vup = S, L, vlo, vup
        self.F = violation(L, et, eps)

    def __call__(self, X, tie=0., pad=0., vpad=0.):
        S = self.S
        X = np.atleast_2d(X)
        Y, M = S.cand(X, tie)
        best = np.full(len(X), NEG)
        for y, m in zip(Y, M):
            ok = m & np.all((y >= S.lo - pad) & (y <= S.up + pad), axis=1)
            if ok.any():
                best[ok] = np.maximum(best[ok], self.F(X[ok], y[ok]))
        V = self.L.V(X)
        if self.vlo is not None:
            best[V < self.vlo - vpad] = NEG
        if self.vup is not None:
            best[V > self.vup + vpad] = NEG
        return best


def search(ref, S, rng, n0=120, iters=40):
    lo, up = S.lo, S.up
    X = np.vstack((grid(lo, up, {1: 101, 2: 15, 3: 7}.get(len(lo), 4)),
                   points(rng, lo, up, n0), S.eq[None]))
    F = ref(X)
    k = np.argsort(-F)[:24]
    B, FB = X[k].copy(), F[k].copy()
    w, s = up - lo, .3
    for _ in range(iters):
        C = np.clip(B + rng.normal(size=B.shape) * s * w, lo, up)
        C = np.where(rng.random(B.shape) < .4, B, C)
        FC = ref(C)
        b = FC > FB
        B[b], FB[b] = C[b], FC[b]
        s *= .87
    j = int(np.argmax(FB))
    return FB[j], B[j], int(np.isfinite(F).sum())


def scale(L, S, opt):
    return 1. + abs(opt) + np.abs(L.V(np.vstack((S.lo, S.up)))).max()


def judge_max(c, ref, S, L, opt, xs, rng, tag, ctx):
    """The optimum is attained at xs and dominates all sampled states."""
    best, bx, nfin = search(ref, S, rng)
    c.ev("admissible states sampled", nfin)
    if opt is None:
        # nothing admissible: a state admissible with a margin refutes it
        Z = ref(bx[None], tie=-1e-6, pad=-1e-6, vpad=-1e-6)
        c.require(best == NEG or Z[0] == NEG, "infeasible",
                  "program infeasible although a state is admissible", x=bx,
                  tag=tag, **ctx)
        return None
    sc = scale(L, S, opt)
    c.require(np.all(xs >= S.lo - 1e-6) and np.all(xs <= S.up + 1e-6),
              "in_box", "reported state outside the box", x=xs, tag=tag,
              **ctx)
    at = ref(xs[None], tie=2e-6 * sc, pad=2e-6 * sc, vpad=2e-6 * sc)[0]
    # several modes may tie: the optimum is one of the limits
    c.require(at >= opt - 2e-5 * sc, "attained",
              "violation at the reported state", got=at, opt=opt, x=xs,
              tag=tag, **ctx)
    c.require(best <= opt + 2e-6 * sc, "dominates",
              "a state violates more than the optimum", got=best, x=bx,
              opt=opt, tag=tag, **ctx)
    c.ev("gap below 1e-3" if opt - best < 1e-3 * sc else "gap above 1e-3")
    return best


def judge_points(c, ref, S, milp, x, rng, num, tag, ctx):
    """With the state fixed the program yields exactly its violation."""
    pin = Pin(milp, x)
    P = points(rng, S.lo, S.up, num)
    P[0] = S.eq
    for p in P:
        a = ref(p[None], tie=1e-6, pad=1e-6, vpad=1e-6)[0]
        b = ref(p[None], tie=-1e-6, pad=-1e-6, vpad=-1e-6)[0]
        e = ref(p[None], tie=1e-11, pad=1e-11, vpad=1e-11)[0]
        v = pin.at(p)
        v = NEG if v is None else v
        t = 2e-6 * (1 + abs(v) if np.isfinite(v) else 1.)
        if np.isfinite(a) and np.isfinite(b) and abs(a - b) < t:
            c.require(abs(v - a) < t, "pointwise",
                      "value with the state fixed", got=v, want=a, x=p,
                      tag=tag, **ctx)
            c.ev("pointwise values")
        elif a == NEG:
            c.require(v == NEG, "pointwise_infeasible",
                      "an inadmissible state is feasible", got=v, x=p,
                      tag=tag, **ctx)
            c.ev("pointwise inadmissible")
        else:  # on a boundary: any of the limits, never less than admissible
            c.require(v <= a + t and (v >= b - t), "pointwise",
                      "value with the state fixed (boundary)", got=v,
                      want=(a, e, b), x=p, tag=tag, **ctx)
            c.ev("pointwise boundary")


def case(rng, i, maxunits=7):
    S = sysgen.any_system(rng, i, maxunits=maxunits)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=4,
                    scale=float(rng.choice([.1, 1.])))
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    m = METHODS[int(rng.integers(4))]
    dut.network_bound_propagate_method = m
    et = EPS[int(rng.integers(3))]
    eps = float(rng.choice([0., .01, .1, .5, .9, 1.2]))
    vlo = vup = None
    u = rng.random()
    if u < .25:
        V = L.V(points(rng, S.lo, S.up, 20))
        a, b = np.sort(rng.choice(V, 2, replace=False))
        w = rng.random()
        if w < .15:  # a sublevel or superlevel set of zero exactly
            a, b = 0., max(b, 0.)
        elif w < .3:
            a, b = min(a, 0.), 0.
        if u < .1:
            vlo, vup = float(a), float(b)
        elif u < .17:
            vlo = float(a)
        else:
            vup = float(b)
    ctx = dict(kind=S.desc, net=L.desc, eps=eps, et=et.name, eq=S.eq,
               lo=S.lo, up=S.up, lower=vlo, upper=vup, method=m.name)
    return S, L, dut, et, eps, vlo, vup, ctx


def build(dut, S, L, et, eps, vlo, vup, **kw):
    return dut.lyapunov_derivative_as_milp(
        T(S.eq), L.lam, eps, et, R=L.R, lyapunov_lower=vlo,
        lyapunov_upper=vup, **kw)


@chk.section(quick=180, thorough=5000, floor=.7)
def decrease(c, rng, i):
    S, L, dut, et, eps, vlo, vup, ctx = case(rng, i)
    kw = {}
    if rng.random() < .3:
        p = points(rng, S.lo, S.up, 3)[2]
        if S.nexts(p, -1e-9):  # (the simulation must accept it)
            kw["x_warmstart"] = T(p)
    r = build(dut, S, L, et, eps, vlo, vup, **kw)
    ref = Ref(S, L, et, eps, vlo, vup)
    opt = solve(r.milp)
    xs = None if opt is None else val(r.x)
    judge_max(c, ref, S, L, opt, xs, rng, "plain", ctx)
    if opt is not None:
        yn = val(r.x_next)
        c.require(np.all(yn >= S.lo - 1e-6) and np.all(yn <= S.up + 1e-6),
                  "next_in_box", "next state outside the box", y=yn, **ctx)
        Y = S.nexts(xs, 1e-5)
        c.require(any(np.abs(y - yn).max() < 2e-5 * (1 + np.abs(y).max())
                      for y in Y), "next_state", "reported next state is not "
                  "the simulated one", y=yn, want=Y, x=xs, **ctx)
        c.close(N(r.milp.compute_objective_from_mip_data_and_solution(
            solution_number=0)), np.array(opt), "recomputed",
            "objective from the recorded data", 1e-5)
    judge_points(c, ref, S, r.milp, r.x, rng, 4, "plain", ctx)
    if opt is not None and opt <= 1e-7 and et.name == "ExpLower" and \
            vlo is None and vup is None:
        trajectory(c, S, L, eps, rng, ctx)
    c.key(S.desc, L.desc, et.name, eps, S.lo, S.eq)
    c.note(system=S.desc, candidate=L.desc, rate=(et.name, eps), optimum=opt)


def trajectory(c, S, L, eps, rng, ctx):
    """A certificate: values decrease along the repository's simulation."""
    for p in points(rng, S.lo, S.up, 6):
        x = p
        for k in range(8):
            Y = [y for y in S.nexts(x, 1e-10) if S.inbox(y, 0.)]
            if not Y:
                break
            for y in Y:
                c.require(L.V(y) <= (1 - eps) * L.V(x) + 1e-5 *
                          scale(L, S, 0.), "certified_decrease",
                          "value along a trajectory", x=x, y=y,
                          V=(L.V(x), L.V(y)), **ctx)
            c.ev("certified steps")
            x = Y[int(rng.integers(len(Y)))]


@chk.section(quick=60, thorough=1500)
def certified(c, rng, i):
    """Contractive systems, for which the program certifies a decrease."""
    lam = float(rng.choice([.5, 1., 2.]))
    S = sysgen.pwa(rng, gain=.15) if i % 3 == 0 else \
        sysgen.auto_relu(rng, kind="given", maxunits=4)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=3, scale=.05, rkind=0, lam=lam)
    if i % 3:
        with torch.no_grad():
            for p in S.net.parameters():
                p.mul_(.3)
        npn = sysgen.net_np(S.net)
        f0 = sysgen.fwd(npn, S.eq)
        S.cand = sysgen._one(lambda X: sysgen.fwd(npn, X) - f0 + S.eq)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    et = EPS[int(rng.integers(3))]
    eps = float(rng.choice([.01, .1, .3]))
    if et.name == "ExpUpper":
        eps = float(rng.choice([1., 1.5]))
    r = build(dut, S, L, et, eps, None, None)
    ref = Ref(S, L, et, eps)
    opt = solve(r.milp)
    ctx = dict(kind=S.desc, net=L.desc, eps=eps, et=et.name, eq=S.eq,
               lo=S.lo, up=S.up)
    judge_max(c, ref, S, L, opt, None if opt is None else val(r.x), rng,
              "contractive", ctx)
    if opt is not None and opt <= 1e-7:
        c.ev("certificates:" + et.name)
        if et.name == "ExpLower":
            trajectory(c, S, L, eps, rng, ctx)
        X = points(rng, S.lo, S.up, 200)
        F = ref(X)
        c.require(np.all(F <= 1e-6 * scale(L, S, 0)), "certified",
                  "violated despite the certificate", worst=F.max(), **ctx)
    c.key(S.desc, L.desc, et.name, eps, S.lo)


def stop_early(c, rng, mod):
    """
    The solver stops at a limit: at its first solution, or (out of time)
    with none at all.
    """
    S = GRB.Status
    if rng.random() < .3:
        mod._status, mod._sols = S.TIME_LIMIT, None
        c.ev("tightening programs out of time")
    elif mod._status == S.OPTIMAL:
        mod._status = S.SOLUTION_LIMIT
        c.ev("tightening programs stopped at a solution")


@chk.section(quick=90, thorough=2400, floor=.7)
def variants(c, rng, i):
    """Bound methods, relaxation, cuts, binary tightening: same optimum."""
    S, L, dut, et, eps, vlo, vup, ctx = case(rng, i, maxunits=5)
    r = build(dut, S, L, et, eps, vlo, vup)
    opt = solve(r.milp)
    sc = scale(L, S, 0. if opt is None else opt)

    def same(v, what, r=None):
        c.require((v is None) == (opt is None) and
                  (v is None or abs(v - opt) < 2e-6 * sc), "variant_optimum",
                  what, got=v, plain=opt, **ctx)
        c.ev("variant:" + what)
    dut.network_bound_propagate_method = METHODS[int(rng.integers(4))]
    if hasattr(S.repo, "controller_network_bound_propagate_method"):
        S.repo.controller_network_bound_propagate_method = METHODS[
            int(rng.integers(4))]
    if hasattr(S.repo, "network_bound_propagate_method"):
        S.repo.network_bound_propagate_method = METHODS[int(rng.integers(4))]
    same(solve(build(dut, S, L, et, eps, vlo, vup).milp), "other bounds")
    q = build(dut, S, L, et, eps, vlo, vup, binary_var_type=gtm.BINARYRELAX)
    rel = solve(q.milp)
    c.require(q.milp.gurobi_model.NumBinVars == 0, "relaxation",
              "a relaxed program still has binaries", **ctx)
    c.require(opt is None or (rel is not None and rel >= opt - 2e-6 * sc),
              "relaxation", "relaxation below the optimum", got=rel, opt=opt,
              **ctx)
    q.milp.remove_binary_relaxation()
    same(solve(q.milp), "restored binaries")
    if rel is not None:
        k = int(rng.integers(1, 4))
        with contextlib.redirect_stdout(io.StringIO()):
            q = dut.strengthen_lyapunov_derivative_as_milp(
                T(S.eq), L.lam, eps, et, k, R=L.R, lyapunov_lower=vlo,
                lyapunov_upper=vup)
        same(solve(q.milp), "strengthened")
        judge_points(c, Ref(S, L, et, eps, vlo, vup), S, q.milp, q.x, rng, 2,
                     "strengthened", ctx)
    if opt is not None and opt >= -1e-9 and vlo is None and vup is None:
        q = build(dut, S, L, et, eps, vlo, vup)
        early = bool(rng.random() < .5)
        if early:
            gurobipy.MONITORS.append(lambda mod: stop_early(c, rng, mod))
        with contextlib.redirect_stdout(io.StringIO()):
            dut.strengthen_lyapunov_derivative_milp_binary(
                q, *([{"TimeLimit": 60}] if early else []))
        del gurobipy.MONITORS[:]
        n0 = q.milp.gurobi_model.NumConstrs
        same(solve(q.milp), "binary tightening")
        q = build(dut, S, L, et, eps, vlo, vup)
        q.milp.gurobi_model.update()
        c.ev("tightened rows", n0 - q.milp.gurobi_model.NumConstrs)
    c.key(S.desc, L.desc, et.name, eps, S.lo, S.eq)


@chk.section(quick=150, thorough=4000)
def value_list(c, rng, i):
    """lyapunov_derivative lists the value for every possible next state."""
    exact = i % 6 == 5
    S = sysgen.pwa_dyadic(rng) if exact else sysgen.any_system(rng, i)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=12)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    eps = float(rng.uniform(0, 1.2))
    P = points(rng, S.lo, S.up, 6)
    P[0] = S.eq
    if exact:  # states lying exactly in several modes
        P = S.exact_points(rng, 6)
    if S.kind == "pwa":  # onto a mode boundary
        for k in range(1, 4):
            _, _, Pm, qm = S.modes[int(rng.integers(len(S.modes)))]
            j = int(rng.integers(len(Pm)))
            a = Pm[j]
            P[k] = np.clip(P[k] - a * (a @ P[k] - qm[j]) / (a @ a), S.lo,
                           S.up)
    for p in P:
        a, b = S.nexts(p, 1e-7), S.nexts(p, -1e-7)
        if exact:
            a = b = S.nexts(p, 0.)
            c.ev("exact ties", int(len(a) > 1))
        if S.kind.startswith("fb_") and S.kind != "fb_hybrid":
            # the simulation has no input range of its own
            a = b = [S.fw["f"](p[None], S.policy(p[None]))[0]]
        got = dut.lyapunov_derivative(T(p), T(S.eq), L.lam, eps, R=L.R)
        got = np.array([float(g.reshape(-1)[0]) for g in got])
        fa = np.array([L.V(y) - L.V(p) + eps * L.V(p) for y in a])
        fb = np.array([L.V(y) - L.V(p) + eps * L.V(p) for y in b])
        t = 1e-8 * (1 + np.abs(fa).max(initial=0.) +
                    np.abs(got).max(initial=0.))
        c.require(all(np.min(np.abs(got - f), initial=9e9) < t for f in fb),
                  "value_missing", "a possible next state's value is missing",
                  got=got, want=fb, x=p, kind=S.desc)
        c.require(all(np.min(np.abs(fa - g), initial=9e9) < t for g in got),
                  "value_spurious", "a value of no possible next state",
                  got=got, want=fa, x=p, kind=S.desc)
        c.require(len(b) <= len(got) <= len(a), "value_count",
                  "number of values", got=len(got), want=(len(b), len(a)))
        c.ev("states")
        c.ev("values", len(got))
    c.key(S.desc, L.desc, eps)


if __name__ == "__main__":
    chk.main()

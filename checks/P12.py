"""P12: boundary values and the certified region of attraction."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, fwd, points, grid  # noqa: E402
import sysgen  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
from gurobipy import GRB  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

chk = Check("P12", rule="random boxes (also with the equilibrium on a face), "
            "candidates, nine system kinds, larger boxes that contain every "
            "successor, value bounds absent / finite / infinite; "
            "non-trivial: distinct (system, candidate, box) whose boundary "
            "value varies",
            assumptions=["numpy forward pass and simulation as reference",
                         "solver stand-in, tolerance 1e-6 relative"])
METHODS = sysgen.METHODS


def face_points(rng, lo, up, k):
    """k points on random faces of the box (corners and edges included)."""
    P = points(rng, lo, up, k)
    n = len(lo)
    j = rng.integers(n, size=k)
    s = rng.random(k) < .5
    P[np.arange(k), j] = np.where(s, lo[j], up[j])
    return P


def face_extreme(f, lo, up, rng, sign=1., num=400, iters=40):
    """Smallest sign*f found over the boundary."""
    n = len(lo)
    X = [face_points(rng, lo, up, num)]
    for j in range(n):
        for v in (lo[j], up[j]):
            l2, u2 = lo.copy(), up.copy()
            l2[j] = u2[j] = v
            X.append(grid(l2, u2, {1: 1, 2: 41, 3: 11}.get(n, 4)))
    X = np.vstack(X)
    F = sign * f(X)
    k = np.argsort(F)[:20]
    B, FB = X[k].copy(), F[k].copy()
    fixed = np.zeros(B.shape, dtype=bool)
    for r in range(len(B)):  # keep one active coordinate
        a = np.flatnonzero((B[r] == lo) | (B[r] == up))
        fixed[r, int(rng.choice(a))] = True
    s = .3
    for _ in range(iters):
        C = np.clip(B + rng.normal(size=B.shape) * s * (up - lo), lo, up)
        C = np.where(fixed | (rng.random(B.shape) < .3), B, C)
        FC = sign * f(C)
        b = FC < FB
        B[b], FB[b] = C[b], FC[b]
        s *= .85
    j = int(np.argmin(FB))
    return sign * FB[j], B[j], X, sign * F


def on_boundary(x, lo, up, t=1e-6):
    return bool(np.all(x >= lo - t) and np.all(x <= up + t) and
                (np.any(np.abs(x - lo) < t) or np.any(np.abs(x - up) < t)))


def case(rng, i, maxunits=6, lunits=6):
    S = sysgen.any_system(rng, i, maxunits=maxunits)
    L = sysgen.Lyap(rng, S.n, S.eq, maxunits=lunits)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
    dut.network_bound_propagate_method = METHODS[int(rng.integers(4))]
    return S, L, dut


def vscale(L, S):
    return 1. + np.abs(L.V(np.vstack((S.lo, S.up)))).max()


@chk.section(quick=400, thorough=5000)
def boundary_value(c, rng, i):
    S, L, dut = case(rng, i)
    milp, x = dut._construct_milp_for_roa_boundary(L.lam, L.R, T(S.eq))
    opt = solve(milp)
    ctx = dict(kind=S.desc, net=L.desc, lo=S.lo, up=S.up, eq=S.eq)
    c.require(opt is not None, "boundary_feasible",
              "the boundary program is infeasible", **ctx)
    xs = val(x)
    t = 2e-6 * vscale(L, S)
    c.require(on_boundary(xs, S.lo, S.up), "on_boundary",
              "minimizer not on the boundary", x=xs, **ctx)
    c.require(abs(L.V(xs) - opt) < 10 * t, "boundary_attained",
              "value at the minimizer", got=L.V(xs), opt=opt, x=xs, **ctx)
    best, bx, X, F = face_extreme(L.V, S.lo, S.up, rng)
    c.require(best >= opt - t, "boundary_minimum",
              "a boundary state has a smaller value", got=best, x=bx, opt=opt,
              **ctx)
    c.ev("boundary states", len(X))
    c.ev("gap below 1e-2" if best - opt < 1e-2 * t / 2e-6 else "gap above")
    # the program's feasible set is exactly the boundary
    pin = Pin(milp, x)
    for p in face_points(rng, S.lo, S.up, 3):
        v = pin.at(p)
        c.require(v is not None and abs(v - L.V(p)) < 10 * t,
                  "boundary_pointwise", "value at a boundary state", got=v,
                  want=L.V(p), x=p, **ctx)
        c.ev("boundary states pinned")
    p = S.lo + (S.up - S.lo) * rng.uniform(.1, .9, S.n)
    if np.all(S.up - S.lo > 1e-3):
        c.require(pin.at(p) is None, "interior_excluded",
                  "an interior state is admitted", x=p, **ctx)
        c.ev("interior states refused")
    if np.ptp(F) > 1e-6:
        c.key("bnd", S.desc, L.desc, S.lo, S.up)
    c.note(system=S.desc, candidate=L.desc, minimum=opt)


@chk.section(quick=300, thorough=3000)
def box_boundary(c, rng, i):
    """utils.box_boundary and the boundary sampler."""
    n = int(rng.integers(1, 5))
    lo = rng.normal(size=n) * 2
    up = lo + rng.uniform(.05, 3., n)
    if rng.random() < .3:
        lo, up = np.floor(lo), np.floor(lo) + rng.integers(1, 4, n)
    milp = gtm.GurobiTorchMILP(torch.float64)
    x = milp.addVars(n, lb=-GRB.INFINITY)
    milp.add_mixed_integer_linear_constraints(
        utils.box_boundary(T(lo), T(up)), x, None, "s", "b", "i", "e", "",
        GRB.BINARY)
    milp.setObjective([T(np.zeros(n))], [x], 0., GRB.MINIMIZE)
    pin = Pin(milp, x)
    for p in face_points(rng, lo, up, 5):
        c.require(pin.at(p) is not None, "box_boundary",
                  "a boundary point is refused", x=p, lo=lo, up=up)
        c.ev("boundary points accepted")
    for k in range(4):
        p = lo + (up - lo) * rng.uniform(.02, .98, n)
        if k >= 2:  # outside, beyond one face
            j = int(rng.integers(n))
            p[j] = (up[j] + .1) if k == 2 else lo[j] - .1
        c.require(pin.at(p) is None, "box_boundary",
                  "a point off the boundary is accepted", x=p, lo=lo, up=up)
        c.ev("other points refused")
    # optimizing any direction reaches the box's extreme
    d = rng.normal(size=n)
    milp.setObjective([T(d)], [x], 0., GRB.MAXIMIZE)
    c.close(solve(milp), float(np.maximum(d * lo, d * up).sum()),
            "box_boundary", "support function", tol=1e-7)
    X = N(utils.uniform_sample_on_box_boundary(T(lo), T(up),
                                               int(rng.integers(1, 40))))
    for p in X:
        c.require(on_boundary(p, lo, up, 1e-12), "boundary_samples",
                  "a sample is not on the boundary", x=p, lo=lo, up=up)
    c.ev("boundary samples", len(X))
    c.key("bb", lo, up)


def successors(S, X, tie):
    """[(candidate next states, mask)] of the simulation."""
    Y, M = S.cand(X, tie)
    return list(zip(Y, M))


@chk.section(quick=320, thorough=4000)
def region(c, rng, i):
    """compute_region_of_attraction: no state below it leaves the box."""
    S, L, dut = case(rng, i)
    X = np.vstack((grid(S.lo, S.up, {1: 201, 2: 21, 3: 8}.get(S.n, 4)),
                   points(rng, S.lo, S.up, 300)))
    # a larger box with room for every successor (interval bound)
    lo, up = S.lo.copy(), S.up.copy()
    for y, m in successors(S, X, 1e-7):
        if m.any():
            lo = np.minimum(lo, y[m].min(0))
            up = np.maximum(up, y[m].max(0))
    w = up - lo
    big_lo, big_up = lo - w - .5, up + w + .5
    if rng.random() < .2:  # a tight one: only successors within it count
        big_lo, big_up = S.lo - .2, S.up + .2
    vub = (None, np.inf, float(rng.uniform(.05, 2.) * L.lam))[
        int(rng.integers(3))]
    a = (T(big_lo), T(big_up)) if rng.random() < .5 else (big_lo, big_up)
    rho = float(dut.compute_region_of_attraction(L.lam, L.R, T(S.eq), vub,
                                                 *a))
    ctx = dict(kind=S.desc, net=L.desc, lo=S.lo, up=S.up, eq=S.eq, upper=vub)
    t = 3e-6 * vscale(L, S)

    def leaving(X, pad):
        """min over states with a successor outside the box"""
        out = np.full(len(X), np.inf)
        V = L.V(X)
        for y, m in successors(S, X, -1e-7 if pad > 0 else 1e-6):
            big = np.all((y >= big_lo + pad) & (y <= big_up - pad), axis=1)
            o = np.any((y > S.up + pad) | (y < S.lo - pad), axis=1)
            out = np.where(m & big & o, np.minimum(out, V), out)
        return out

    def entering(X, pad):
        out = np.full(len(X), np.inf)
        V = L.V(X)
        for y, m in successors(S, X, -1e-7 if pad > 0 else 1e-6):
            o = np.all((y <= S.up - pad) & (y >= S.lo + pad), axis=1)
            out = np.where(m & o, np.minimum(out, V), out)
        return out

    F = leaving(X, 1e-6)
    k = int(np.argmin(F))
    c.require(F[k] >= rho - t, "escape",
              "a state below the region's value steps out of the box",
              x=X[k], V=F[k], rho=rho, **ctx)
    c.ev("states leaving the box", int(np.isfinite(F).sum()))
    below = L.V(X) < rho - t
    c.ev("states below the region's value", int(below.sum()))
    B = face_points(rng, S.lo, S.up, 300)
    G = entering(B, 1e-6)
    k = int(np.argmin(G))
    c.require(G[k] >= rho - t, "outer_entry",
              "a boundary state below the value steps into the box",
              x=B[k], V=G[k], rho=rho, **ctx)
    # exactness: the value is attained
    opts = []
    for inside in (True, False):
        milp, xc, xn, ts, zb = dut._construct_milp_for_roa(
            L.lam, L.R, T(S.eq), big_lo, big_up, inside)
        o = solve(milp)
        opts.append(np.inf if o is None else o)
        if o is None:
            c.ev("no crossing")
            continue
        x, y = val(xc), val(xn)
        c.require(abs(L.V(x) - o) < 10 * t, "region_attained",
                  "value at the minimizer", got=L.V(x), opt=o, **ctx)
        Y = S.nexts(x, 1e-5)
        c.require(any(np.abs(v - y).max() < 2e-5 * (1 + np.abs(v).max())
                      for v in Y), "region_step", "the reported successor is "
                  "not the simulated one", y=y, want=Y, x=x, **ctx)
        i_, o_ = (x, y) if inside else (y, x)
        c.require(np.all(i_ >= S.lo - 1e-5) and np.all(i_ <= S.up + 1e-5),
                  "region_inside", "inner state outside the box", x=i_, **ctx)
        c.require(np.any((o_ >= S.up - 1e-5) | (o_ <= S.lo + 1e-5)),
                  "region_outside", "outer state strictly inside", x=o_,
                  **ctx)
        c.require(np.all(o_ >= big_lo - 1e-5) and
                  np.all(o_ <= big_up + 1e-5), "region_larger",
                  "outer state beyond the larger box", x=o_, **ctx)
        c.ev("crossings attained")
    want = min(opts[0], opts[1], np.inf if vub is None else vub)
    c.require((np.isinf(want) and np.isinf(rho)) or abs(rho - want) < 10 * t,
              "region_value", "region value", got=rho, want=want, opts=opts,
              **ctx)
    # per crossing kind: the sampled values bound each program
    c.require(F.min() >= opts[0] - t, "leaving_minimum",
              "a leaving state has a smaller value", got=F.min(),
              opt=opts[0], **ctx)
    c.require(G.min() >= opts[1] - t, "entering_minimum",
              "an entering boundary state has a smaller value", got=G.min(),
              opt=opts[1], **ctx)
    # invariance of the box's part of the sub-level set
    if below.any() and not np.isinf(rho):
        c.key("roa", S.desc, L.desc, S.lo, rho)
    c.note(system=S.desc, candidate=L.desc, rho=rho, programs=opts)


@chk.section(quick=180, thorough=2000)
def gap(c, rng, i):
    """Trainer.solve_boundary_gap_mip."""
    S, L, dut = case(rng, i, lunits=5)
    if L.R is None:
        L.R = T(L.Rn)
    t = tlb.Trainer()
    t.add_lyapunov(dut, L.lam, T(S.eq), ro.FixedROptions(L.R))
    g, vmin, vmax, xmin, xmax = t.solve_boundary_gap_mip()
    tol = 2e-6 * vscale(L, S)
    ctx = dict(kind=S.desc, net=L.desc, lo=S.lo, up=S.up, eq=S.eq)
    for x, v, s, w in ((N(xmin), vmin, 1., "min"), (N(xmax), vmax, -1.,
                                                     "max")):
        c.require(on_boundary(x, S.lo, S.up), "gap_on_boundary",
                  "reported state not on the boundary", x=x, which=w, **ctx)
        c.require(abs(L.V(x) - v) < 10 * tol, "gap_attained",
                  "value at the reported state", got=L.V(x), opt=v, which=w,
                  **ctx)
        b, bx, X, _ = face_extreme(L.V, S.lo, S.up, rng, s)
        c.require(s * (b - v) >= -tol, "gap_extreme",
                  "a boundary state is more extreme", got=b, x=bx, opt=v,
                  which=w, **ctx)
        c.ev("boundary states", len(X))
    c.close(float(g), vmax - vmin, "gap", "gap is max - min", tol=1e-5,
            scale=tol / 2e-6)
    # gradient, where both extremes are isolated smooth corners
    ok = dut.network_bound_propagate_method.name in ("IA", "IA_MIP")
    # (a zero weight is a kink of the interval bounds in the encoding)
    ok &= all(np.abs(W).min() > 1e-6 for W, _, _ in L.npn)
    C = np.array(np.meshgrid(*zip(S.lo, S.up))).reshape(S.n, -1).T
    for x, v, s in ((N(xmin), vmin, 1.), (N(xmax), vmax, -1.)):
        pre = np.concatenate([p.reshape(-1) for p in
                              fwd(L.npn, x, trace=True)[1]])
        ok &= bool(np.all((np.abs(x - S.lo) < 1e-7) |
                          (np.abs(x - S.up) < 1e-7)))
        ok &= np.abs(pre).min(initial=1.) > 1e-3
        ok &= np.abs(L.Rn @ (x - S.eq)).min() > 1e-3
        # strictly extreme: the slopes along every edge are away from zero
        for j in range(S.n):
            d = np.zeros(S.n)
            d[j] = 1e-6 if abs(x[j] - S.lo[j]) < 1e-7 else -1e-6
            ok &= s * (L.V(x + d) - L.V(x)) > 1e-9
        others = C[np.abs(C - x).max(1) > 1e-6]
        ok &= len(others) > 0 and \
            bool((s * (L.V(others) - v)).min() > 1e-4)
    if ok and g.requires_grad:
        ps = list(L.net.parameters())
        G = torch.autograd.grad(g, ps, allow_unused=True)
        w = L.net(xmax.detach()) - L.net(xmin.detach())
        H = torch.autograd.grad(w.sum(), ps, allow_unused=True)
        for p, q in zip(G, H):
            p = np.zeros(1) if p is None else N(p)
            q = np.zeros(1) if q is None else N(q)
            c.require(np.abs(p - q).max() < 1e-3 * (1 + np.abs(q).max()),
                      "gap_gradient", "gradient of the gap", got=p, want=q,
                      **ctx)
        c.ev("gap gradients")
    c.key("gap", S.desc, L.desc, S.lo)
    c.note(system=S.desc, candidate=L.desc, gap=float(g))


if __name__ == "__main__":
    chk.main()

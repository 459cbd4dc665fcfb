"""Gradients of program optima against differences of re-solved programs."""
from vlib import Skip, np, torch
from gen import T, N
from progs import solve
import neural_network_lyapunov.mip_utils as mu


def shift(ps, d, t):
    with torch.no_grad():
        for p, q in zip(ps, d):
            p.add_(q * t)


def active(r):
    """(rows active at the optimum, the binaries) of a solved program."""
    with torch.no_grad():
        A, Z, b = r.get_inequality_constraints()
        x = T([v.x for v in r.r])
        z = T([round(v.x) for v in r.zeta])
        slack = N(A @ x + Z @ z - b)
    return np.flatnonzero(np.abs(slack) < 1e-6), z


def swamped(r, idx, z, penalty):
    """Are the active rows so nearly dependent that the penalty biases x?"""
    with torch.no_grad():
        M, _ = (N(v) for v in r.get_active_constraints(set(idx.tolist()), z))
    s = np.linalg.svd(M, compute_uv=False)
    s = s[s > 1e-10 * s.max()]
    return s.min() ** 2 < 1e6 * penalty


def residual(r, idx, z):
    """Inconsistency of the active rows, taken as equations."""
    with torch.no_grad():
        M, h = (N(v) for v in r.get_active_constraints(set(idx.tolist()), z))
    x = np.linalg.lstsq(M, h, rcond=None)[0]
    return np.abs(M @ x - h).max()


def shape(r):
    return (len(r.r), len(r.zeta), len(r.rhs_in), len(r.rhs_eq))


METHODS = (mu.PropagateBoundsMethod.IA, mu.PropagateBoundsMethod.IA_MIP)


def methods(rng, dut, S):
    """
    The bound methods whose bounds carry gradients (the others are detached
    from the parameters by design).
    """
    m = []
    for o, a in ((dut, "network_bound_propagate_method"),
                 (S.repo, "network_bound_propagate_method"),
                 (S.repo, "controller_network_bound_propagate_method"),
                 (getattr(S, "fw", {}).get("repo"),
                  "network_bound_propagate_method")):
        if hasattr(o, a):
            setattr(o, a, METHODS[int(rng.integers(2))])
            m.append(getattr(o, a).name)
    return m


def gradient_case(c, rng, build, ps, tag, ctx):
    """build() -> solved-ready program; ps: leaf tensors it depends on."""
    with torch.no_grad():  # a zero weight is a kink of the interval bounds
        for p in ps:
            p[p == 0] = .07

    def opt():
        r = build()
        v = solve(r)
        if v is None:
            raise Skip("infeasible")
        return v, r
    v0, r = opt()
    idx, z = active(r)
    penalty = float(rng.choice([1e-12, 1e-13]))
    obj = r.compute_objective_from_mip_data_and_solution(
        solution_number=0, penalty=penalty)
    if swamped(r, idx, z, penalty):
        raise Skip("nearly dependent active rows")
    c.close(float(obj), v0, "objective_recomputed", "recomputed optimum",
            tol=1e-5, scale=1 + abs(v0), tag=tag, **ctx)
    if not obj.requires_grad:
        raise Skip("no dependence")
    g = torch.autograd.grad(obj, ps, allow_unused=True)
    for _ in range(2):
        d = [T(rng.normal(size=tuple(p.shape))) for p in ps]
        if rng.random() < .5:  # one parameter only
            k = int(rng.integers(len(ps)))
            d = [q if j == k else q * 0. for j, q in enumerate(d)]
        sl, res, same = [], [], True
        for s in (1e-4, 3e-4):
            for t in (s, -s):
                shift(ps, d, t)
                try:
                    v, q = opt()
                    sl.append((v - v0) / t)
                    same &= shape(q) == shape(r)
                    res.append(residual(q, idx, z) / s if same else 9e9)
                finally:
                    shift(ps, d, -t)
        mid = np.mean(sl[:2])
        if np.ptp(sl) > 2e-3 * (1 + abs(mid)):
            c.ev("directions at a kink of the optimum")
            continue
        if not same:
            c.ev("directions changing the encoding")
            continue
        if max(res) > 1e-2:
            # degenerate vertex whose active rows separate along d
            c.ev("directions splitting a degenerate vertex")
            continue
        gd = sum(float((x * q).sum()) for x, q in zip(g, d) if x is not None)
        c.close(gd, mid, "optimum_gradient", "gradient of the optimum",
                tol=1e-2, scale=1 + abs(mid), tag=tag, slopes=sl, opt=v0,
                **ctx)
        c.ev("directions:" + tag)
        if ctx.get("vlo") is not None or ctx.get("vup") is not None:
            c.ev("directions with a value bound")
        if abs(mid) > 1e-3:
            c.key(tag, ctx, mid)


def slopes(f, ps, d, h=1e-6):
    """One-sided difference quotients of f along d, f() first."""
    f0, out = f(), []
    for t in (h, -h):
        old = [p.detach().clone() for p in ps]
        with torch.no_grad():
            for p, q in zip(ps, d):
                p.data.add_(T(t * q))
            v = f()
            for p, q in zip(ps, old):
                p.data.copy_(q)
        if v is None or f0 is None:
            return f0, None
        out.append((v - f0) / t)
    return f0, out


def jiggle(rng, *ps):
    """Move off the kinks that round numbers sit on."""
    with torch.no_grad():
        for p in ps:
            p.add_(T(1e-3 * rng.normal(size=tuple(p.shape))))


def fd_case(c, rng, out, f, ps, tag, ctx, num=2):
    """
    The gradient of the scalar out, a function of the leaves ps, against the
    differences of the independent reference f.
    """
    g = torch.autograd.grad(out, ps, allow_unused=True) \
        if out.requires_grad else [None] * len(ps)
    for _ in range(num):
        d = [rng.normal(size=tuple(p.shape)) for p in ps]
        if rng.random() < .5:
            k = int(rng.integers(len(ps)))
            d = [q if j == k else 0 * q for j, q in enumerate(d)]
        f0, sl = slopes(f, ps, d)
        if sl is None or abs(sl[0] - sl[1]) > 1e-4 * (1 + abs(sl[0])):
            c.ev("gradient at a kink")
            continue
        gd = sum(float((N(x) * q).sum()) for x, q in zip(g, d)
                 if x is not None)
        c.close(gd, np.mean(sl), "gradient", "gradient of " + tag, tol=1e-3,
                scale=1 + abs(sl[0]), tag=tag, **ctx)
        c.ev("gradients:" + tag)

"""P20: cost-to-go of trajectories, samples of it, state-input partitions."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch, DTYPE  # noqa: E402
from gen import T, N  # noqa: E402
import sysgen  # noqa: E402
from scipy.integrate import solve_ivp  # noqa: E402
import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402

chk = Check("P20", rule="piecewise-affine systems (staying, leaving, reaching "
            "the goal) x costs (quadratic, 1-norm, constant, a state entry, "
            "shared tensors) x horizons from 0 x start lists x pruners; "
            "partitions of 1-4 dimensions with overlaps and gaps; "
            "non-trivial: distinct (system, cost, horizon)",
            assumptions=["numpy simulation; DOP853 reference integration"])
Exc = hls.AutonomousHybridLinearSystem.StepForwardException


def cost(rng, n):
    """(torch function, numpy function, description, guarded tensors)"""
    k = int(rng.integers(6))
    if k == 0:
        Q = rng.normal(size=(n, n))
        Q = Q @ Q.T
        return (lambda x: x @ T(Q) @ x), (lambda x: x @ Q @ x), "quad", []
    if k == 1:
        return (lambda x: torch.norm(x, p=1)), \
            (lambda x: np.abs(x).sum()), "l1", []
    if k == 2:
        t = torch.tensor(1., dtype=DTYPE)
        return (lambda x: t), (lambda x: 1.), "shared constant", [t]
    if k == 3:
        return (lambda x: torch.tensor(.5, dtype=DTYPE)), (lambda x: .5), \
            "constant", []
    if k == 4:
        return (lambda x: x[0]), (lambda x: x[0]), "entry", []
    w = rng.normal(size=n)
    return (lambda x: torch.exp(T(w) @ x / 4)), \
        (lambda x: np.exp(w @ x / 4)), "exp", []


def system(rng):
    """A piecewise-affine map, its goal and the reference step."""
    S = sysgen.pwa(rng, gain=float(rng.choice([.3, .7, 1.2, 2.])))

    def step(x):
        a = [k for k, (_, _, P, q) in enumerate(S.modes)
             if np.all(P @ x <= q)]
        if [k for k, (_, _, P, q) in enumerate(S.modes) if np.any(
                np.abs(P @ x - q) < 1e-10)]:
            raise Skip("next to a face")
        if not a:
            return None
        A, g = S.modes[a[0]][:2]
        return A @ x + g
    S.step = step
    return S


def simulate(S, x0, steps, goal):
    X = [x0]
    for _ in range(steps):
        d = np.inf if goal is None else np.linalg.norm(X[-1] - goal)
        if abs(d - 1e-3) < 1e-9:
            raise Skip("next to the goal radius")
        if d < 1e-3:
            break
        y = S.step(X[-1])
        if y is None:
            return None
        X.append(y)
    return np.array(X)


def start(rng, S, goal):
    r = rng.random()
    if r < .15 and goal is not None:
        return goal + rng.normal(size=S.n) * 1e-5
    if r < .2:
        return S.up + 1.
    return rng.uniform(size=S.n) * (S.up - S.lo) + S.lo


@chk.section(quick=813, thorough=15000)
def discrete(c, rng, i):
    S = system(rng)
    f, g, name, guarded = cost(rng, S.n)
    steps = int(rng.choice([0, 1, 2, 5, 30]))
    goal = S.eq if rng.random() < .5 else None
    x0 = start(rng, S, goal)
    X = simulate(S, x0, steps, goal)
    x = T(x0)
    keep = [t.clone() for t in guarded]
    kw = {} if goal is None else dict(x_goal=T(goal))
    ctx = dict(system=S.desc, cost=name, steps=steps, goal=goal, x0=x0)
    try:
        tot, xs, cs = hls.compute_discrete_time_system_cost_to_go(
            S.repo, x, steps, f, **kw)
    except Skip:
        raise
    except Exception as e:
        c.require(X is None, "rejected", "a trajectory inside the modes is "
                  "rejected: %r" % e, **ctx)
        c.ev("trajectories leaving the modes")
        return
    c.require(X is not None, "left_modes", "a trajectory that leaves the "
              "modes has a cost", **ctx)
    c.require(N(x).tolist() == list(x0) and all(
        torch.equal(a, b) for a, b in zip(keep, guarded)), "arguments",
        "the caller's tensors are modified", got=N(x), **ctx)
    C = np.array([g(v) for v in X])
    sc = 1 + np.abs(C).sum()
    c.close(N(xs), X.T, "trajectory", "states", tol=1e-9,
            scale=1 + np.abs(X).max(), **ctx)
    c.close(float(tot), C.sum(), "total", "total cost", tol=1e-8, scale=sc,
            **ctx)
    c.close(N(cs), np.cumsum(C[::-1])[::-1], "tail",
            "cost-to-go along the trajectory", tol=1e-8, scale=sc, **ctx)
    c.ev("steps simulated", len(X) - 1)
    c.ev("reached the goal" if len(X) <= steps else "full horizon")
    c.key(S.desc, name, steps, x0)
    c.note(system=S.desc, cost=name, steps=len(X) - 1, total=float(tot))


@chk.section(quick=244, thorough=4000)
def samples(c, rng, i):
    S = system(rng)
    f, g, name, _ = cost(rng, S.n)
    steps = int(rng.choice([0, 1, 3, 8]))
    goal = S.eq if rng.random() < .5 else None
    starts = [start(rng, S, goal) for _ in range(int(rng.integers(0, 6)))]
    w, t = rng.normal(size=S.n), float(rng.normal() * .2)
    pr = rng.random() < .5
    want = []
    for x0 in starts:
        X = simulate(S, x0, steps, goal)
        if X is None:
            c.ev("starts leaving the modes")
            continue
        C = np.array([g(v) for v in X])
        for k, v in enumerate(X):
            m = w @ v - t
            if pr and abs(m) < 1e-9:
                raise Skip("next to the pruning boundary")
            if not (pr and m > 0):
                want.append((v, C[k:].sum()))
            else:
                c.ev("pruned")
        c.ev("starts used")
    kw = {}
    if pr:
        kw["pruner"] = lambda x: bool(T(w) @ x - t > 0)
    if goal is not None:
        kw["x_goal"] = T(goal)
    got = hls.generate_cost_to_go_samples(S.repo, [T(v) for v in starts],
                                          steps, f, True, **kw)
    ctx = dict(system=S.desc, cost=name, steps=steps, starts=starts)
    c.require(len(got) == len(want), "count", "number of samples",
              got=len(got), want=len(want), **ctx)
    for (x, v), (y, u) in zip(got, want):
        c.close(N(x), y, "state", "sampled state", tol=1e-9,
                scale=1 + np.abs(y).max(), **ctx)
        c.close(float(v), u, "cost", "cost-to-go of a sample", tol=1e-8,
                scale=1 + abs(u), **ctx)
    c.ev("samples", len(got))
    c.key(S.desc, name, steps, starts)
    c.note(system=S.desc, samples=len(got))


def flow(rng):
    """A continuous piecewise-affine vector field on a large box."""
    n = int(rng.integers(1, 4))
    A = rng.normal(size=(n, n)) * .5 - 1.4 * np.eye(n)
    eq = rng.normal(size=n) * .5
    g = -A @ eq
    far = 1e6
    P = np.vstack((np.eye(n), -np.eye(n)))
    q = np.full(2 * n, far)
    modes = [(A, g, P, q)]
    if rng.random() < .6:
        h, b = rng.normal(size=n), float(rng.normal() * .3)
        v = rng.normal(size=n) * .4
        s = 1. if h @ eq <= b else -1.
        # the other side: A + v h^T, continuous on h x = b
        modes = [(A, g, np.vstack((P, s * h)), np.append(q, s * b)),
                 (A + np.outer(v, h), g - v * b, np.vstack((P, -s * h)),
                  np.append(q, -s * b))]
    s = hls.AutonomousHybridLinearSystem(n, DTYPE)
    for A, g, P, q in modes:
        s.add_mode(T(A), T(g), T(P), T(q))

    def f(x):
        for A, g, P, q in modes:
            if np.all(P @ x <= q + 1e-12):
                return A @ x + g
        raise Skip("left the box")
    return s, f, n, eq, len(modes)


@chk.section(quick=130, thorough=2500)
def continuous(c, rng, i):
    s, f, n, eq, nm = flow(rng)
    cf, cg, name, _ = cost(rng, n)
    hor = float(rng.choice([.01, .5, 2., 8.]))
    goal = eq if rng.random() < .4 else None
    x0 = eq + rng.normal(size=n) * 1.5
    kw = {} if goal is None else dict(x_goal=T(goal))
    ctx = dict(cost=name, horizon=hor, modes=nm, x0=x0, goal=goal)
    ref = solve_ivp(lambda t, y: np.append(f(y[:n]), cg(y[:n])), (0, hor),
                    np.append(x0, 0.), method="DOP853", rtol=1e-11,
                    atol=1e-12, dense_output=True, max_step=hor / 20)
    if np.abs(ref.y[:n]).max() > 1e3:
        raise Skip("unstable")
    V, X, C, sol = hls.compute_continuous_time_system_cost_to_go(
        s, T(x0), hor, cf, **kw)
    t = np.asarray(sol.t)
    X, C = N(X), N(C)
    c.require(X.shape == (n, len(t)) and C.shape == t.shape and t[0] == 0,
              "shape", "shapes of the trajectory", **ctx)
    Y = ref.sol(t)
    sc = 1 + np.abs(Y).max()
    c.close(X, Y[:n], "flow", "trajectory", tol=1e-4, scale=sc, **ctx)
    end = Y[n, -1]
    c.close(float(V), end, "integral", "cost-to-go", tol=2e-4, scale=sc,
            **ctx)
    c.close(C, end - Y[n], "integral_tail", "cost-to-go on the way",
            tol=2e-4, scale=sc, **ctx)
    dist = np.inf if goal is None else np.linalg.norm(X[:, -1] - goal)
    if t[-1] < hor * (1 - 1e-9):
        c.require(dist < 1.2e-3, "stopped", "stopped early although the goal "
                  "is not reached", dist=dist, t=t[-1], **ctx)
        c.ev("stopped at the goal")
    else:
        d = np.linalg.norm(Y[:n] - eq[:, None], axis=0)
        c.require(goal is None or d.min() > .8e-3, "not_stopped",
                  "went on after reaching the goal", dist=d.min(), **ctx)
        c.ev("full horizon")
    # samples
    if i % 3 == 0:
        got = hls.generate_cost_to_go_samples(s, [T(x0)], hor, cf, False,
                                              **kw)
        c.close(np.array([N(a) for a, _ in got]).T, X, "samples",
                "sampled states", tol=1e-9, scale=sc, **ctx)
        c.close(np.array([float(b) for _, b in got]), C, "samples",
                "sampled costs", tol=1e-9, scale=sc, **ctx)
        c.ev("samples", len(got))
    c.key(nm, name, hor, x0)
    c.note(cost=name, horizon=hor, value=float(V), points=len(t))


@chk.section(quick=406, thorough=8000)
def partition(c, rng, i):
    nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    d = nx + nu
    k = rng.integers(1, 5, d)
    while np.prod(k) > 60:
        k = np.maximum(1, k - 1)
    lo = rng.normal(size=d) * float(rng.choice([.1, 1., 100.]))
    up = lo + rng.uniform(.01, 3., d)
    if rng.random() < .3:
        lo, up = np.round(lo * 4) / 4, np.round(up * 4) / 4 + 1.
    mode = int(rng.integers(3))
    delta = np.zeros(d) if mode == 0 else rng.uniform(0, .4, d) * (
        1 if mode == 1 else -1)

    def ints(v):
        return torch.tensor([int(a) for a in v], dtype=torch.int)
    r = [N(v) for v in hls.partition_state_input_space(
        T(lo[:nx]), T(up[:nx]), T(lo[nx:]), T(up[nx:]), ints(k[:nx]),
        ints(k[nx:]), T(delta[:nx]), T(delta[nx:]))]
    ctr = np.hstack(r[:2])
    clo, cup = np.hstack((r[2], r[4])), np.hstack((r[3], r[5]))
    ctx = dict(lo=lo, up=up, breaks=k, delta=delta)
    c.require(ctr.shape == clo.shape == cup.shape == (np.prod(k), d),
              "count", "number of cells", got=ctr.shape, **ctx)
    size = (up - lo) / k
    sc = 1 + np.abs(lo).max() + np.abs(up).max()
    c.require(np.all(clo <= ctr + 1e-12 * sc) and
              np.all(ctr <= cup + 1e-12 * sc), "centre",
              "a centre outside its cell", **ctx)
    left = {tuple(v) for v in itertools.product(*[range(a) for a in k])}
    for p, a, b in zip(ctr, clo, cup):
        j = np.floor((p - lo) / size).astype(int)
        c.require(tuple(j) in left, "cells", "a cell is missing or repeated",
                  centre=p, **ctx)
        left.discard(tuple(j))
        want = lo + (j + .5) * size
        c.close(p, want, "centre", "centre of a cell", tol=1e-11, scale=sc,
                **ctx)
        wa = np.clip(lo + j * size - delta * size, lo, up)
        wb = np.clip(lo + (j + 1) * size + delta * size, lo, up)
        c.close(a, wa, "lower", "lower corner of a cell", tol=1e-11,
                scale=sc, **ctx)
        c.close(b, wb, "upper", "upper corner of a cell", tol=1e-11,
                scale=sc, **ctx)
    c.ev("cells", len(ctr))
    if mode != 2:
        Q = rng.uniform(size=(40, d)) * (up - lo) + lo
        Q[:10] = np.where(rng.random((10, d)) < .5, lo, up)
        for p in Q:
            c.require(np.any(np.all((clo <= p) & (p <= cup), axis=1)),
                      "cover", "a point of the box is in no cell", point=p,
                      **ctx)
        c.ev("points covered", len(Q))
    c.key(k, lo, mode)
    c.note(breaks=k, cells=len(ctr), delta=delta)


if __name__ == "__main__":
    chk.main()

"""P38: fitting a candidate to sampled cost-to-go."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, relu_net, net_np, net_desc, fwd  # noqa: E402
import sysgen  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

chk = Check("P38", rule="random networks, sample sets (from one sample), norm "
            "matrices (absent, square, tall), weights, tolerances on either "
            "side of the initial error, epochs from 1; and whole runs from "
            "starts of piecewise-affine systems; non-trivial: distinct "
            "(network, samples, options)",
            assumptions=["numpy model of the fitted value; one step of Adam "
                         "from rest moves every parameter by the learning "
                         "rate against the sign of its derivative"])


def rmat(rng, n):
    k = int(rng.integers(3))
    if k == 0:
        return None
    return T(rng.normal(size=(n + (k - 1) * int(rng.integers(1, 3)), n)))


def model(net, X, eq, lam, R):
    p = net_np(net)
    Rn = np.eye(len(eq)) if R is None else N(R)
    return fwd(p, X)[:, 0] - fwd(p, eq)[0] + lam * np.abs(
        (X - eq) @ Rn.T).sum(axis=1)


def snapshot(net):
    return [N(p).copy() for p in net.parameters()]


def restore(net, v):
    with torch.no_grad():
        for p, q in zip(net.parameters(), v):
            p.copy_(T(q))


class Watch:
    """Parameters of the network at every evaluation of all samples."""

    def __init__(self, net, k):
        self.net, self.k, self.seen = net, k, []
        self.h = net.register_forward_hook(self.hook)

    def hook(self, m, a, out):
        x = a[0]
        if x.ndim == 2 and x.shape[0] == self.k:
            v = snapshot(self.net)
            if not self.seen or any(np.any(a != b) for a, b in
                                    zip(v, self.seen[-1])):
                self.seen.append(v)

    def close(self):
        self.h.remove()


def judge(c, dut, net, X, y, eq, lam, R, run, ctx):
    """run() -> (success, loss): outcome, reported loss, direction."""
    def mse():
        return float(np.mean((model(net, X, eq, lam, R) - y)**2))
    p0, m0 = snapshot(net), mse()
    w = Watch(net, len(X)) if len(X) > 1 else None
    out = run()
    if w is not None:
        w.close()
    c.require(len(out) == 2, "outcome", "two parts", **ctx)
    ok, loss = bool(out[0]), float(out[1])
    tol = dut.convergence_tolerance
    m1 = mse()
    end = snapshot(net)
    sc = 1 + abs(m0)
    if ok:
        c.require(loss <= tol, "success", "success above the tolerance",
                  loss=loss, **ctx)
        c.close(m1, loss, "success", "error of the returned network differs "
                "from the one reported", tol=1e-8, scale=sc, **ctx)
        c.ev("success")
    else:
        c.require(loss > tol, "failure", "failure within the tolerance",
                  loss=loss, **ctx)
        c.ev("budget used up")
    c.require(ok or m0 > tol, "stops", "the start is within the tolerance, "
              "but no success is reported", start=m0, **ctx)
    if m0 <= tol * (1 - 1e-9):
        for a, b in zip(p0, end):
            c.close(b, a, "stops", "a network within the tolerance was "
                    "changed", tol=0, **ctx)
        return m0, m1
    if w is not None and w.seen:
        # every error that was seen before the end is above the tolerance
        for v in w.seen[:-1]:
            restore(net, v)
            m = mse()
            c.require(m > tol * (1 - 1e-9), "stops", "went on although the "
                      "error was within the tolerance", error=m, **ctx)
        errs = []
        for v in w.seen + [end]:
            restore(net, v)
            errs.append(mse())
        restore(net, end)
        c.require(min(abs(m - loss) for m in errs[-2:]) < 1e-8 * sc,
                  "reported", "reported error is not that of the network at "
                  "the end", got=loss, want=errs[-2:], **ctx)
        moved = any(np.any(x != z) for x, z in zip(w.seen[-1], end))
        c.require(len(w.seen) <= dut.max_epochs + 1 and (
            ok or not moved or len(w.seen) == dut.max_epochs), "budget",
            "number of epochs", n=len(w.seen), **ctx)
        c.ev("epochs", len(w.seen))
        nxt = w.seen[1] if len(w.seen) > 1 else end
    elif dut.max_epochs == 1:
        nxt = end
    else:
        return m0, m1
    # the first step
    h = 1e-6
    for k, (a, b) in enumerate(zip(p0, nxt)):
        for j in np.ndindex(a.shape):
            if c.rs.random() > .3:
                continue
            f = []
            for s in (h, -h):
                v = [q.copy() for q in p0]
                v[k][j] += s
                restore(net, v)
                f.append((mse() - m0) / s)
            d = np.mean(f)
            if abs(f[0] - f[1]) > .05 * abs(d):
                c.ev("parameters at a kink")
                continue
            if abs(d) < 1e-4:
                c.ev("parameters with a vanishing derivative")
                continue
            c.close(b[j] - a[j], -dut.learning_rate * np.sign(d), "step",
                    "first step of the fit", tol=1e-3,
                    scale=dut.learning_rate, derivative=d, **ctx)
            c.ev("parameter steps")
    restore(net, end)
    return m0, m1


def trainer(rng):
    dut = tlb.TrainValueApproximator()
    dut.max_epochs = int(rng.choice([1, 1, 2, 5, 15]))
    dut.learning_rate = float(rng.choice([.001, .01, .05]))
    return dut


@chk.section(quick=700, thorough=12000)
def fit(c, rng, i):
    c.rs = rng
    n = int(rng.integers(1, 4))
    net = relu_net(rng, n, 1)
    eq = rng.normal(size=n)
    lam = float(rng.choice([0., .3, 1., 2.5]))
    R = rmat(rng, n)
    k = int(rng.choice([1, 2, 3, 8, 20]))
    X = eq + rng.normal(size=(k, n))
    y = np.abs(rng.normal(size=k)) * float(rng.choice([.3, 3.]))
    if rng.random() < .5:  # close to what the candidate already is
        y = model(net, X, eq, lam, R) + rng.normal(size=k) * .02
    dut = trainer(rng)
    m = float(np.mean((model(net, X, eq, lam, R) - y)**2))
    dut.convergence_tolerance = float(
        rng.choice([1e-3, .3 * m, .9 * m, 1.1 * m]))
    ctx = dict(net=net_desc(net), k=k, lam=lam, tolerance=dut.convergence_tolerance,
               epochs=dut.max_epochs, lr=dut.learning_rate,
               R=None if R is None else N(R))
    pairs = [(T(a), T(np.array(b))) for a, b in zip(X, y)]
    m0, m1 = judge(c, dut, net, X, y, eq, lam, R,
                   lambda: dut.train_with_cost_to_go(net, pairs, lam, T(eq),
                                                     R), ctx)
    for (a, b), p, q in zip(pairs, X, y):
        c.require(np.all(N(a) == p) and float(b) == q, "arguments",
                  "the samples were changed")
    c.ev("samples", k)
    c.key(ctx["net"], X, lam, dut.convergence_tolerance)
    c.note(net=ctx["net"], samples=k, before=m0, after=m1)


@chk.section(quick=200, thorough=4000, floor=.5)
def from_system(c, rng, i):
    """The whole run: simulate, collect the samples, fit."""
    c.rs = rng
    S = sysgen.pwa(rng, gain=float(rng.choice([.3, .7])))
    n = S.n
    Q = rng.normal(size=(n, n))
    Q = Q @ Q.T
    steps = int(rng.choice([1, 2, 6]))
    starts = rng.uniform(size=(int(rng.integers(2, 6)), n)) * (
        S.up - S.lo) + S.lo
    goal = S.eq if rng.random() < .3 else None
    w, t = rng.normal(size=n), float(rng.normal() * .3)
    pr = rng.random() < .4
    X, y = [], []
    for x in starts:
        tr = [x]
        for _ in range(steps):
            a, b = S.nexts(tr[-1], 1e-9), S.nexts(tr[-1], -1e-9)
            if len(a) != len(b) or len(a) > 1:
                raise Skip("next to a face")
            if goal is not None:
                d = np.linalg.norm(tr[-1] - goal)
                if abs(d - 1e-3) < 1e-8:
                    raise Skip("next to the goal radius")
                if d < 1e-3:
                    break
            if not a:
                tr = None
                break
            tr.append(a[0])
        if tr is None:
            continue
        C = np.array([v @ Q @ v for v in tr])
        for j, v in enumerate(tr):
            if abs(w @ v - t) < 1e-9:
                raise Skip("next to the pruning boundary")
            if not (pr and w @ v > t):
                X.append(v)
                y.append(C[j:].sum())
    if not X:
        raise Skip("no sample")
    X, y = np.array(X), np.array(y)
    net = relu_net(rng, n, 1)
    lam = float(rng.choice([.3, 1.]))
    R = rmat(rng, n)
    dut = trainer(rng)
    m = float(np.mean((model(net, X, S.eq, lam, R) - y)**2))
    dut.convergence_tolerance = float(rng.choice([1e-3, .9 * m, 1.1 * m]))
    kw = {}
    if goal is not None:
        kw["x_goal"] = T(goal)
    if pr:
        kw["pruner"] = lambda x: bool(T(w) @ x > t)
    ctx = dict(system=S.desc, net=net_desc(net), lam=lam, steps=steps,
               samples=len(X), tolerance=dut.convergence_tolerance,
               epochs=dut.max_epochs, lr=dut.learning_rate,
               R=None if R is None else N(R))
    m0, m1 = judge(c, dut, net, X, y, S.eq, lam, R, lambda: dut.train(
        S.repo, net, lam, T(S.eq), lambda x: x @ T(Q) @ x, T(starts), steps,
        True, R, **kw), ctx)
    c.ev("samples", len(X))
    c.key(S.desc, ctx["net"], X, lam)
    c.note(system=S.desc, net=ctx["net"], samples=len(X), before=m0,
           after=m1)


if __name__ == "__main__":
    chk.main()

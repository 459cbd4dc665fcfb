"""
Discrete-time systems of every kind the Lyapunov programs accept, each with an
independent numpy model of its possible next states, and the numpy model of
the Lyapunov candidate.
"""
import numpy as np
import torch

import cvxpy_redirect
from gen import T, N, DTYPE, relu_net, net_desc, net_np, fwd, points
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.relu_system as rsys
import neural_network_lyapunov.feedback_system as fsys
import neural_network_lyapunov.mip_utils as mu

cvxpy_redirect.install()
METHODS = list(mu.PropagateBoundsMethod)
TIE = 1e-7


class Sys:
    """
    repo: the object under test; lo, up: its state box; eq: equilibrium;
    cand(X, tie) -> (list of (n, d) candidate next states, list of (n,) masks)
    """

    def __init__(self, kind, repo, lo, up, eq, cand, desc, units=0, **kw):
        self.kind, self.repo, self.lo, self.up = kind, repo, lo, up
        self.eq, self.cand, self.desc, self.units = eq, cand, desc, units
        self.n = len(lo)
        self.__dict__.update(kw)

    def nexts(self, x, tie=TIE):
        """All possible next states of one state (tie: mode tolerance)."""
        Y, M = self.cand(np.asarray(x)[None], tie)
        return [y[0] for y, m in zip(Y, M) if m[0]]

    def inbox(self, y, tol=1e-7):
        return bool(np.all(y >= self.lo - tol) and np.all(y <= self.up + tol))


def _split_box(rng, lo, up, k):
    """P x <= q for 2^k or fewer polyhedra covering the box."""
    n = len(lo)
    boxP = np.vstack((np.eye(n), -np.eye(n)))
    boxq = np.concatenate((up, -lo))
    cells = [(boxP, boxq)]
    for _ in range(k):
        a = rng.normal(size=n)
        if rng.random() < .5:
            a = np.eye(n)[int(rng.integers(n))]
        p = points(rng, lo, up, 3)[0]
        p = .5 * p + .25 * (lo + up)
        b = a @ p
        nxt = []
        for P, q in cells:
            for s in (1., -1.):
                nxt.append((np.vstack((P, s * a)), np.append(q, s * b)))
        cells = nxt
    # drop the empty or flat ones
    keep = []
    X = rng.uniform(size=(4000, n)) * (up - lo) + lo
    for P, q in cells:
        m = np.all(X @ P.T <= q - 1e-3, axis=1)
        if m.sum() >= 8:
            keep.append((P, q))
    return keep


def pwa_cells(rng, lo, up, nu=0, ulo=None, uup=None):
    n = len(lo)
    alo = lo if nu == 0 else np.concatenate((lo, ulo))
    aup = up if nu == 0 else np.concatenate((up, uup))
    for _ in range(50):
        cells = _split_box(rng, alo, aup, int(rng.integers(0, 3)))
        # cover: random points must be in some cell
        X = rng.uniform(size=(3000, n + nu)) * (aup - alo) + alo
        if all(any(np.all(P @ x <= q + 1e-9) for P, q in cells) for x in X):
            return cells
    return _split_box(rng, alo, aup, 0)


def pwa(rng, n=None, gain=None):
    n = int(rng.integers(1, 4)) if n is None else n
    eq = rng.normal(size=n) * float(rng.choice([0., .5, 1.]))
    lo = eq - rng.uniform(.3, 1.5, n)
    up = eq + rng.uniform(.3, 1.5, n)
    gain = float(rng.choice([.3, .7, 1.2])) if gain is None else gain
    cells = pwa_cells(rng, lo, up)
    s = hls.AutonomousHybridLinearSystem(n, DTYPE)
    modes = []
    for P, q in cells:
        A = rng.normal(size=(n, n)) * gain / np.sqrt(n)
        if np.all(P @ eq <= q + 1e-9):
            g = eq - A @ eq
        else:
            ctr = rng.uniform(size=n) * (up - lo) + lo
            g = eq - A @ ctr + rng.normal(size=n) * .1
        s.add_mode(T(A), T(g), T(P), T(q))
        modes.append((A, g, P, q))

    def cand(X, tie=TIE):
        Y, M = [], []
        for A, g, P, q in modes:
            Y.append(X @ A.T + g)
            M.append(np.all(X @ P.T <= q + tie, axis=1))
        return Y, M

    return Sys("pwa", s, lo, up, eq, cand, ("pwa", n, len(modes), gain),
               modes=modes)


def pwa_dyadic(rng):
    """
    Axis-aligned modes with data that floating point represents exactly, so
    that membership of a state on several modes' boundaries is unambiguous.
    """
    n = int(rng.integers(1, 4))
    eq = rng.integers(-4, 5, n) / 4.
    lo, up = eq - rng.integers(1, 5, n) / 4., eq + rng.integers(1, 5, n) / 4.
    ks = rng.permutation(n)[:int(rng.integers(1, min(n, 2) + 1))]
    thr = {int(k): (eq[k] if rng.random() < .5 else lo[k] + .5 *
                    (up[k] - lo[k])) for k in ks}
    s = hls.AutonomousHybridLinearSystem(n, DTYPE)
    modes = []
    for sg in np.ndindex(*(2,) * len(thr)):
        P = [np.eye(n), -np.eye(n)]
        q = [up, -lo]
        for (k, t), b in zip(thr.items(), sg):
            r = np.eye(n)[[k]] * (1. if b else -1.)
            P.append(r)
            q.append(np.array([t if b else -t]))
        P, q = np.vstack(P), np.concatenate(q)
        A = rng.integers(-4, 5, (n, n)) / 4.
        g = rng.integers(-8, 9, n) / 8.
        s.add_mode(T(A), T(g), T(P), T(q))
        modes.append((A, g, P, q))

    def cand(X, tie=TIE):
        return ([X @ A.T + g for A, g, _, _ in modes],
                [np.all(X @ P.T <= q + tie, axis=1) for _, _, P, q in modes])

    def exact_points(rng, k):
        X = lo + rng.integers(0, 9, (k, n)) / 8. * (up - lo)
        for j in range(k):
            for c, t in thr.items():
                if rng.random() < .7:
                    X[j, c] = t
        return X

    return Sys("pwa_dyadic", s, lo, up, eq, cand,
               ("pwa dyadic", n, len(modes)), modes=modes,
               exact_points=exact_points)


def _one(f):
    def cand(X, tie=TIE):
        return [f(X)], [np.ones(len(X), dtype=bool)]

    return cand


def auto_relu(rng, n=None, kind=None, method=None, maxunits=8,
              discrete=True, interior=False):
    n = int(rng.integers(1, 4)) if n is None else n
    kind = ("plain", "given", "residual")[int(rng.integers(3))] \
        if kind is None else kind
    method = METHODS[int(rng.integers(4))] if method is None else method
    while True:
        net = relu_net(rng, n, n, scale=float(rng.choice([.4, .8, 1.])))
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= maxunits:
            break
    eq = rng.normal(size=n) * float(rng.choice([0., .5, 1.]))
    if kind == "plain" and discrete:
        # shift the output so that eq is a fixed point
        W, b, _ = npn[-1]
        if net[-1].bias is not None:
            net[-1].bias.data += T(eq - fwd(npn, eq))
            npn = net_np(net)
        else:
            eq = np.zeros(n)
            if np.any(fwd(npn, eq) != 0):
                eq = rng.normal(size=n)
    lo = eq - rng.uniform(.3, 1.5, n)
    up = eq + rng.uniform(.3, 1.5, n)
    if rng.random() < .2 and not interior:
        k = int(rng.integers(n))
        lo[k] = eq[k]
    feq = fwd(npn, eq)
    if kind == "plain":
        s = rsys.AutonomousReLUSystem(DTYPE, T(lo), T(up), net, method)
        f = (lambda X: fwd(npn, X))
    elif kind == "given":
        s = rsys.AutonomousReLUSystemGivenEquilibrium(
            DTYPE, T(lo), T(up), net, T(eq), discrete, method)
        f = (lambda X: fwd(npn, X) - feq + (eq if discrete else 0.))
    else:
        s = rsys.AutonomousResidualReLUSystemGivenEquilibrium(
            DTYPE, T(lo), T(up), net, T(eq), discrete, method)
        f = (lambda X: fwd(npn, X) - feq + (X if discrete else 0.))
    return Sys("relu_" + kind, s, lo, up, eq, _one(f),
               ("relu_" + kind, net_desc(net), method.name), units=nu, net=net,
               npn=npn, f=f, method=method)


def clamp(u, lo, up):
    return np.minimum(np.maximum(u, lo), up)


def controller(rng, n, m, kind=None, maxunits=5):
    if kind is None:
        kind = ("network", "linear")[int(rng.random() < .35)]
    if kind == "linear":
        lin = torch.nn.Linear(n, m, bias=bool(rng.random() < .6)).type(DTYPE)
        lin.weight.data = T(rng.normal(size=(m, n)))
        if lin.bias is not None:
            lin.bias.data = T(rng.normal(size=m))
        return lin, net_np(lin), 0, "linear"
    while True:
        net = relu_net(rng, n, m, nhidden=int(rng.integers(1, 3)))
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= maxunits:
            return net, npn, nu, net_desc(net)


FORWARD = ("hybrid", "relu", "given", "second", "residue")


def forward(rng, kind, n, m, maxunits=6, discrete=True):
    """A controlled system; returns dict(repo, f(X,U)->candidates, ...)."""
    xeq = rng.normal(size=n) * float(rng.choice([0., .5]))
    ueq = rng.normal(size=m) * float(rng.choice([0., .5]))
    if kind in ("second", "residue"):
        nq = n // 2
        xeq[nq:] = 0.
    lo = xeq - rng.uniform(.3, 1.5, n)
    up = xeq + rng.uniform(.3, 1.5, n)
    ulo = ueq - rng.uniform(1., 4., m)
    uup = ueq + rng.uniform(1., 4., m)
    if kind == "hybrid":
        cells = pwa_cells(rng, lo, up, m, ulo, uup)
        s = hls.HybridLinearSystem(n, m, DTYPE)
        modes = []
        xu = np.concatenate((xeq, ueq))
        for P, q in cells:
            A = rng.normal(size=(n, n)) * .6
            B = rng.normal(size=(n, m)) * .4
            if np.all(P @ xu <= q + 1e-9):
                g = xeq - A @ xeq - B @ ueq
            else:
                g = xeq + rng.normal(size=n) * .2 - A @ xeq - B @ ueq
            s.add_mode(T(A), T(B), T(g), T(P), T(q))
            modes.append((A, B, g, P, q))

        def cand(X, U, tie=TIE):
            Y, M = [], []
            for A, B, g, P, q in modes:
                Y.append(X @ A.T + U @ B.T + g)
                M.append(np.all(np.hstack((X, U)) @ P.T <= q + tie, axis=1))
            return Y, M

        return dict(repo=s, cand=cand, lo=lo, up=up, ulo=ulo, uup=uup,
                    xeq=xeq, ueq=ueq, units=0, desc=("hybrid", len(modes)),
                    modes=modes)
    if kind in ("pendulum", "quad2d"):
        return example_ct(rng, kind, maxunits)
    nq = n // 2
    idx = None
    nin, nout = n + m, n
    if kind in ("second", "residue"):
        nout = n - nq
    if kind == "residue":
        k = int(rng.integers(1, n + 1))
        idx = sorted(int(v) for v in rng.permutation(n)[:k])
        if rng.random() < .3:
            idx = idx[::-1]
        nin = k + m
    while True:
        net = relu_net(rng, nin, nout, nhidden=int(rng.integers(1, 3)),
                       scale=float(rng.choice([.4, .8])))
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= maxunits:
            break
    if kind == "relu" and net[-1].bias is not None and discrete:
        net[-1].bias.data += T(xeq - fwd(npn, np.concatenate((xeq, ueq))))
        npn = net_np(net)
    dt = float(rng.choice([.01, .1, .5]))
    args = (DTYPE, T(lo), T(up), T(ulo), T(uup), net)
    feq = None if kind == "residue" else fwd(npn, np.concatenate((xeq, ueq)))
    if kind == "relu":
        s = rsys.ReLUSystem(*args)

        def f(X, U):
            return fwd(npn, np.hstack((X, U)))
    elif kind == "given":
        s = rsys.ReLUSystemGivenEquilibrium(*args, T(xeq), T(ueq), discrete)

        def f(X, U):
            return fwd(npn, np.hstack((X, U))) - feq + (
                xeq if discrete else 0.)
    elif kind == "second":
        s = rsys.ReLUSecondOrderSystemGivenEquilibrium(
            *args, T(xeq[:nq]), T(ueq), dt)

        def f(X, U):
            v = fwd(npn, np.hstack((X, U))) - feq
            return np.hstack((X[:, :nq] + (X[:, nq:] + v) * dt / 2, v))
    else:
        s = rsys.ReLUSecondOrderResidueSystemGivenEquilibrium(
            *args, T(xeq[:nq]), T(ueq), dt, idx)
        feq = fwd(npn, np.concatenate((xeq[idx], ueq)))

        def f(X, U):
            v = X[:, nq:] + fwd(npn, np.hstack((X[:, idx], U))) - feq
            return np.hstack((X[:, :nq] + (X[:, nq:] + v) * dt / 2, v))

    def cand(X, U, tie=TIE):
        ok = np.all((U >= ulo - tie) & (U <= uup + tie), axis=1)
        return [f(X, U)], [ok]

    return dict(repo=s, cand=cand, f=f, lo=lo, up=up, ulo=ulo, uup=uup,
                xeq=xeq, ueq=ueq, units=nu, desc=(kind, net_desc(net)),
                npn=npn, net=net, dt=dt, nq=nq, idx=idx)


def example_ct(rng, kind, maxunits):
    """The continuous-time example systems with bounds on their derivative."""
    if kind == "pendulum":
        from neural_network_lyapunov.examples.pendulum import pendulum as ex
        n, m, nin, nout = 2, 1, 3, 1
        xeq, ueq = np.array([np.pi, 0.]), np.zeros(1)
    else:
        from neural_network_lyapunov.examples.quadrotor2d import \
            quadrotor_2d as ex
        n, m, nin, nout = 6, 2, 3, 3
        xeq, ueq = np.zeros(6), rng.normal(size=2) + 2.
    lo = xeq - rng.uniform(.3, 1.5, n)
    up = xeq + rng.uniform(.3, 1.5, n)
    ulo = ueq - rng.uniform(1., 4., m)
    uup = ueq + rng.uniform(1., 4., m)
    while True:
        net = relu_net(rng, nin, nout, nhidden=int(rng.integers(1, 3)),
                       scale=float(rng.choice([.4, .8])))
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= maxunits:
            break
    args = (DTYPE, T(lo), T(up), T(ulo), T(uup), net)
    if kind == "pendulum":
        s = ex.PendulumReluContinuousTime(*args)
        f0 = fwd(npn, np.concatenate((xeq, ueq)))

        def f(X, U):
            return np.hstack((X[:, 1:], fwd(npn, np.hstack((X, U))) - f0))
    else:
        s = ex.QuadrotorReluContinuousTime(*args, T(ueq))
        f0 = fwd(npn, np.concatenate((xeq[2:3], ueq)))

        def f(X, U):
            return np.hstack((X[:, 3:], fwd(npn, np.hstack(
                (X[:, 2:3], U))) - f0))

    def cand(X, U, tie=TIE):
        return [f(X, U)], [np.ones(len(X), dtype=bool)]

    return dict(repo=s, cand=cand, f=f, lo=lo, up=up, ulo=ulo, uup=uup,
                xeq=xeq, ueq=ueq, units=nu, desc=(kind, net_desc(net)),
                npn=npn, net=net)


def feedback(rng, kind=None, n=None, m=None, ckind=None, maxunits=8,
             method=None, limits=None, discrete=True):
    kind = FORWARD[int(rng.integers(len(FORWARD)))] if kind is None else kind
    if kind in ("second", "residue"):
        n = 2 if n is None or n % 2 else n
    if kind in ("pendulum", "quad2d"):
        n, m = (2, 1) if kind == "pendulum" else (6, 2)
    n = int(rng.integers(1, 4)) if n is None else n
    m = int(rng.integers(1, 3)) if m is None else m
    while True:
        fw = forward(rng, kind, n, m, discrete=discrete)
        net, cnp, cu, cdesc = controller(rng, n, m, ckind)
        if fw["units"] + cu <= maxunits:
            break
    xeq, ueq = fw["xeq"], fw["ueq"]
    # limits within the input range of the forward model
    if limits is None:
        limits = ["finite", "finite", "mixed", "none"][int(rng.integers(4))]
    w = rng.uniform(.2, .95, m)
    ll = ueq + (fw["ulo"] - ueq) * w
    lu = ueq + (fw["uup"] - ueq) * rng.uniform(.2, .95, m)
    if limits == "none":
        ll, lu = np.full(m, -np.inf), np.full(m, np.inf)
    elif limits == "mixed":
        k = rng.random(m) < .5
        ll = np.where(k, -np.inf, ll)
        lu = np.where(k, np.inf, lu)
    elif limits == "hostile":
        # anywhere in the input range, also beyond the equilibrium input
        w = np.sort(rng.uniform(0., 1., (2, m)), axis=0)
        ll = fw["ulo"] + w[0] * (fw["uup"] - fw["ulo"])
        lu = fw["ulo"] + w[1] * (fw["uup"] - fw["ulo"])
        k = rng.random(m)
        lu = np.where(k < .1, ll, lu)
    c0 = fwd(cnp, xeq)
    s = fsys.FeedbackSystem(fw["repo"], net, T(xeq), T(ueq), ll, lu)
    method = METHODS[int(rng.integers(4))] if method is None else method
    s.controller_network_bound_propagate_method = method

    def policy(X):
        return clamp(fwd(cnp, X) - c0 + ueq, ll, lu)

    def cand(X, tie=TIE):
        return fw["cand"](X, policy(X), tie)

    return Sys("fb_" + kind, s, fw["lo"], fw["up"], xeq, cand,
               ("fb", fw["desc"], cdesc, limits, method.name),
               units=fw["units"] + cu, policy=policy, fw=fw, cnp=cnp,
               cnet=net, ulo=ll, uup=lu, ueq=ueq, method=method, c0=c0)


KINDS = ("pwa", "plain", "given", "residual") + tuple(
    "fb_" + k for k in FORWARD)


def any_system(rng, i=None, maxunits=8, n=None, **kw):
    k = KINDS[(int(rng.integers(len(KINDS))) if i is None else i) %
              len(KINDS)]
    if k == "pwa":
        return pwa(rng, n=n)
    if k in ("plain", "given", "residual"):
        return auto_relu(rng, kind=k, maxunits=maxunits, n=n, **kw)
    return feedback(rng, kind=k[3:], maxunits=maxunits, n=n)


class Lyap:
    """V(x) = phi(x) - phi(x*) + lam |R (x - x*)|_1 in numpy."""

    def __init__(self, rng, n, eq, maxunits=5, lam=None, rkind=None,
                 scale=1.):
        while True:
            self.net = relu_net(rng, n, 1, nhidden=int(rng.integers(1, 3)),
                                scale=scale)
            self.npn = net_np(self.net)
            self.units = sum(len(b) for _, b, s in self.npn if s is not None)
            if self.units <= maxunits:
                break
        self.eq = eq
        self.lam = float(rng.choice([0.1, .5, 1., 2.])) if lam is None else lam
        rk = int(rng.integers(4)) if rkind is None else rkind
        if rk == 0:
            self.R = None
            self.Rn = np.eye(n)
        elif rk == 1:
            self.Rn = rng.normal(size=(n + 1, n))
            self.R = T(self.Rn)
        elif rk == 2:
            self.Rn = rng.normal(size=(n, n))
            self.R = T(self.Rn)
        else:
            self.Rn = np.eye(n)[rng.permutation(n)] * rng.uniform(.5, 2)
            self.R = T(self.Rn)
        self.phi0 = float(fwd(self.npn, eq)[0])
        self.desc = (net_desc(self.net), self.lam, rk)

    def l1(self, X):
        return np.abs((np.asarray(X) - self.eq) @ self.Rn.T).sum(axis=-1)

    def V(self, X):
        return fwd(self.npn, X)[..., 0] - self.phi0 + self.lam * self.l1(X)

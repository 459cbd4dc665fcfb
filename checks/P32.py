"""P32: sets of one-sided gradients."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np  # noqa: E402
from gen import T, N, relu_net, net_desc, net_np, fwd  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P32", rule="vectors of dimension 1-6 with exact zeros / ties, "
            "entries inside and at the tolerance; (leaky) ReLU networks at "
            "smooth points and at points moved onto the kinks of one or more "
            "units of any layer; non-trivial: distinct (function, point, "
            "tolerance)",
            assumptions=["numpy enumeration of the one-sided gradients; "
                         "finite differences of the piecewise linear network"])


def rows(a):
    """Set of rows, rounded."""
    return sorted(set(tuple(np.round(r.reshape(-1), 9) + 0.) for r in a))


def same_set(c, got, want, mech, msg, **kw):
    g, w = rows(got), rows(want)
    ok = len(g) == len(w) and np.allclose(g, w, atol=1e-7)
    c.require(ok, mech, msg, got=g, want=w, **kw)


@chk.section(quick=800, thorough=12000)
def l1(c, rng, i):
    n = int(rng.integers(1, 6))
    tol = float(rng.choice([0., 0., 1e-6, .01, .5, 2.]))
    x = rng.normal(size=n) * 2
    for k in range(n):
        u = rng.random()
        if u < .2:
            x[k] = 0.
        elif u < .4 and tol > 0:
            x[k] = tol * float(rng.choice([-1., -.5, .1, .9, 1.]))
    near = [k for k in range(n) if abs(x[k]) <= tol]
    samples = None
    vals = [1., -1.]
    if rng.random() < .4 and len(near) <= 4:
        samples = rng.uniform(-.99, .99, size=int(rng.integers(1, 3)))
        vals += [float(v) for v in samples]
    want = []
    for d in itertools.product(vals, repeat=len(near)):
        g = np.sign(x)
        g[near] = d
        want.append(g)
    xt = T(x)
    g = N(utils.l1_gradient(xt, zero_tol=tol, subgradient_samples=samples)
          if tol or samples is not None else utils.l1_gradient(xt))
    c.require(g.shape == (len(want), n), "l1_count",
              "number of one-sided gradients", got=g.shape, want=len(want),
              x=x, tol=tol)
    same_set(c, g, want, "l1_set", "gradients of the 1-norm", x=x, tol=tol)
    c.require(np.array_equal(N(xt), x), "argument", "argument changed")
    c.ev("gradients", len(want))
    c.key("l1", x, tol, samples)


@chk.section(quick=600, thorough=8000)
def linf(c, rng, i):
    n = int(rng.integers(1, 6))
    tol = float(rng.choice([0., 0., 1e-6, .01, .3]))
    x = rng.normal(size=n)
    m = np.abs(x).max()
    for k in range(n):
        u = rng.random()
        if u < .3:
            x[k] = m * (1 if rng.random() < .5 else -1)
        elif u < .45 and tol > 0:
            x[k] = (m - tol * float(rng.choice([.5, .9, 1.1]))) * \
                (1 if rng.random() < .5 else -1)
    if rng.random() < .08:
        x[:] = 0.
    m = np.abs(x).max()
    E = np.eye(n)
    if m <= tol:
        want = np.vstack((E, -E))
    else:
        gap = np.abs(m - np.abs(x))
        if np.any(np.abs(gap - tol) < 1e-12 * (tol > 0)):
            tol = tol * 1.0000001
        # an entry counts with its sign, and with both if within the tolerance
        # of +m and of -m (only when m is small)
        want = []
        for k in range(n):
            a, b = abs(x[k] - m) <= tol, abs(x[k] + m) <= tol
            if a and not b:
                want.append(E[k])
            elif b and not a:
                want.append(-E[k])
            elif a and b:
                want = None
                break
        if want is None:
            raise Skip("norm comparable to the tolerance")
    g = N(utils.l_infinity_gradient(T(x), max_tol=tol)
          if tol else utils.l_infinity_gradient(T(x)))
    c.require(g.shape == (len(want), n), "linf_count",
              "number of one-sided gradients", got=g.shape, want=len(want),
              x=x, tol=tol)
    same_set(c, g, want, "linf_set", "gradients of the infinity norm", x=x,
             tol=tol)
    c.ev("gradients", len(want))
    c.key("linf", x, tol)


def patterns(npn, x, tol):
    """Jacobians for every choice of the units with |input| <= tol."""
    res = [np.eye(len(x))]
    z = x
    for W, b, s in npn:
        res = [W @ J for J in res]
        z = W @ z + b
        if s is not None:
            for k, v in enumerate(z):
                if v > tol:
                    continue
                new = []
                for J in res:
                    J2 = J.copy()
                    J2[k] *= s
                    new += [J2] if v < -tol else [J, J2]
                res = new
            z = np.where(z > 0, z, s * z)
    return res


def to_kink(rng, npn, x):
    """Move x onto the kink of random units (first layers exactly)."""
    z, pre = fwd(npn, x, trace=True)
    lay = int(rng.integers(len(pre)))
    # linearise unit k of layer lay at x
    k = int(rng.integers(len(pre[lay])))
    J = np.eye(len(x))
    zz = x
    for L, (W, b, s) in enumerate(npn[:lay + 1]):
        J = W @ J
        zz = W @ zz + b
        if L < lay:
            J = np.where(zz > 0, 1., s)[:, None] * J
            zz = np.where(zz > 0, zz, s * zz)
    a = J[k]
    if a @ a < 1e-8:
        return x, False
    y = x - a * zz[k] / (a @ a)
    _, pre = fwd(npn, y, trace=True)
    return y, bool(abs(pre[lay][k]) < 1e-9)


@chk.section(quick=600, thorough=8000)
def network(c, rng, i):
    nin, nout = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    net = relu_net(rng, nin, nout)
    npn = net_np(net)
    x = rng.normal(size=nin)
    if i % 4 == 0:
        x = rng.integers(-2, 3, size=nin).astype(float)
    kink = False
    for _ in range(int(rng.integers(0, 4))):
        x, k = to_kink(rng, npn, x)
        kink = kink or k
    tol = float(rng.choice([0., 1e-7, .05, .5]))
    _, pre = fwd(npn, x, trace=True)
    a = np.abs(np.concatenate(pre))
    edge = 1e-9 if tol else 0.
    exact = np.all(x == np.round(x)) and all(
        np.all(W == np.round(W)) and np.all(b == np.round(b))
        for W, b, _ in npn) and npn[0][2] in (0., .5)
    if tol == 0. and not exact and np.any(a < 1e-9):
        tol = 1e-7
    if np.any((np.abs(a - tol) <= 1e-11) & (a > 0)) or np.sum(a <= tol) > 8:
        tol = 1e-7
        if np.any(np.abs(a - tol) < 1e-9) or np.sum(a <= tol) > 8:
            raise Skip("unit input at the tolerance")
    want = patterns(npn, x, tol)
    g = N(utils.relu_network_gradient(net, T(x), zero_tol=tol)
          if tol else utils.relu_network_gradient(net, T(x)))
    c.require(g.shape[1:] == (nout, nin), "net_shape", "shape", got=g.shape)
    same_set(c, g, want, "net_set", "gradients of the network",
             net=net_desc(net), x=x, tol=tol, edge=edge)
    # every returned gradient at an exact point reproduces one direction
    if tol <= 1e-7:
        D = rng.normal(size=(6, nin))
        h = 1e-5
        for d in D:
            f = (fwd(npn, x + h * d) - fwd(npn, x)) / h
            f2 = (fwd(npn, x + h / 2 * d) - fwd(npn, x)) / (h / 2)
            if np.max(np.abs(f - f2)) > 1e-7:
                continue
            e = np.abs(g @ d - f[None]).max(axis=1)
            c.require(e.min() < 1e-5 * (1 + np.abs(f).max()), "net_direction",
                      "directional derivative attained by no gradient", d=d,
                      f=f, g=g @ d, x=x)
    c.ev("gradients", len(want))
    if kink:
        c.ev("kink_points")
    c.key("net", net_desc(net), x, tol)
    c.note(net=net_desc(net), gradients=len(want), kink=kink)


if __name__ == "__main__":
    chk.main()

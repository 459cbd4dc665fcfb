"""Case generators and independent reference models shared by the checks."""
import itertools

import numpy as np
import torch

DTYPE = torch.float64


def T(a):
    return torch.tensor(np.asarray(a, dtype=float), dtype=DTYPE)


def N(t):
    if isinstance(t, torch.Tensor):
        return t.detach().numpy().astype(float)
    return np.asarray(t, dtype=float)


def relu_net(rng, nin, nout, nhidden=None, widths=None, slope=None,
             bias=None, scale=1., hostile=True, mixed=True):
    """
    A Sequential(Linear, (Leaky)ReLU, ..., Linear) with varied weights; with
    mixed, some networks have slopes and biases that differ between layers.
    """
    free_slope, free_bias = slope is None, bias is None
    if widths is None:
        if nhidden is None:
            nhidden = int(rng.integers(1, 4))
        widths = [int(rng.integers(1, 5)) for _ in range(nhidden)]
    if slope is None:
        slope = [0., 0.1, 0.01, 0.3, 0.5][int(rng.integers(5))]
    if bias is None:
        bias = [True, True, False][int(rng.integers(3))]
    dims = [nin] + list(widths) + [nout]
    layers = []
    mode = int(rng.integers(5)) if hostile else 0
    for k in range(len(dims) - 1):
        lin = torch.nn.Linear(dims[k], dims[k + 1], bias=bias)
        W = rng.normal(size=(dims[k + 1], dims[k])) * scale
        b = rng.normal(size=dims[k + 1]) * scale * .7
        if mode == 1:  # small integers: exact ties and zero bounds
            W = rng.integers(-2, 3, size=W.shape).astype(float)
            b = rng.integers(-2, 3, size=b.shape).astype(float)
        elif mode == 2:  # sparse
            W = W * (rng.random(W.shape) < .5)
        elif mode == 3:  # some neurons always on/off
            b = b * 4.
        lin.weight.data = T(W)
        if bias:
            lin.bias.data = T(b)
        layers.append(lin)
        if k < len(dims) - 2:
            layers.append(torch.nn.ReLU() if slope == 0 else
                          torch.nn.LeakyReLU(slope))
    if mixed and hostile:
        # a generator of its own: the stream of rng stays as it is
        own = np.random.default_rng(int(1e6 * np.abs(N(
            layers[0].weight)).sum()) + 7 * nin + len(layers))
        if len(layers) > 3 and (free_slope or slope > 0) and \
                own.random() < .35:
            for k in range(1, len(layers), 2):
                s = float(own.choice([0., .05, .2, .5] if free_slope else
                                     [.05, .2, .5]))
                layers[k] = torch.nn.ReLU() if s == 0 else \
                    torch.nn.LeakyReLU(s)
        if free_bias and own.random() < .2:
            for k in range(0, len(layers), 2):
                lay = layers[k]
                if own.random() < .5:
                    new = torch.nn.Linear(lay.in_features, lay.out_features,
                                          bias=lay.bias is None)
                    new.weight.data = lay.weight.data
                    if new.bias is not None:
                        new.bias.data = T(own.normal(
                            size=lay.out_features) * scale)
                    layers[k] = new
    return torch.nn.Sequential(*layers).type(DTYPE)


def net_desc(net):
    out = []
    for lay in net:
        if isinstance(lay, torch.nn.Linear):
            out.append("%dx%d%s" % (lay.out_features, lay.in_features, ""
                                    if lay.bias is not None else "nb"))
        elif isinstance(lay, torch.nn.LeakyReLU):
            out.append("leaky%g" % lay.negative_slope)
        else:
            out.append("relu")
    return "-".join(out)


def net_np(net):
    """[(W, b, slope or None)] as independent numpy data."""
    out = []
    layers = list(net) if isinstance(net, torch.nn.Sequential) else [net]
    for i, lay in enumerate(layers):
        if isinstance(lay, torch.nn.Linear):
            W = N(lay.weight)
            b = N(lay.bias) if lay.bias is not None else np.zeros(W.shape[0])
            s = None
            if i + 1 < len(layers):
                nx = layers[i + 1]
                s = (float(nx.negative_slope)
                     if isinstance(nx, torch.nn.LeakyReLU) else 0.)
            out.append((W, b, s))
    return out


def fwd(npnet, x, trace=False):
    """Independent forward pass; x (..., nin)."""
    z = np.asarray(x, dtype=float)
    pre = []
    for W, b, s in npnet:
        z = z @ W.T + b
        if s is not None:
            pre.append(z)
            z = np.where(z > 0, z, s * z)
    return (z, pre) if trace else z


def jac(npnet, x, act=None, tie=1e-9):
    """All Jacobians d out / d x compatible with activation ties at x."""
    x = np.asarray(x, dtype=float)
    res = [(x, np.eye(x.size))]
    for W, b, s in npnet:
        nxt = []
        for z, J in res:
            z1, J1 = W @ z + b, W @ J
            if s is None:
                nxt.append((z1, J1))
                continue
            opts = []
            for v in z1:
                if abs(v) <= tie:
                    opts.append((1., s))
                else:
                    opts.append((1., ) if v > 0 else (s, ))
            for d in itertools.product(*opts):
                nxt.append((np.where(z1 > 0, z1, s * z1),
                            np.array(d)[:, None] * J1))
        res = nxt
        if len(res) > 4096:
            res = res[:4096]
    return [J for _, J in res]


def box(rng, n, center=None, kind=None):
    """A box with varied (also degenerate / one-sided) extents."""
    if kind is None:
        kind = int(rng.integers(6))
    c = rng.normal(size=n) if center is None else np.asarray(center, float)
    w = rng.uniform(.1, 2., size=n)
    if kind == 0:
        lo, up = c - w, c + w
    elif kind == 1:  # integer corners
        lo = np.floor(c - w)
        up = lo + rng.integers(1, 4, size=n)
    elif kind == 2:  # zero on the boundary
        lo = np.where(rng.random(n) < .5, 0., -w)
        up = np.where(lo == 0., w, 0.)
    elif kind == 3:  # some zero-width sides
        lo, up = c - w, c + w
        m = rng.random(n) < .5
        up = np.where(m, lo, up)
    elif kind == 4:  # symmetric
        lo, up = -w, w.copy()
    else:
        lo, up = c - 3 * w, c + 3 * w
    return lo.astype(float), up.astype(float)


def box_with(rng, pt, allow_boundary=True):
    """A box that contains pt (interior, or sometimes on a face)."""
    n = len(pt)
    lo = pt - rng.uniform(.2, 2., size=n)
    up = pt + rng.uniform(.2, 2., size=n)
    return lo, up


def points(rng, lo, up, n, kinks=None):
    """Random, corner, face and edge points of the box."""
    d = len(lo)
    P = rng.uniform(size=(n, d)) * (up - lo) + lo
    for k in range(n):
        if k % 4 == 1:
            P[k] = np.where(rng.random(d) < .5, lo, up)
        elif k % 4 == 2:
            j = int(rng.integers(d))
            P[k, j] = lo[j] if rng.random() < .5 else up[j]
    return np.clip(P, lo, up)


def grid(lo, up, n):
    axes = [np.linspace(lo[i], up[i], n if up[i] > lo[i] else 1)
            for i in range(len(lo))]
    return np.array(np.meshgrid(*axes, indexing="ij")).reshape(len(lo), -1).T


def local_max(f, lo, up, rng, starts, iters=60, step=None):
    """
    Derivative-free maximisation of f over the box (vectorised f: (n,d)->(n,)).
    Returns (best value, best x): a certified lower bound of the maximum.
    """
    X = np.array(starts, dtype=float)
    F = f(X)
    w = (up - lo)
    s = .3 if step is None else step
    for _ in range(iters):
        C = np.clip(X + rng.normal(size=X.shape) * s * w, lo, up)
        m = rng.random(X.shape) < .4
        C = np.where(m, X, C)
        FC = f(C)
        b = FC > F
        X[b] = C[b]
        F[b] = FC[b]
        s *= .9
    k = int(np.argmax(F))
    return F[k], X[k]


def aged(net, use, seed):
    """
    Use an object built from net while net has other parameters, as a training
    loop does, then restore them: nothing of that use may remain.
    """
    r = np.random.default_rng(int(abs(seed) * 1e6) % 2**32)
    if r.random() < .5:
        return
    ps = list(net.parameters())
    old = [p.detach().clone() for p in ps]
    with torch.no_grad():
        for p in ps:
            p.add_(T(.5 * r.normal(size=tuple(p.shape))))
    use()
    with torch.no_grad():
        for p, q in zip(ps, old):
            p.copy_(q)

"""P30: network parameters <-> vectors, structures and files."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
from gen import T, N, net_desc, net_np, fwd  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402

chk = Check("P30", rule="width tuples of 2-6 layers (widths 1-6), slopes "
            "0..1, with and without biases, float64/float32, random parameter "
            "vectors and histories of extract / update / train / restore / "
            "save / load; non-trivial: distinct (structure, parameters)",
            assumptions=["independent numpy forward pass and parameter "
                         "layout: per linear layer, weight row-major, then "
                         "bias"])


def structure(rng):
    w = tuple(int(v) for v in rng.integers(1, 7, size=int(rng.integers(2, 6))))
    slope = float(rng.choice([0., .01, .1, .5, 1.]))
    bias = bool(rng.random() < .6)
    dt = torch.float32 if rng.random() < .2 else torch.float64
    n = sum(a * b + (b if bias else 0) for a, b in zip(w[:-1], w[1:]))
    return w, slope, bias, dt, n


def unpack(v, w, slope, bias):
    out, k = [], 0
    for i, (a, b) in enumerate(zip(w[:-1], w[1:])):
        W = v[k:k + a * b].reshape(b, a)
        k += a * b
        bb = np.zeros(b)
        if bias:
            bb = v[k:k + b]
            k += b
        out.append((W, bb, slope if i < len(w) - 2 else None))
    return out


def vec(rng, n, dt):
    v = rng.normal(size=n) * float(rng.choice([.1, 1., 3.]))
    return torch.tensor(v, dtype=dt)


def same(c, net, v, s, mech, rng, msg):
    w, slope, bias, dt, n = s
    X = rng.normal(size=(5, w[0]))
    got = N(net(torch.tensor(X, dtype=dt)))
    tol = 1e-10 if dt == torch.float64 else 1e-4
    c.close(got, fwd(unpack(N(v), w, slope, bias), X), mech, msg, tol=tol,
            structure=s)


def plain(s, rng):
    """A network of the structure built without the code under test."""
    w, slope, bias, dt, n = s
    lays = []
    for i, (a, b) in enumerate(zip(w[:-1], w[1:])):
        lays.append(torch.nn.Linear(a, b, bias=bias))
        if i < len(w) - 2:
            lays.append(torch.nn.ReLU() if slope == 0 and rng.random() < .7
                        else torch.nn.LeakyReLU(slope))
    return torch.nn.Sequential(*lays).type(dt)


@chk.section(quick=600, thorough=8000)
def setup(c, rng, i):
    s = w, slope, bias, dt, n = structure(rng)
    v = vec(rng, n, dt)
    keep = v.clone()
    net = utils.setup_relu(w, params=v, negative_slope=slope, bias=bias,
                           dtype=dt)
    c.require(len(net) == 2 * (len(w) - 1) - 1, "layers", "layer count",
              got=len(net))
    for k, lay in enumerate(net):
        if k % 2:
            ok = isinstance(lay, (torch.nn.LeakyReLU, torch.nn.ReLU))
            sl = getattr(lay, "negative_slope", 0.)
            c.require(ok and sl == slope, "layers", "activation", got=lay)
        else:
            c.require(isinstance(lay, torch.nn.Linear) and
                      (lay.bias is not None) == bias and
                      lay.weight.dtype == dt, "layers", "linear", got=lay)
    same(c, net, v, s, "setup", rng, "network set up from parameters")
    back = utils.extract_relu_parameters(net)
    c.require(back.dtype == dt and back.shape == (n, ) and
              torch.equal(back, keep), "extract", "parameters read back",
              structure=s)
    st = utils.extract_relu_structure(net)
    c.require(tuple(st[0]) == w and isinstance(st[0], tuple) and
              st[2] == bias and (len(w) == 2 or st[1] == slope), "structure",
              "structure read back", got=st, want=s)
    # training the network leaves the vector alone
    with torch.no_grad():
        for p in net.parameters():
            p.add_(1.)
    c.require(torch.equal(v, keep) and torch.equal(back, keep), "aliasing",
              "a parameter vector changed with the network")
    # default parameters: structure only
    net2 = utils.setup_relu(w, negative_slope=slope, bias=bias, dtype=dt)
    st2 = utils.extract_relu_structure(net2)
    c.require(tuple(st2[0]) == w and st2[2] == bias, "structure", "default")
    c.ev("parameters", n)
    c.key("setup", s, N(v)[:4])


@chk.section(quick=600, thorough=8000)
def history(c, rng, i):
    """extract / update / train / restore in random orders."""
    s = w, slope, bias, dt, n = structure(rng)
    net = plain(s, rng) if rng.random() < .6 else utils.setup_relu(
        w, negative_slope=slope, bias=bias, dtype=dt)
    saved = []
    cur = N(torch.cat([p.detach().reshape(-1) for p in net.parameters()]))
    opt = torch.optim.SGD(net.parameters(), lr=.1)
    for step in range(int(rng.integers(3, 9))):
        k = int(rng.integers(4))
        if k == 0:
            v = utils.extract_relu_parameters(net)
            c.require(np.array_equal(N(v), cur), "extract", "parameters",
                      structure=s)
            saved.append((v, N(v).copy()))
        elif k == 1:
            v = vec(rng, n, dt)
            utils.update_relu_params(net, v)
            cur = N(v).copy()
            saved.append((v, N(v).copy()))
        elif k == 2:
            opt.zero_grad()
            x = torch.tensor(rng.normal(size=(4, w[0])), dtype=dt)
            (net(x)**2).sum().backward()
            g = torch.cat([(torch.zeros_like(p) if p.grad is None else p.grad)
                           .reshape(-1) for p in net.parameters()])
            got = utils.extract_relu_parameters_grad(net)
            c.require(torch.equal(got, g), "gradient", "gradient order",
                      structure=s)
            torch.nn.utils.clip_grad_norm_(net.parameters(), 1.)
            opt.step()
            cur = N(torch.cat([p.detach().reshape(-1)
                               for p in net.parameters()]))
        elif saved:
            v, keep = saved[int(rng.integers(len(saved)))]
            utils.update_relu_params(net, v)
            cur = keep.copy()
        v = utils.extract_relu_parameters(net)
        c.require(np.array_equal(N(v), cur), "update", "network parameters "
                  "differ from those written last", structure=s, step=step)
        for v, keep in saved:
            c.require(np.array_equal(N(v), keep), "aliasing",
                      "a saved vector changed", structure=s)
        c.ev("history_steps")
    same(c, net, T(cur).type(dt), s, "function", rng, "network function")
    # some parameters without gradient: zeros in their place
    for p in net.parameters():
        p.grad = torch.ones_like(p) if rng.random() < .5 else None
    want = np.concatenate([np.full(p.numel(), 0. if p.grad is None else 1.)
                           for p in net.parameters()])
    before = [None if p.grad is None else p.grad for p in net.parameters()]
    c.require(np.array_equal(N(utils.extract_relu_parameters_grad(net)), want),
              "gradient", "zeros where there is no gradient", structure=s)
    vals = [p.detach().clone() for p in net.parameters()]
    utils.network_zero_grad(net)
    for p, v, b in zip(net.parameters(), vals, before):
        c.require(torch.equal(p.detach(), v), "zero_grad",
                  "parameters changed")
        c.require((p.grad is None) == (b is None) or not torch.any(p.grad),
                  "zero_grad", "gradient state")
        c.require(p.grad is None or not bool(torch.any(p.grad != 0)),
                  "zero_grad", "gradient not zero")
    c.key("history", s, cur[:4])


def reload(d, dt):
    net = utils.setup_relu(tuple(d["linear_layer_width"]), params=None,
                           negative_slope=0. if d["negative_slope"] is None
                           else d["negative_slope"], bias=d["bias"], dtype=dt)
    net.load_state_dict(d["state_dict"])
    return net


@chk.section(quick=240, thorough=2500)
def files(c, rng, i):
    s = w, slope, bias, dt, n = structure(rng)
    net = plain(s, rng)
    v = torch.cat([p.detach().reshape(-1) for p in net.parameters()])
    path = os.path.join(c.scratch(), "m.pt")
    kind = i % 3
    if kind == 0:
        q, u, h = T(rng.normal(size=2)), T(rng.normal(size=1)), .1
        utils.save_second_order_forward_model(net, q, u, h, path)
        d = torch.load(path, weights_only=False)
        c.require(torch.equal(d["q_equilibrium"], q) and
                  torch.equal(d["u_equilibrium"], u) and d["dt"] == h,
                  "file", "forward model fields")
    elif kind == 1:
        m = int(rng.integers(1, 4))
        R0 = rng.normal(size=(m + 1, m))
        k = int(rng.integers(4))
        if k == 0:
            R = ro.FixedROptions(T(R0))
        elif k == 1:
            R = ro.SearchRwithSPDOptions((m + 1, m), .1)
            R.set_variable_value(np.vstack((np.eye(m), np.ones((1, m)))))
        elif k == 2:
            R = ro.SearchRwithSVDOptions((m, m), np.full(m, .1))
            R.set_variable_value(np.eye(m) + .1 * R0[:m])
        else:
            R = ro.SearchRfreeOptions((m + 1, m))
            R.set_variable_value(R0)
        lam, e1, e2 = (float(x) for x in rng.uniform(0, 1, 3))
        et = list(lyapunov.ConvergenceEps)[int(rng.integers(3))]
        utils.save_lyapunov_model(net, lam, e1, e2, et, R, path)
        d = torch.load(path, weights_only=False)
        c.require(d["V_lambda"] == lam and
                  d["lyapunov_positivity_epsilon"] == e1 and
                  d["lyapunov_derivative_epsilon"] == e2 and
                  d["eps_type"] == et and d["fixed_R"] == R.fixed_R, "file",
                  "Lyapunov model fields", got={k: d[k] for k in d
                                                if k != "state_dict"})
        c.close(N(d["R"]), N(R.R()), "file", "R", tol=0)
        for key, val in R.extract_params().items():
            c.require(key in d, "file", "R parameter missing", key=key)
    else:
        b = [T(rng.normal(size=2)) for _ in range(4)]
        utils.save_controller_model(net, *b, path)
        d = torch.load(path, weights_only=False)
        for key, val in zip(("x_lo", "x_up", "u_lo", "u_up"), b):
            c.require(torch.equal(d[key], val), "file", key)
    c.require(tuple(d["linear_layer_width"]) == w and d["bias"] == bias and
              (len(w) == 2 or d["negative_slope"] == slope), "file",
              "structure fields", got=d["linear_layer_width"], want=s)
    # the file is independent of later training
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(2.)
    net2 = reload(d, dt)
    same(c, net2, v, s, "reload", rng, "function of the reloaded network")
    c.ev("files")
    c.key("file", kind, s, N(v)[:4])
    c.note(structure=net_desc(net2), kind=kind, layers=len(net_np(net2)))


if __name__ == "__main__":
    chk.main()

"""P02: MIP encodings of the ReLU network gradient."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import (T, N, DTYPE, relu_net, net_desc, net_np, fwd, box,  # noqa
                 points, aged)
from probe import Blocks, fixed  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.relu_to_optimization as rto  # noqa: E402

chk = Check("P02", rule="random networks (1-3 hidden layers, widths 1-4, ReLU "
            "and leaky slopes, with/without bias, integer weights for exact "
            "ties); random and all activation vectors; vector boxes of every "
            "kind; non-trivial: distinct (network, activation) judged",
            assumptions=["output_gradient: ReLU networks with one output "
                         "(documented)"])
GRB = gurobipy.GRB


def units(npn):
    return [len(b) for _, b, s in npn if s is not None]


def split(npn, beta):
    out = []
    k = 0
    for n in units(npn):
        out.append(np.asarray(beta[k:k + n], float))
        k += n
    return out


def grad_of(npn, beta):
    """Jacobian of the network with the activations beta."""
    J = np.eye(npn[0][0].shape[1])
    bs = split(npn, beta)
    k = 0
    for W, b, s in npn:
        J = W @ J
        if s is not None:
            d = np.where(bs[k] > .5, 1., s)
            J = d[:, None] * J
            k += 1
    return J


def affine_of(npn, beta, nin):
    """(pre-activation maps [(A, b)], output map (A, b)) for the pattern."""
    A, h = np.eye(nin), np.zeros(nin)
    bs = split(npn, beta)
    k = 0
    pre = []
    for W, b, s in npn:
        A, h = W @ A, W @ h + b
        if s is not None:
            pre.append((A, h))
            d = np.where(bs[k] > .5, 1., s)
            A, h = d[:, None] * A, d * h
            k += 1
    return pre, (A, h)


def small_net(rng, nin, nout, slope=None, maxu=9):
    while True:
        net = relu_net(rng, nin, nout, slope=slope)
        npn = net_np(net)
        if sum(units(npn)) <= maxu:
            return net, npn


@chk.section(quick=120, thorough=600, floor=.9, timeout=400)
def alpha(c, rng, i):
    """output_gradient: gradient as alpha'M with alpha tied to beta."""
    nin = int(rng.integers(1, 4))
    net, npn = small_net(rng, nin, 1, slope=0.)
    us = units(npn)
    free = rto.ReLUFreePattern(net, DTYPE)
    aged(net, free.output_gradient, i)
    M, B1, B2, d = [N(v) for v in free.output_gradient()]
    na = int(np.prod(us))
    c.require(M.shape == (na, nin) and B1.shape[1] == na and
              B2.shape[1] == sum(us) and
              B1.shape[0] == B2.shape[0] == d.reshape(-1).size,
              "alpha_shape", "M %s B1 %s B2 %s d %s" %
              (M.shape, B1.shape, B2.shape, d.shape))
    d = d.reshape(-1)
    # the documented index of every path
    paths = list(itertools.product(*[range(n) for n in us]))
    idx = [free.compute_alpha_index(p) for p in paths]
    c.require(sorted(idx) == list(range(na)), "alpha_index",
              "indices of the paths are not a permutation: %s" % idx)
    c.require(idx == list(range(na)), "alpha_index",
              "paths are not in row-major order: %s" % idx)
    betas = [(rng.random(sum(us)) < rng.uniform(.3, 1.)).astype(float)
             for _ in range(6)]
    betas += [np.ones(sum(us)), np.zeros(sum(us))]
    x = points(rng, *box(rng, nin), 1)[0]
    betas.append(np.concatenate([p > 0 for p in fwd(npn, x, trace=True)[1]])
                 .astype(float))
    for be in betas:
        bs = split(npn, be)
        a = np.array([np.prod([bs[k][p[k]] for k in range(len(us))])
                      for p in paths])
        c.require(np.all(B1 @ a + B2 @ be <= d + 1e-9), "alpha_excluded",
                  "the products of the activations violate the constraints",
                  beta=be.tolist())
        # the unique binary choice: flipping any entry breaks a row
        for k in range(na):
            w = a.copy()
            w[k] = 1. - w[k]
            c.require(np.any(B1 @ w + B2 @ be > d + 1e-9),
                      "alpha_not_unique", "alpha %d is not determined" % k,
                      beta=be.tolist())
        for _ in range(4):
            w = (rng.random(na) < .5).astype(float)
            if not np.array_equal(w, a):
                c.require(np.any(B1 @ w + B2 @ be > d + 1e-9),
                          "alpha_not_unique", "a wrong alpha is admitted",
                          beta=be.tolist())
        c.close(a @ M, grad_of(npn, be)[0], "alpha_gradient",
                "alpha'M against the gradient", 1e-11)
        c.ev(1)
        c.key(net_desc(net), be.tolist(), np.round(M[0], 3).tolist())


def judge_times(c, rng, npn, ret, lo, up, nbeta=3, tag="times"):
    nin, nu = npn[0][0].shape[1], sum(units(npn))
    nout = npn[-1][0].shape[0]
    blk = Blocks(ret, nx=nin, ns=nu, nb=nu)
    c.require(blk.nout == nout, tag + "_shape", "%s outputs" % blk.nout)
    for _ in range(nbeta):
        be = (rng.random(nu) < .6).astype(float)
        y = points(rng, lo, up, 3)[int(rng.integers(3))]
        bs = split(npn, be)
        z = y
        zs, k = [], 0
        Wz = []
        for W, b, s in npn:
            z = W @ z
            Wz.append(z)
            if s is not None:
                z = np.where(bs[k] > .5, 1., s) * z
                zs.append(z)
                k += 1
        flat = np.concatenate(zs)
        sc = 1 + np.max(np.abs(flat)) + np.max(np.abs(z))
        r = blk.residual(y, flat, be)
        c.require(r < 1e-7 * sc, tag + "_excluded", "true slacks violate the "
                  "constraints by %g" % r, beta=be.tolist(), y=y.tolist())
        c.close(blk.out(y, flat, be), z, tag + "_output",
                "output map at the true slacks", 1e-9)
        P = blk.model({**fixed("input", y), **fixed("binary", be)})
        for j in range(nout):
            rg = P.out_range(j)
            c.require(rg is not None, tag + "_excluded", "infeasible")
            c.require(abs(rg[0] - z[j]) < 1e-5 * sc and
                      abs(rg[1] - z[j]) < 1e-5 * sc, tag + "_not_unique",
                      "output ranges over %s, value %r" % (rg, z[j]),
                      beta=be.tolist(), y=y.tolist())
        for zl, zu, ref, nm in [(ret.z_lo, ret.z_up, [y] + zs, "z"),
                                (ret.Wz_lo, ret.Wz_up, Wz, "Wz")]:
            c.require(len(zl) == len(ref) == len(zu), tag + "_bound",
                      "%d bounds of %s for %d layers" % (len(zl), nm,
                                                         len(ref)))
            for a, b, v in zip(zl, zu, ref):
                a, b = N(a), N(b)
                c.require(a.shape == v.shape and np.all(v >= a - 1e-6 * sc)
                          and np.all(v <= b + 1e-6 * sc), tag + "_bound",
                          "%s=%s outside [%s, %s]" % (nm, v, a, b))
        c.ev(nout)
        c.key(tag, be.tolist(), np.round(y, 3).tolist(), nout, nu)


@chk.section(quick=200, thorough=1000, floor=.9, timeout=400)
def times_vector(c, rng, i):
    nin, nout = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    slope = [None, None, 0., 1., 1.7][int(rng.integers(5))]
    net, npn = small_net(rng, nin, nout, slope=slope)
    lo, up = box(rng, nin)
    c.note(net=net_desc(net), lo=lo.tolist(), up=up.tolist())
    free = rto.ReLUFreePattern(net, DTYPE)
    aged(net, lambda: free.output_gradient_times_vector(T(lo), T(up)), i)
    ret = free.output_gradient_times_vector(T(lo), T(up))
    judge_times(c, rng, npn, ret, lo, up)
    # a vector outside its declared box is not admitted through any slack
    # value that differs: the activation alone decides (already judged above)


@chk.section(quick=80, thorough=400, floor=.7, timeout=400)
def times_bounds_program(c, rng, i):
    """Bounds from optimisation are the extreme values over z0 and beta."""
    nin, nout = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    net, npn = small_net(rng, nin, nout, maxu=6)
    nu = sum(units(npn))
    lo, up = box(rng, nin)
    free = rto.ReLUFreePattern(net, DTYPE)
    prog = gurobipy.Model()
    prog.setParam(GRB.Param.OutputFlag, False)
    z0 = [prog.addVar(lb=lo[k], ub=up[k]) for k in range(nin)]
    beta = [prog.addVar(vtype=GRB.BINARY) for _ in range(nu)]
    force = {}
    for k in range(nu):
        if rng.random() < .3:
            force[k] = float(rng.random() < .5)
            prog.addLConstr(gurobipy.LinExpr(1., beta[k]), GRB.EQUAL,
                            force[k])
    prog.update()
    z_lo, z_up, Wz_lo, Wz_up, z = free._compute_Wz_bounds_optimization(
        prog, z0, beta)
    V = np.array(list(itertools.product(*zip(lo, up))))
    W_ref = [[np.inf, -np.inf] for _ in npn]
    z_ref = [[lo, up]] + [[np.inf, -np.inf] for _ in npn[:-1]]
    W_ref = [[np.full(len(b), np.inf), np.full(len(b), -np.inf)]
             for _, b, s in npn]
    z_ref = [[lo.copy(), up.copy()]] + [
        [np.full(len(b), np.inf), np.full(len(b), -np.inf)]
        for _, b, s in npn[:-1]]
    free_idx = [k for k in range(nu) if k not in force]
    for d in itertools.product((0., 1.), repeat=len(free_idx)):
        be = np.zeros(nu)
        for k, v in force.items():
            be[k] = v
        be[free_idx] = d
        bs = split(npn, be)
        Z = V
        k = 0
        for j, (W, b, s) in enumerate(npn):
            Z = Z @ W.T
            W_ref[j][0] = np.minimum(W_ref[j][0], Z.min(axis=0))
            W_ref[j][1] = np.maximum(W_ref[j][1], Z.max(axis=0))
            if s is not None:
                Z = Z * np.where(bs[k] > .5, 1., s)
                z_ref[j + 1][0] = np.minimum(z_ref[j + 1][0], Z.min(axis=0))
                z_ref[j + 1][1] = np.maximum(z_ref[j + 1][1], Z.max(axis=0))
                k += 1
    for nm, L, U, R in (("z", z_lo, z_up, z_ref), ("Wz", Wz_lo, Wz_up,
                                                   W_ref)):
        c.require(len(L) == len(R), "opt_bound_shape", nm)
        for a, b, (ra, rb) in zip(L, U, R):
            c.close(N(a), ra, "opt_bound", nm + " lower bound", 1e-6)
            c.close(N(b), rb, "opt_bound", nm + " upper bound", 1e-6)
            c.ev(2)
    if not force:
        ret = free.output_gradient_times_vector_w_bounds(z_lo, z_up, Wz_lo,
                                                         Wz_up)
        judge_times(c, rng, npn, ret, lo, up, 2, "times_opt")
    c.key(net_desc(net), np.round(lo, 3).tolist(), sorted(force.items()))


@chk.section(quick=240, thorough=1000, floor=.9)
def pattern(c, rng, i):
    """Affine piece and polyhedron of an activation pattern."""
    nin, nout = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    net, npn = small_net(rng, nin, nout, maxu=12)
    nu = sum(units(npn))
    w0 = [p.detach().clone() for p in net.parameters()]
    lo, up = box(rng, nin, kind=int(rng.choice([0, 5])))
    X = points(rng, lo, up, 60)
    for rep in range(3):
        if rep == 0:
            be = (rng.random(nu) < .5).astype(float)
        else:
            be = np.concatenate([p > 0 for p in fwd(
                npn, X[int(rng.integers(60))], trace=True)[1]]).astype(float)
        pat = rto.relu_activation_binary_to_pattern(net, be)
        c.require([len(p) for p in pat] == units(npn) and
                  np.array_equal(np.concatenate([np.array(p, bool)
                                                 for p in pat]), be > .5),
                  "binary_to_pattern", "pattern of the binaries differs")
        arg = pat if rng.random() < .5 else [[bool(v) for v in p]
                                             for p in pat]
        with torch.no_grad():
            g, h, P, q = rto.ReLUGivenActivationPattern(net, nin, arg, DTYPE)
        pre, (A, b) = affine_of(npn, be, nin)
        c.require(tuple(g.shape) == (nin, nout) and
                  tuple(P.shape) == (nu, nin) and
                  tuple(q.shape) == (nu, 1) and tuple(h.shape) == (nout, 1),
                  "pattern_shape", "g%s h%s P%s q%s" % (
                      tuple(g.shape), tuple(h.shape), tuple(P.shape),
                      tuple(q.shape)))
        c.close(N(g).T, A, "pattern_gradient", "g'", 1e-11)
        c.close(N(h)[:, 0], b, "pattern_offset", "h", 1e-11)
        Ap = np.vstack([a for a, _ in pre])
        bp = np.concatenate([v for _, v in pre])
        val = X @ Ap.T + bp
        want = np.where(be > .5, -val, val)  # <= 0 inside
        got = X @ N(P).T - N(q)[:, 0]
        # same half-spaces (up to positive scaling), judged by membership
        far = np.abs(want) > 1e-9
        c.require(np.array_equal((got <= 1e-10)[far], (want <= 0)[far]),
                  "pattern_polyhedron", "half-spaces differ")
        ins = np.all(got <= 1e-12, axis=1)
        if np.any(ins):
            c.close(X[ins] @ N(g) + N(h)[:, 0], fwd(npn, X[ins]),
                    "pattern_piece", "affine piece inside", 1e-9)
            c.ev("inside", int(np.sum(ins)))
        c.ev(1)
        c.key(net_desc(net), be.tolist(), np.round(A, 3).tolist())
    c.require(all(torch.equal(a, b.detach()) for a, b in
                  zip(w0, net.parameters())), "operands",
              "the network was modified")


class _Start:
    def __init__(self):
        self.start = None


@chk.section(quick=300, thorough=1200, floor=.9)
def patterns_at(c, rng, i):
    """Activation patterns at an input, ties included; warm starts."""
    nin, nout = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    slope = [None, 0., .25, .5][int(rng.integers(4))]
    ws = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4)))]
    net = relu_net(rng, nin, nout, widths=ws, slope=slope)
    if rng.random() < .7:
        for lay in net:
            if isinstance(lay, torch.nn.Linear):
                lay.weight.data = T(rng.integers(-2, 3, size=tuple(
                    lay.weight.shape)))
                if lay.bias is not None:
                    lay.bias.data = T(rng.integers(-1, 2, size=tuple(
                        lay.bias.shape)))
    npn = net_np(net)
    x = rng.integers(-2, 3, size=nin).astype(float)
    if rng.random() < .2:
        x = x * 0.
    pre = fwd(npn, x, trace=True)[1]
    ties = int(sum(np.sum(p == 0) for p in pre))
    if ties > 7 or any(np.any((np.abs(p) < 1e-9) & (p != 0)) for p in pre):
        raise Skip("rounding at a tie")
    got = rto.compute_all_relu_activation_patterns(net, T(x))
    fl = []
    for p in got:
        c.require([len(q) for q in p] == ws, "pattern_layers",
                  "pattern with layers %s" % [len(q) for q in p])
        fl.append(tuple(bool(v) for q in p for v in q))
    flat = np.concatenate(pre)
    want = set(itertools.product(*[(True, ) if v > 0 else (False, ) if v < 0
                                   else (True, False) for v in flat]))
    c.require(len(fl) == len(set(fl)), "pattern_duplicate", "%d patterns, "
              "%d distinct" % (len(fl), len(set(fl))))
    c.require(set(fl) == want, "pattern_set", "patterns at the input: %d, "
              "expected %d" % (len(fl), len(want)), x=x.tolist())
    one = rto.ComputeReLUActivationPattern(net, T(x))
    c.require([len(q) for q in one] == ws, "pattern_layers", "layers")
    f1 = tuple(bool(v) for q in one for v in q)
    c.require(f1 == tuple(v >= 0 for v in flat), "pattern_single",
              "ComputeReLUActivationPattern: %s" % (f1, ))
    beta = [_Start() for _ in range(len(flat))]
    rto.set_activation_warmstart(net, beta, T(x))
    c.require([b.start for b in beta] == [1. if v >= 0 else 0.
                                          for v in flat],
              "warmstart", "starting values %s" % [b.start for b in beta])
    # the affine piece of every pattern agrees with the network at x
    for p in got[:8]:
        with torch.no_grad():
            g, h, P, q = rto.ReLUGivenActivationPattern(net, nin, p, DTYPE)
        c.close(x @ N(g) + N(h)[:, 0], fwd(npn, x), "pattern_value",
                "piece at its own input", 1e-10)
        c.require(np.all(N(P) @ x <= N(q)[:, 0] + 1e-10), "pattern_contains",
                  "the input is outside the polyhedron of its pattern")
    c.ev("ties", ties)
    c.key(net_desc(net), x.tolist(), fl[0], len(fl))


if __name__ == "__main__":
    chk.main()

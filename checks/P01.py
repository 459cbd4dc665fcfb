"""P01: the MIP encoding of a ReLU network is exactly the network's graph."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import (T, N, DTYPE, relu_net, net_desc, net_np, fwd, box,  # noqa
                 points, local_max, aged)
from probe import Blocks, fixed  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.relu_to_optimization as rto  # noqa: E402
import neural_network_lyapunov.mip_utils as mu  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402

chk = Check("P01", rule="random fully connected networks (1-3 hidden layers, "
            "widths 1-4, ReLU or leaky slope 0..0.5, with and without bias, "
            "dense / sparse / integer / always-on-off weights), boxes of all "
            "kinds (zero-width, one-sided, integer corners), the 4 bound "
            "methods; inputs: corners, faces, interior, exact kinks; "
            "non-trivial: distinct (network, method, box) whose encoding was "
            "probed at an input", assumptions=[
                "slopes of leaky units are in [0, 1) (documented)",
                "bound methods based on a solver are used on nets with at "
                "most 9 units"])
METHODS = list(mu.PropagateBoundsMethod)
TOL = 2e-6


def kink_point(rng, npn, lo, up):
    """A point of the box where some unit's input is (nearly) exactly zero."""
    A = points(rng, lo, up, 40)
    pre = np.concatenate(fwd(npn, A, trace=True)[1], axis=1)
    j = int(rng.integers(pre.shape[1]))
    p, q = int(np.argmax(pre[:, j])), int(np.argmin(pre[:, j]))
    if pre[p, j] <= 0 or pre[q, j] >= 0:
        return None
    a, b = A[p], A[q]
    for _ in range(80):
        m = .5 * (a + b)
        v = np.concatenate(fwd(npn, m, trace=True)[1])[j]
        if v > 0:
            a = m
        else:
            b = m
    return b


def setup(c, rng, method=None, big=False):
    nin = int(rng.integers(1, 4))
    nout = int(rng.integers(1, 4))
    if method is None:
        method = METHODS[int(rng.integers(len(METHODS)))]
    while True:
        net = relu_net(rng, nin, nout)
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= 9 or method == mu.PropagateBoundsMethod.IA:
            break
    lo, up = box(rng, nin)
    w0 = [p.detach().clone() for p in net.parameters()]
    free = rto.ReLUFreePattern(net, DTYPE)
    aged(net, lambda: free.output_constraint(T(lo), T(up), method),
         lo.sum() + 7 * up.sum())
    tlo, tup = T(lo), T(up)
    ret = free.output_constraint(tlo, tup, method)
    c.require(all(torch.equal(a, b.detach()) for a, b in
                  zip(w0, net.parameters())) and
              np.array_equal(N(tlo), lo) and np.array_equal(N(tup), up),
              "operands", "output_constraint changed the network or the box")
    desc = (net_desc(net), method.name, nu)
    c.note(net=net_desc(net), method=method.name, units=nu, lo=lo.tolist(),
           up=up.tolist())
    blk = Blocks(ret, nx=nin, ns=nu, nb=nu)
    c.require(blk.nout == nout, "output", "%s outputs for a network with %d" %
              (blk.nout, nout))
    return net, npn, lo, up, free, ret, blk, nu, nin, nout, desc


def tie_residual(blk, x, post, act, pre):
    """Smallest residual over the activations allowed at (near) ties."""
    ties = [k for k in range(len(pre)) if abs(pre[k]) < 1e-8]
    if len(ties) > 10:      # degenerate network: the range programs decide
        return 0.
    best = np.inf
    for d in itertools.product((0., 1.), repeat=len(ties)):
        a = act.copy()
        a[ties] = d
        best = min(best, blk.residual(x, post, a))
    return best


def judge_point(c, x, npn, blk, nu, nout):
    y, pre = fwd(npn, x, trace=True)
    pre = np.concatenate(pre)
    post = []
    z = x
    for W, b, s in npn:
        z = W @ z + b
        if s is not None:
            z = np.where(z > 0, z, s * z)
            post.append(z)
    post = np.concatenate(post)
    act = (pre > 0).astype(float)
    r = tie_residual(blk, x, post, act, pre)
    c.require(r < TOL * (1 + np.max(np.abs(post))), "graph_excluded",
              "true (slack, activation) violates the constraints by %g" % r,
              x=x.tolist())
    o = blk.out(x, post, act)
    c.close(o, y, "output", "the output map at the true slacks", TOL)
    P = blk.model(fixed("input", x))
    c.require(P.feasible(), "infeasible_input",
              "no assignment for an input of the box", x=x.tolist())
    scale = 1 + max(np.max(np.abs(post)), np.max(np.abs(y)))
    for k in range(nout):
        a, b = P.out_range(k)
        c.require(abs(a - y[k]) < 5 * TOL * scale and
                  abs(b - y[k]) < 5 * TOL * scale, "output_not_unique",
                  "output %d ranges over [%r, %r], network gives %r" %
                  (k, a, b, y[k]), x=x.tolist())
    for k in range(nu):
        a, b = P.var_range("slack", k)
        c.require(abs(a - post[k]) < 5 * TOL * scale and
                  abs(b - post[k]) < 5 * TOL * scale, "slack_not_unique",
                  "unit %d ranges over [%r, %r], value %r" %
                  (k, a, b, post[k]), x=x.tolist())
        if abs(pre[k]) > 1e-4:
            a, b = P.var_range("binary", k)
            c.require(abs(a - act[k]) < 1e-5 and abs(b - act[k]) < 1e-5,
                      "binary_wrong", "binary %d ranges over [%r, %r] for "
                      "unit input %r" % (k, a, b, pre[k]), x=x.tolist())
    c.ev(nout + 2 * nu)


@chk.section(quick=200, thorough=1200, floor=.9, timeout=600)
def graph(c, rng, i):
    """Range of outputs, units and binaries with the input fixed."""
    m = METHODS[i % 4] if i % 2 else mu.PropagateBoundsMethod.IA
    net, npn, lo, up, free, ret, blk, nu, nin, nout, desc = setup(c, rng, m)
    X = [points(rng, lo, up, 4)[int(rng.integers(4))]]
    k = kink_point(rng, npn, lo, up)
    X.append(k if k is not None else points(rng, lo, up, 2)[1])
    for x in X:
        judge_point(c, x, npn, blk, nu, nout)
    c.key(*desc, np.round(lo, 3), np.round(up, 3))


@chk.section(quick=300, thorough=1500, floor=.9, timeout=400)
def bounds(c, rng, i):
    """Returned bounds contain everything reached; box of the input."""
    net, npn, lo, up, free, ret, blk, nu, nin, nout, desc = setup(c, rng)
    X = points(rng, lo, up, 400)
    Y, pre = fwd(npn, X, trace=True)
    pre = np.concatenate(pre, axis=1)
    Z = X
    post = []
    for W, b, s in npn:
        Z = Z @ W.T + b
        if s is not None:
            Z = np.where(Z > 0, Z, s * Z)
            post.append(Z)
    post = np.concatenate(post, axis=1)
    for nm, V, a, b in (("relu_input", pre, ret.relu_input_lo,
                         ret.relu_input_up),
                        ("relu_output", post, ret.relu_output_lo,
                         ret.relu_output_up),
                        ("nn_output", Y, ret.nn_output_lo, ret.nn_output_up)):
        a, b = N(a), N(b)
        c.require(a.shape == (V.shape[1], ) and b.shape == (V.shape[1], ),
                  "bound_shape", "%s bounds of shape %s" % (nm, a.shape))
        t = TOL * (1 + np.max(np.abs(V)))
        for k in range(V.shape[1]):
            # push the samples towards the extremes
            c.require(V[:, k].max() <= b[k] + t and V[:, k].min() >= a[k] - t,
                      "bound_unsound", "%s %d reaches [%r, %r], bounds "
                      "[%r, %r]" % (nm, k, V[:, k].min(), V[:, k].max(),
                                    a[k], b[k]))
        c.ev(2 * V.shape[1])
    if nout:
        k = int(rng.integers(nout))
        g = float(rng.choice([-1., 1.]))
        best, x = local_max(lambda Q: g * fwd(npn, Q)[..., k], lo, up, rng,
                            X[:60])
        b = N(ret.nn_output_up)[k] if g > 0 else -N(ret.nn_output_lo)[k]
        c.require(best <= b + TOL * (1 + abs(best)), "bound_unsound",
                  "output %d reaches %r beyond its bound %r" % (k, g * best,
                                                              g * b))
    c.require(np.array_equal(N(ret.nn_input_lo), lo) and
              np.array_equal(N(ret.nn_input_up), up), "input_bounds",
              "recorded input box differs")
    # outside the box nothing is admitted
    for _ in range(2):
        x = points(rng, lo, up, 1)[0]
        j = int(rng.integers(nin))
        x[j] = up[j] + 1e-3 * (1 + abs(up[j])) if rng.random() < .5 else \
            lo[j] - 1e-3 * (1 + abs(lo[j]))
        c.require(not blk.model(fixed("input", x)).feasible(), "outside_box",
                  "an input outside the box is admitted", x=x.tolist())
        c.ev(1)
    c.key(*desc, np.round(lo, 3), np.round(up, 3))


@chk.section(quick=160, thorough=800, floor=.9, timeout=400)
def optimum(c, rng, i):
    """
    A user's program over the encoding: its optimum is a value of the network,
    attained at the reported input, and no sampled input does better.
    """
    net, npn, lo, up, free, ret, blk, nu, nin, nout, desc = setup(c, rng)
    co = rng.normal(size=nout)
    cx = rng.normal(size=nin) * float(rng.choice([0., .5]))
    mip = gtm.GurobiTorchMILP(DTYPE)
    mip.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
    x = mip.addVars(nin, lb=T(lo), ub=T(up), name="x")
    y = mip.addVars(nout, lb=-gurobipy.GRB.INFINITY, name="y")
    s, b = mip.add_mixed_integer_linear_constraints(
        ret, x, y, "s", "b", "in", "eq", "out", gurobipy.GRB.BINARY)
    mip.setObjective([T(co), T(cx)], [y, x], 0., gurobipy.GRB.MAXIMIZE)
    mip.gurobi_model.optimize()
    c.require(mip.gurobi_model.status == gurobipy.GRB.Status.OPTIMAL,
              "no_optimum", "program over a bounded network is not optimal: "
              "%s" % mip.gurobi_model.status)
    val = mip.gurobi_model.ObjVal
    xs = np.array([v.x for v in x])

    def f(Q):
        return fwd(npn, Q) @ co + Q @ cx

    c.close(val, f(xs), "optimum_not_attained", "optimum against the network "
            "at the reported input", 1e-5)
    st = np.vstack((points(rng, lo, up, 80), np.clip(xs, lo, up)[None]))
    best, xb = local_max(f, lo, up, rng, st)
    c.require(best <= val + 1e-5 * (1 + abs(val)), "optimum_too_low",
              "the network reaches %r, the program %r" % (best, val),
              x=xb.tolist())
    c.close([v.x for v in y], fwd(npn, xs), "optimum_not_attained",
            "output variables at the reported input", 1e-5)
    c.ev(3)
    c.key(*desc, np.round(lo, 3), np.round(co, 3))


@chk.section(quick=200, thorough=800, floor=.9)
def units(c, rng, i):
    """compute_relu_unit_outputs_and_activation and shared-model semantics."""
    net, npn, lo, up, free, ret, blk, nu, nin, nout, desc = setup(
        c, rng, mu.PropagateBoundsMethod.IA)
    for rep in range(2):
        for x in points(rng, lo, up, 4):
            with torch.no_grad():
                z, be, o = free.compute_relu_unit_outputs_and_activation(T(x))
            y, pre = fwd(npn, x, trace=True)
            pre = np.concatenate(pre)
            c.require(tuple(z.shape) == (nu, 1) and
                      tuple(be.shape) == (nu, 1), "unit_shape",
                      "columns of shape %s %s" % (z.shape, be.shape))
            z, be = N(z)[:, 0], N(be)[:, 0]
            slopes = np.concatenate([np.full(len(b), s) for _, b, s in npn
                                     if s is not None])
            c.close(z, np.where(pre > 0, pre, slopes * pre), "unit_value",
                    "unit outputs", 1e-12)
            ok = np.abs(pre) > 1e-12
            c.require(np.array_equal(be[ok], (pre[ok] > 0) * 1.),
                      "unit_activation", "activations differ")
            c.close(np.asarray(o, float).reshape(-1), y, "unit_output",
                    "network output", 1e-12)
            if rep == 0:
                r = tie_residual(blk, x, z, be, pre)
                c.require(r < TOL * (1 + np.max(np.abs(z))),
                          "graph_excluded", "residual %g" % r)
            c.ev(3)
        if rep == 0:
            # the pattern refers to the model, later updates are seen
            with torch.no_grad():
                for p in net.parameters():
                    p.data = p.data + T(rng.normal(size=tuple(p.shape)) * .2)
            npn = net_np(net)
            ret = free.output_constraint(T(lo), T(up),
                                         mu.PropagateBoundsMethod.IA)
            blk = Blocks(ret, nx=nin, ns=nu, nb=nu)
            x = points(rng, lo, up, 1)[0]
            judge_point(c, x, npn, blk, nu, nout)
    c.key(*desc, np.round(lo, 3))


if __name__ == "__main__":
    chk.main()

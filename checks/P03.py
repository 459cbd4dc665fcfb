"""P03: bound propagation is sound, exact where promised."""
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import (T, N, DTYPE, relu_net, net_desc, net_np, fwd, box,  # noqa
                 points, aged)
import scipy.optimize  # noqa: E402
import neural_network_lyapunov.relu_to_optimization as rto  # noqa: E402
import neural_network_lyapunov.mip_utils as mu  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
from gurobipy import GRB  # noqa: E402

chk = Check("P03", rule="random layers (linear with/without bias, ReLU, leaky "
            "slopes from -0.5 to 2), boxes of every kind incl. zero-width, "
            "random polytopes bounded/unbounded/empty, networks of up to 6 "
            "units with each bound method; non-trivial: distinct data judged",
            assumptions=["networks: slopes in [0, 1)"])
M = mu.PropagateBoundsMethod
LP_OPT = {"primal_feasibility_tolerance": 1e-10,
          "dual_feasibility_tolerance": 1e-10}


def lp_ext(cv, C, d, lo, up):
    """
    (min, max) with the conventions (inf, -inf) empty, +-inf unbounded;
    None when emptiness or boundedness is too close to call.
    """
    n = len(cv)
    rows = [np.zeros((0, n))] if C is None else [C]
    rhs = [np.zeros(0)] if C is None else [d]
    C, d = np.vstack(rows), np.concatenate(rhs)
    bnd = [(None if not np.isfinite(a) else a,
            None if not np.isfinite(b) else b) for a, b in zip(lo, up)]
    if len(d):
        r = scipy.optimize.linprog(
            np.append(np.zeros(n), -1.), np.hstack((C, np.ones((len(d), 1)))),
            d, None, None, bnd + [(-1e3, 1.)], method="highs", options=LP_OPT)
        t = -r.fun if r.status == 0 else None
        if t is None:
            return None
        if t < -1e-7:
            return np.inf, -np.inf
        if t < 0:
            return None
    out = []
    rb = [(0. if np.isfinite(a) else -1., 0. if np.isfinite(b) else 1.)
          for a, b in zip(lo, up)]
    for s in (1., -1.):
        q = scipy.optimize.linprog(
            s * cv, C if len(d) else None, np.zeros(len(d)) if len(d) else
            None, None, None, rb, method="highs", options=LP_OPT)
        if q.status != 0 or -1e-5 < q.fun < -1e-10:
            return None
        if q.fun < -1e-5:
            out.append(-s * np.inf)
            continue
        r = scipy.optimize.linprog(
            s * cv, C if len(d) else None, d if len(d) else None, None, None,
            bnd, method="highs", options=LP_OPT)
        if r.status != 0:
            return None
        out.append(s * r.fun)
    return out[0], out[1]


def act(x, s):
    return np.where(x > 0, x, s * x)


def scalar_range(s, lo, up):
    v = np.stack((act(lo, s), act(up, s)))
    a, b = v.min(axis=0), v.max(axis=0)
    z = (lo < 0) & (up > 0)
    return np.where(z, np.minimum(a, 0), a), np.where(z, np.maximum(b, 0), b)


@chk.section(quick=800, thorough=4000, floor=.9)
def layer(c, rng, i):
    """propagate_bounds through one layer."""
    n = int(rng.integers(1, 5))
    lo, up = box(rng, n)
    if rng.random() < .2:  # exact zeros at either end
        j = int(rng.integers(n))
        if rng.random() < .5:
            lo[j], up[j] = 0., abs(up[j])
        else:
            lo[j], up[j] = -abs(lo[j]), 0.
    kind = int(rng.integers(3))
    tl, tu = T(lo), T(up)
    if kind == 0:
        lay, s = torch.nn.ReLU(), 0.
    elif kind == 1:
        s = float(rng.choice([-.5, -.1, -2., 0., .01, .3, 1., 2.]))
        lay = torch.nn.LeakyReLU(s)
    else:
        m = int(rng.integers(1, 4))
        lay = torch.nn.Linear(n, m, bias=bool(rng.random() < .6)).type(DTYPE)
        W = rng.normal(size=(m, n)) * (rng.random((m, n)) < .8)
        lay.weight.data = T(W)
        b = N(lay.bias) if lay.bias is not None else np.zeros(m)
    c.note(layer=str(lay), lo=lo.tolist(), up=up.tolist())
    a, z = mu.propagate_bounds(lay, tl, tu)
    a, z = N(a), N(z)
    c.require(np.array_equal(N(tl), lo) and np.array_equal(N(tu), up),
              "operands", "the input bounds were modified")
    if kind < 2:
        ra, rz = scalar_range(s, lo, up)
    else:
        ra = np.minimum(W * lo, W * up).sum(axis=1) + b
        rz = np.maximum(W * lo, W * up).sum(axis=1) + b
    c.close(a, ra, "layer_lower", "lower bound of " + str(lay), 1e-12)
    c.close(z, rz, "layer_upper", "upper bound of " + str(lay), 1e-12)
    X = points(rng, lo, up, 60)
    Y = act(X, s) if kind < 2 else X @ W.T + b
    c.require(np.all(Y >= a - 1e-9) and np.all(Y <= z + 1e-9),
              "layer_unsound", "a reachable value is outside the bounds")
    c.ev("samples", 60)
    c.key(str(lay), np.round(lo, 4).tolist(), np.round(up, 4).tolist())


@chk.section(quick=600, thorough=3000, floor=.9)
def interval(c, rng, i):
    """leaky_relu_interval for floats and tensors."""
    s = float(rng.choice([-2., -.5, -.1, 0., .01, .3, 1., 1.5]))
    lo = float(rng.choice([rng.normal(), 0., -1.]))
    up = lo + float(rng.choice([rng.uniform(.1, 3.), 1.]))
    if rng.random() < .2:
        lo, up = -up if up > 0 else lo, 0.
        if lo >= up:
            lo = -1.
    t = bool(rng.random() < .5)
    r = utils.leaky_relu_interval(s, T(lo) if t else lo, T(up) if t else up)
    c.require(len(r) == 2, "interval_shape", str(r))
    ra, rz = scalar_range(s, np.array([lo]), np.array([up]))
    c.close(float(r[0]), ra[0], "interval", "lower s=%g [%g,%g]" % (s, lo, up),
            1e-12)
    c.close(float(r[1]), rz[0], "interval", "upper s=%g [%g,%g]" % (s, lo, up),
            1e-12)
    c.ev("intervals")
    c.key(s, lo, up, t)


@chk.section(quick=400, thorough=2000, floor=.9)
def lp_range(c, rng, i):
    """compute_range_by_lp / by_IA against independent optimisation."""
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A = rng.normal(size=(m, n)) * (rng.random((m, n)) < .85)
    b = rng.normal(size=m)
    lo, up = box(rng, n, kind=int(rng.choice([0, 1, 2, 4, 5])))
    mode = int(rng.integers(6))
    C = d = None
    if mode:
        k = int(rng.integers(1, 5))
        C = rng.normal(size=(k, n))
        x0 = points(rng, lo, up, 1)[0]
        d = C @ x0 + rng.uniform(0., 1.5, size=k) * (rng.random(k) < .8)
    lo2, up2 = lo.copy(), up.copy()
    if mode == 2:
        lo2[int(rng.integers(n))] = -np.inf
    if mode == 3:
        up2[int(rng.integers(n))] = np.inf
    if mode == 4:  # empty: one row contradicts another
        v = rng.normal(size=n)
        C = np.vstack((C, v, -v))
        e = float(rng.normal())
        d = np.concatenate((d, [e, -e - rng.uniform(.05, 1.)]))
    al = None if mode == 5 and rng.random() < .7 else lo2
    au = None if mode == 5 and rng.random() < .7 else up2
    fl = np.full(n, -np.inf) if al is None else lo2
    fu = np.full(n, np.inf) if au is None else up2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gl, gu = mu.compute_range_by_lp(A, b, al, au, C, d)
    for k in range(m):
        e = lp_ext(A[k], C, d, fl, fu)
        if e is None:
            raise Skip("too close to call")
        rl, ru = e
        for g, r, nm in ((gl[k], rl + b[k], "lower"),
                         (gu[k], ru + b[k], "upper")):
            if np.isinf(r) or np.isinf(g):
                c.require(g == r, "lp_infinite", "%s bound %r, true %r" %
                          (nm, g, r), mode=mode)
            else:
                c.close(g, r, "lp_value", nm + " bound", 1e-7, mode=mode)
        c.ev("lp_rows")
    tl, tu = mu.compute_range_by_IA(T(A), T(b), T(lo), T(up))
    c.close(N(tl), np.minimum(A * lo, A * up).sum(axis=1) + b, "ia_value",
            "interval arithmetic, lower", 1e-12)
    c.close(N(tu), np.maximum(A * lo, A * up).sum(axis=1) + b, "ia_value",
            "interval arithmetic, upper", 1e-12)
    c.key(mode, np.round(A, 3).tolist(), np.round(lo, 3).tolist())


@chk.section(quick=300, thorough=1500, floor=.9)
def ia_gradient(c, rng, i):
    """The interval bounds carry the gradient of the bounds."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    A = rng.normal(size=(m, n))
    lo, up = box(rng, n, kind=0)
    tA, tb = T(A).requires_grad_(), T(rng.normal(size=m)).requires_grad_()
    tl, tu = T(lo).requires_grad_(), T(up).requires_grad_()
    L, U = mu.compute_range_by_IA(tA, tb, tl, tu)
    wl, wu = rng.normal(size=m), rng.normal(size=m)
    (L @ T(wl) + U @ T(wu)).backward()
    pos = A > 0
    c.close(N(tA.grad), np.where(pos, np.outer(wl, lo) + np.outer(wu, up),
                                 np.outer(wl, up) + np.outer(wu, lo)),
            "ia_gradient", "d/dA", 1e-10)
    c.close(N(tb.grad), wl + wu, "ia_gradient", "d/db", 1e-10)
    c.close(N(tl.grad), np.where(pos, wl[:, None] * A,
                                 wu[:, None] * A).sum(axis=0),
            "ia_gradient", "d/dlo", 1e-10)
    c.close(N(tu.grad), np.where(pos, wu[:, None] * A,
                                 wl[:, None] * A).sum(axis=0),
            "ia_gradient", "d/dup", 1e-10)
    c.ev("gradients", 4)
    c.key(np.round(A, 3).tolist())


@chk.section(quick=300, thorough=1500, floor=.9)
def polytope(c, rng, i):
    """compute_bounds_from_polytope."""
    n = int(rng.integers(1, 4))
    k = int(rng.integers(1, 7))
    P = rng.normal(size=(k, n))
    q = rng.normal(size=k) * .5 + (.8 if rng.random() < .8 else -.5)
    if rng.random() < .5:
        P = np.vstack((P, np.eye(n), -np.eye(n)))
        q = np.concatenate((q, np.ones(2 * n) * 2.))
    j = int(rng.integers(n))
    t = bool(rng.random() < .5)
    a, b = utils.compute_bounds_from_polytope(T(P) if t else P,
                                              T(q) if t else q, j)
    e = np.zeros(n)
    e[j] = 1.
    e = lp_ext(e, P, q, np.full(n, -np.inf), np.full(n, np.inf))
    if e is None:
        raise Skip("too close to call")
    ra, rb = e
    for g, r in ((a, ra), (b, rb)):
        if np.isinf(r) or np.isinf(g):
            c.require(g == r, "polytope_infinite", "bounds (%r, %r), true "
                      "(%r, %r)" % (a, b, ra, rb))
        else:
            c.close(g, r, "polytope_value", "bound of x[%d]" % j, 1e-7)
    c.ev("empty" if ra > rb else "unbounded" if np.isinf(ra) or np.isinf(rb)
         else "bounded")
    c.key(np.round(P, 3).tolist(), j)


def true_ranges(npn, lo, up, C0=None, d0=None):
    """Exact range of every unit input and output: pattern enumeration."""
    us = [len(b) for _, b, s in npn if s is not None]
    nu, n = sum(us), len(lo)
    nout = len(npn[-1][1])
    pl, pu = np.full(nu, np.inf), np.full(nu, -np.inf)
    ol, ou = np.full(nout, np.inf), np.full(nout, -np.inf)

    def ext(v, h, C, d):
        e = lp_ext(v, np.array(C) if C else None,
                   np.array(d) if d else None, lo, up)
        if e is None:
            return None
        a, b = e
        return (None if a > b else (a + h, b + h))

    def rec(k, A, h, C, d, base):
        W, b, s = npn[k]
        A, h = W @ A, W @ h + b
        if s is None:
            for j in range(nout):
                r = ext(A[j], h[j], C, d)
                if r is not None:
                    ol[j], ou[j] = min(ol[j], r[0]), max(ou[j], r[1])
            return
        rs = []
        for j in range(len(b)):
            r = ext(A[j], h[j], C, d)
            if r is None:
                return
            rs.append(r)
            pl[base + j] = min(pl[base + j], r[0])
            pu[base + j] = max(pu[base + j], r[1])
        opts = [((1., ) if r[0] >= 0 else (s, ) if r[1] <= 0 else (1., s))
                for r in rs]
        for o in itertools.product(*opts):
            C2, d2 = list(C), list(d)
            for j, v in enumerate(o):
                if len(opts[j]) == 2:
                    g = 1. if v == s else -1.
                    C2.append(g * A[j])
                    d2.append(-g * h[j])
            if len(C2) > len(C):
                f = lp_ext(np.zeros(n), np.array(C2), np.array(d2), lo, up)
                if f[0] > f[1]:
                    continue
            D = np.array(o)
            rec(k + 1, D[:, None] * A, D * h, C2, d2, base + len(b))

    rec(0, np.eye(n), np.zeros(n), [] if C0 is None else list(C0),
        [] if d0 is None else list(d0), 0)
    return pl, pu, ol, ou


def act_units(v, npn):
    """Every unit's activation, with its own layer's slope."""
    out, k = [], 0
    for _, b, s in npn:
        if s is not None:
            out.append(act(v[k:k + len(b)], s))
            k += len(b)
    return np.concatenate(out)


@chk.section(quick=120, thorough=600, floor=.8, timeout=600)
def network(c, rng, i):
    """Layer and output bounds of every method against the exact ranges."""
    nin, nout = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    while True:
        net = relu_net(rng, nin, nout, slope=float(rng.choice(
            [0., .1, .3])))
        npn = net_np(net)
        us = [len(b) for _, b, s in npn if s is not None]
        if sum(us) <= 6:
            break
    lo, up = box(rng, nin)
    c.note(net=net_desc(net), lo=lo.tolist(), up=up.tolist())
    pl, pu, ol, ou = true_ranges(npn, lo, up)
    free = rto.ReLUFreePattern(net, DTYPE)
    aged(net, lambda: [free.output_constraint(T(lo), T(up), m)
                       for m in (M.IA, M.LP, M.MIP, M.IA_MIP)],
         lo.sum() + 7 * up.sum())
    tol = 1e-6 * (1 + np.max(np.abs(np.concatenate((pl, pu, ol, ou)))))
    got = {}
    for m in (M.IA, M.LP, M.MIP, M.IA_MIP):
        r = free.output_constraint(T(lo), T(up), m)
        got[m] = [N(v) for v in (r.relu_input_lo, r.relu_input_up,
                                 r.nn_output_lo, r.nn_output_up)]
        g = got[m]
        c.require(np.all(g[0] <= pl + tol) and np.all(g[1] >= pu - tol),
                  "unit_bound_unsound", "%s: unit bounds %s %s, true %s %s" %
                  (m.name, g[0], g[1], pl, pu))
        c.require(np.all(g[2] <= ol + tol) and np.all(g[3] >= ou - tol),
                  "output_bound_unsound", "%s: output bounds %s %s, true %s "
                  "%s" % (m.name, g[2], g[3], ol, ou))
        c.close(N(r.relu_output_lo), act_units(g[0], npn), "post_bound",
                m.name + " lower bound after the unit", 1e-9)
        c.close(N(r.relu_output_up), act_units(g[1], npn), "post_bound",
                m.name + " upper bound after the unit", 1e-9)
        c.ev("bounds", 2 * len(pl) + 2 * nout)
    g = got[M.MIP]
    for a, b, nm in ((g[0], pl, "unit lower"), (g[1], pu, "unit upper"),
                     (g[2], ol, "output lower"), (g[3], ou, "output upper")):
        c.close(a, b, "mip_exact", "MIP bound, " + nm, 2e-6)
    # first layer: every method is exact; tighter methods are tighter
    n0 = us[0]
    for m in (M.IA, M.LP):
        c.close(got[m][0][:n0], pl[:n0], "first_layer_exact", m.name, 2e-6)
        c.close(got[m][1][:n0], pu[:n0], "first_layer_exact", m.name, 2e-6)
    for m, w in ((M.LP, M.IA), (M.MIP, M.LP), (M.IA_MIP, M.IA)):
        # IA_MIP deliberately gives up about 1% of the MIP bound
        tl = tol if m != M.IA_MIP else .1 * (1 + max(
            np.max(np.abs(v)) for v in got[w]))
        c.require(np.all(got[m][0] >= got[w][0] - tl) and
                  np.all(got[m][1] <= got[w][1] + tl) and
                  np.all(got[m][2] >= got[w][2] - tl) and
                  np.all(got[m][3] <= got[w][3] + tl), "not_tighter",
                  "%s bounds are looser than %s" % (m.name, w.name))
    # interval arithmetic is exact per layer given the previous bounds
    a, b = lo, up
    k = 0
    for W, bb, s in npn:
        ra = np.minimum(W * a, W * b).sum(axis=1) + bb
        rb = np.maximum(W * a, W * b).sum(axis=1) + bb
        g = got[M.IA]
        ga, gb = (g[2], g[3]) if s is None else (g[0][k:k + len(bb)],
                                                 g[1][k:k + len(bb)])
        c.close(ga, ra, "ia_layer", "IA lower", 1e-10)
        c.close(gb, rb, "ia_layer", "IA upper", 1e-10)
        if s is not None:
            k += len(bb)
            a, b = act(ra, s), act(rb, s)
    c.key(net_desc(net), np.round(lo, 3).tolist(), np.round(pl, 3).tolist())


@chk.section(quick=60, thorough=600, floor=.6, timeout=600)
def restricted(c, rng, i):
    """Bounds of inputs further restricted by the caller's constraints."""
    nin, nout = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    while True:
        net = relu_net(rng, nin, nout, slope=float(rng.choice([0., .2])))
        npn = net_np(net)
        if sum(len(b) for _, b, s in npn if s is not None) <= 6:
            break
    free = rto.ReLUFreePattern(net, DTYPE)
    if not (hasattr(free, "_compute_layer_bound") and
            hasattr(free, "_compute_network_output_bounds")):
        raise Skip("no restricted bounds")
    lo, up = box(rng, nin)
    k = int(rng.integers(1, 3))
    C = rng.normal(size=(k, nin))
    x0 = rng.uniform(lo, up)
    d = C @ x0 + rng.uniform(.02, .3, k) * (np.abs(C) @ (up - lo))
    # the caller's own variables may be looser, equal or tighter
    vlo = np.where(rng.random(nin) < .5, -np.inf, lo - .3)
    vup = np.where(rng.random(nin) < .5, np.inf, up + .3)
    made = []

    def callback():
        prog = gtm.GurobiTorchMILP(DTYPE)
        x = prog.addVars(nin, lb=T(vlo), ub=T(vup))
        prog.addMConstr([T(C)], [x], b=T(d), sense=GRB.LESS_EQUAL)
        made.append(prog)
        return prog, x
    pl, pu, ol, ou = true_ranges(npn, lo, up, C, d)
    c.note(net=net_desc(net), lo=lo.tolist(), up=up.tolist(), C=C.tolist(),
           d=d.tolist())
    tol = 1e-6 * (1 + np.max(np.abs(np.concatenate((pl, pu, ol, ou)))))
    for m in (M.LP, M.MIP):
        r = free._compute_layer_bound(T(lo), T(up), m,
                                      create_prog_callback=callback)
        o = free._compute_network_output_bounds(
            r[0], r[1], T(lo), T(up), m, create_prog_callback=callback)
        g = [N(v) for v in (r[0], r[1], o[0], o[1])]
        c.require(np.all(g[0] <= pl + tol) and np.all(g[1] >= pu - tol) and
                  np.all(g[2] <= ol + tol) and np.all(g[3] >= ou - tol),
                  "restricted_unsound", "%s: %s %s %s %s, true %s %s %s %s" %
                  (m.name, *g, pl, pu, ol, ou))
        if m == M.MIP:
            for a, b in zip(g, (pl, pu, ol, ou)):
                c.close(a, b, "mip_exact", "MIP bound, restricted", 2e-6)
        n0 = len(npn[0][1])
        c.close(g[0][:n0], pl[:n0], "first_layer_exact", m.name, 2e-6)
        c.close(g[1][:n0], pu[:n0], "first_layer_exact", m.name, 2e-6)
    c.require(len(made) > 0, "callback_unused", "the constraints were read")
    c.ev("restricted", len(made))
    c.key(net_desc(net), np.round(lo, 3).tolist(), np.round(C, 3).tolist())


if __name__ == "__main__":
    chk.main()

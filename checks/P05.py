"""P05: strengthening cuts never exclude a true point and do tighten."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, DTYPE, relu_net, net_desc, net_np, fwd, box, points  # noqa
import sysgen  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.mip_utils as mu  # noqa: E402
import neural_network_lyapunov.relu_to_optimization as rto  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402

chk = Check("P05", rule="random units y=max(c(wx+b),wx+b) with 1-6 inputs "
            "(signed, zero and integer weights, slopes 0..0.9) over boxes of "
            "all kinds, all index sets; relaxed points inside and outside the "
            "hull; networks of 1-3 layers with their bounds from the 4 "
            "methods; Lyapunov decrease programs of 9 system kinds; "
            "non-trivial: distinct (unit, set, point) or (network, point) "
            "judged", assumptions=[
                "the optimum of a program is the one reported by the solver "
                "stand-in (HiGHS, feasibility tolerance 1e-9)"])
GRB = gurobipy.GRB
METHODS = list(mu.PropagateBoundsMethod)


def unit(rng, nmax=5):
    n = int(rng.integers(1, nmax + 1))
    w = rng.normal(size=n)
    k = int(rng.integers(4))
    if k == 1:
        w = rng.integers(-2, 3, n).astype(float)
    elif k == 2:
        w = w * (rng.random(n) < .6)
    lo, up = box(rng, n)
    c = float(rng.choice([0., .1, .3, .9]))
    b = float(rng.normal())
    return n, w, b, c, lo, up


def crossing(rng, nmax=5):
    """A unit whose input takes both signs over the box."""
    while True:
        n, w, b, c, lo, up = unit(rng, nmax)
        a = np.sum(np.minimum(w * lo, w * up))
        d = np.sum(np.maximum(w * lo, w * up))
        if d - a < 1e-2:
            continue
        b = -(a + rng.uniform(.05, .95) * (d - a))
        if rng.random() < .2:
            b = round(b, 1)
        if a + b < -1e-3 and d + b > 1e-3:
            return n, w, b, c, lo, up, a + b, d + b


def family_rhs(w, b, c, lo, up, ind, X, beta):
    """The documented right-hand side, term by term."""
    L = np.where(w >= 0, lo, up)
    U = np.where(w >= 0, up, lo)
    r = b * c + b * (1 - c) * beta
    for i in range(len(w)):
        if i in ind:
            r = r + w[i] * X[..., i] - (1 - c) * (1 - beta) * w[i] * L[i]
        else:
            r = r + c * w[i] * X[..., i] + (1 - c) * beta * w[i] * U[i]
    return r


def hull_top(w, b, c, lo, up, x, beta):
    """max y over the hull of the graph at (x, beta): disjunctive program."""
    r = b * c + b * (1 - c) * beta
    for i in range(len(w)):
        a = max(beta * lo[i], x[i] - (1 - beta) * up[i])
        d = min(beta * up[i], x[i] - (1 - beta) * lo[i])
        r += c * w[i] * x[i] + (1 - c) * max(w[i] * a, w[i] * d)
    return r


def t0(v):
    return torch.tensor(float(v), dtype=DTYPE)


def powerset(n):
    return [set(s) for s in itertools.chain.from_iterable(
        itertools.combinations(range(n), r) for r in range(n + 1))]


@chk.section(quick=300, thorough=6000)
def unit_cuts(c, rng, i):
    n, w, b, s, lo, up = unit(rng)
    X = points(rng, lo, up, 40)
    pre = X @ w + b
    y = np.maximum(pre, s * pre)
    sets = powerset(n)
    if len(sets) > 12:
        sets = [sets[k] for k in rng.permutation(len(sets))[:12]]
    for ind in sets:
        tw, tlo, tup = T(w), T(lo), T(up)
        xc, bc, const = mu.strengthen_relu_mip_w_indices(
            s, tw, t0(b), tlo, tup, set(ind))
        c.require(np.array_equal(N(tw), w) and np.array_equal(N(tlo), lo) and
                  np.array_equal(N(tup), up), "operands", "arguments changed")
        xc, bc, const = N(xc), float(bc), float(const)
        c.require(xc.shape == (n, ), "shape", "x_coeff", shape=xc.shape)
        for beta in (0., 1.):
            m = pre >= 0 if beta else pre <= 0
            rhs = X[m] @ xc + bc * beta + const
            c.require(np.all(y[m] <= rhs + 1e-9 * (1 + np.abs(rhs))),
                      "cut_excludes", "true point excluded", w=w, b=b, c=s,
                      lo=lo, up=up, ind=sorted(ind), beta=beta)
        beta = rng.random(len(X))
        c.close(X @ xc + bc * beta + const,
                family_rhs(w, b, s, lo, up, ind, X, beta), "cut_formula",
                "documented right-hand side", 1e-9)
        c.key("unit", w, b, s, sorted(ind))


@chk.section(quick=400, thorough=6000)
def most_violated(c, rng, i):
    n, w, b, s, lo, up = unit(rng, 6)
    x = points(rng, lo, up, 3)[int(rng.integers(3))]
    if i % 5 == 4:
        x = x + rng.normal(size=n)
    beta = float(rng.choice([0., 1., rng.random(), rng.random()]))
    ind = mu.find_index_set_to_strengthen(T(w), T(lo), T(up), T(x), t0(beta))
    c.require(isinstance(ind, set) and ind <= set(range(n)), "index_set",
              "a subset of the inputs", ind=str(ind))
    mine = family_rhs(w, b, s, lo, up, ind, x, beta)
    best = min(family_rhs(w, b, s, lo, up, d, x, beta) for d in powerset(n))
    c.close(mine, best, "not_most_violated", "right-hand side of the chosen "
            "set against the minimum over all sets", 1e-9, w=w, lo=lo, up=up,
            x=x, beta=beta, c=s, ind=sorted(ind))
    if i % 5 != 4:
        feas = np.all((np.maximum(beta * lo, x - (1 - beta) * up) <=
                       np.minimum(beta * up, x - (1 - beta) * lo) + 1e-12))
        if feas:
            c.close(mine, hull_top(w, b, s, lo, up, x, beta), "hull",
                    "best cut against the hull of the graph", 1e-9)
    c.key("best", w, x, beta)
    # several points at once: exactly the violated cuts
    K = int(rng.integers(1, 5))
    P = points(rng, lo, up, 2 * K)[rng.permutation(2 * K)[:K]]
    B = rng.random(K)
    Y = np.array([min(family_rhs(w, b, s, lo, up, d, P[k], B[k])
                      for d in powerset(n)) for k in range(K)])
    off = rng.choice([-.3, .2], K)
    xc, bc, cn = mu.strengthen_relu_mip_given_pts(
        s, T(w), t0(b), T(lo), T(up), [T(p) for p in P],
        [t0(v) for v in Y + off], [t0(v) for v in B])
    want = [k for k in range(K) if off[k] > 0]
    if not want:
        c.require(xc is None and bc is None and cn is None, "given_pts",
                  "no violated point, no cut")
        return
    c.require(xc is not None and xc.shape == (len(want), n) and
              bc.shape == (len(want), ) and cn.shape == (len(want), ),
              "given_pts", "one cut per violated point", want=len(want),
              got=None if xc is None else list(xc.shape))
    for r, k in enumerate(want):
        c.close(N(xc)[r] @ P[k] + N(bc)[r] * B[k] + N(cn)[r], Y[k],
                "given_pts_cut", "most violated cut at the point", 1e-9)


@chk.section(quick=200, thorough=2500)
def whole_unit(c, rng, i):
    n, w, b, s, lo, up, a, d = crossing(rng, 4)
    selective = bool(i % 2)
    rlo, rup = a, d
    tight = selective and rng.random() < .4
    if tight:
        rlo, rup = a * rng.uniform(.3, 1), d * rng.uniform(.3, 1)
    else:
        tl, tu = mu.compute_range_by_IA(T(w)[None], t0(b)[None], T(lo), T(up))
        rlo, rup = float(tl[0]), float(tu[0])
    xc, bc, cn = mu.strengthen_relu_mip(s, T(w), t0(b), T(lo), T(up),
                                        t0(rlo), t0(rup), selective)
    xc, bc, cn = N(xc), N(bc), N(cn)
    c.require(xc.ndim == 2 and xc.shape[1] == n and
              bc.shape == cn.shape == (len(xc), ), "shape", "shapes",
              got=[xc.shape, bc.shape, cn.shape])
    X = points(rng, lo, up, 60)
    pre = X @ w + b
    m = (pre >= rlo) & (pre <= rup)
    X, pre = X[m], pre[m]
    y = np.maximum(pre, s * pre)
    for beta in (0., 1.):
        k = pre >= 0 if beta else pre <= 0
        rhs = X[k] @ xc.T + bc * beta + cn
        c.require(np.all(y[k][:, None] <= rhs + 1e-9 * (1 + np.abs(rhs))),
                  "cut_excludes", "true point excluded", w=w, b=b, c=s, lo=lo,
                  up=up, beta=beta, selective=selective)
    c.key("whole", w, b, selective, tight)
    # right-hand sides at relaxed points
    P = points(rng, lo, up, 40)
    B = rng.random(40)
    fam = np.array([family_rhs(w, b, s, lo, up, d, P, B) for d in
                    powerset(n)])
    for r in range(len(xc)):
        v = P @ xc[r] + bc[r] * B + cn[r]
        c.require(np.min(np.max(np.abs(fam - v), axis=1)) <
                  1e-9 * (1 + np.abs(v).max()), "not_in_family",
                  "a cut outside the ideal formulation", cut=xc[r])
    if selective:
        rows = np.hstack((xc, bc[:, None], cn[:, None]))
        base = np.array([np.append(s * w, [(1 - s) * rup, s * b]),
                         np.append(w, [(1 - s) * rlo, b - (1 - s) * rlo])])
        for r in range(len(rows)):
            e = np.vstack((base, rows[:r]))
            c.require(np.min(np.max(np.abs(e - rows[r]), axis=1)) > 1e-9,
                      "useless_cut", "a cut that repeats a constraint")
        if len(xc) == 0:
            # nothing was worth adding: at no admissible corner, with beta
            # at an end of its range, does any cut of the family improve
            V = np.array(list(itertools.product(*zip(lo, up))))
            V = V[(V @ w + b >= rlo + 1e-9) & (V @ w + b <= rup - 1e-9)]
            for v in V:
                pre_v = w @ v + b
                yv = max(pre_v, s * pre_v)
                top = base[:, :n] @ v + base[:, n + 1]
                ends = [0., 1.] + [
                    (yv - t) / g for t, g in zip(top, base[:, n]) if g]
                lo_b = max([0.] + [(yv - t) / g for t, g in
                                   zip(top, base[:, n]) if g > 0])
                up_b = min([1.] + [(yv - t) / g for t, g in
                                   zip(top, base[:, n]) if g < 0])
                for be in ends:
                    if not lo_b - 1e-12 <= be <= up_b + 1e-12 or \
                            min(abs(be - lo_b), abs(be - up_b)) > 1e-12:
                        continue
                    old = np.min(top + base[:, n] * be)
                    new = min(family_rhs(w, b, s, lo, up, d2, v[None],
                                         np.array([be]))[0]
                              for d2 in powerset(n))
                    c.require(new >= old - 1e-5 * (1 + abs(old)),
                              "cut_missing", "no cut was chosen although one "
                              "tightens the relaxation", w=w, b=b, c=s, lo=lo,
                              up=up, x=v, beta=be, old=old, new=new)
            c.ev("no_cut")
        return
    c.require(len(xc) == 2**n - 2, "count", "2^n-2 cuts", n=n, got=len(xc))
    ex = np.vstack((P @ xc.T + B[:, None] * bc + cn).T) if len(xc) else \
        np.zeros((0, 40))
    full = np.vstack((ex, c_rows(w, b, s, rlo, rup, P, B)))
    best = np.array([hull_top(w, b, s, lo, up, P[k], B[k])
                     for k in range(40)])
    feas = np.all(np.maximum(B[:, None] * lo, P - (1 - B[:, None]) * up) <=
                  np.minimum(B[:, None] * up, P - (1 - B[:, None]) * lo) +
                  1e-12, axis=1)
    c.close(full.min(axis=0)[feas], best[feas], "not_ideal",
            "all cuts with the big-M rows give the hull", 1e-8)
    c.ev("hull_points", int(feas.sum()))


def c_rows(w, b, s, rlo, rup, P, B):
    pre = P @ w + b
    return np.vstack((s * pre + (1 - s) * rup * B,
                      pre - (1 - s) * rlo * (1 - B)))


def trace(npn, x):
    z, post, act, pre = x, [], [], []
    for W, b, s in npn:
        z = W @ z + b
        if s is not None:
            pre.append(z)
            act.append((z > 0).astype(float))
            z = np.where(z > 0, z, s * z)
            post.append(z)
    return np.concatenate(post), np.concatenate(act), np.concatenate(pre)


def network(rng, maxunits=8, nout=None):
    nin = int(rng.integers(1, 4))
    while True:
        net = relu_net(rng, nin, int(rng.integers(1, 3)) if nout is None
                       else nout)
        npn = net_np(net)
        nu = sum(len(b) for _, b, s in npn if s is not None)
        if nu <= maxunits:
            break
    lo, up = box(rng, nin)
    method = METHODS[int(rng.integers(4))]
    return net, npn, nu, nin, lo, up, method


def unit_rhs(npn, lin, lo, up, act):
    """Per unit: value, best cut right-hand side at the relaxed point."""
    res = []
    p = 0
    q = 0
    nin = npn[0][0].shape[1]
    k = 0
    for W, b, s in npn:
        if s is None:
            break
        sl = slice(p, p + W.shape[1])
        p += W.shape[1]
        for j in range(len(b)):
            r = min(family_rhs(W[j], b[j], s, lo[sl], up[sl], d, lin[sl],
                               act[k]) for d in powerset(W.shape[1]))
            res.append((lin[nin + k], r))
            k += 1
    return res


@chk.section(quick=160, thorough=2500)
def network_cuts(c, rng, i):
    net, npn, nu, nin, lo, up, method = network(rng)
    free = rto.ReLUFreePattern(net, DTYPE)
    ret = free.output_constraint(T(lo), T(up), method)
    llo = np.concatenate((lo, N(ret.relu_output_lo)))
    lup = np.concatenate((up, N(ret.relu_output_up)))
    X = points(rng, lo, up, 16)
    true = [trace(npn, x) for x in X]
    for rep in range(4):
        x0 = points(rng, lo, up, 4)[rep]
        s0 = np.array([rng.uniform(a, max(a, b)) for a, b in
                       zip(llo[nin:], lup[nin:])])
        b0 = rng.random(nu) if rep else (rng.random(nu) < .5).astype(float)
        if rep == 3:  # a true point: nothing is violated
            s0, b0, _ = trace(npn, x0)
        lin = np.concatenate((x0, s0))
        Ax, As, Ab, rhs = free.strengthen_mip_at_point(
            (T(lin), T(b0)), T(llo), T(lup))
        want = unit_rhs(npn, lin, llo, lup, b0)
        nviol = sum(y > r + 1e-9 for y, r in want)
        nmay = sum(y > r - 1e-9 for y, r in want)
        got = 0 if Ax is None else len(N(rhs))
        if rep == 3:
            c.require(nviol == 0, "oracle", "a true point is cut off by the "
                      "family")
        c.require(nviol <= got <= nmay, "cut_count",
                  "one cut per violated unit", want=nviol, got=got,
                  net=net_desc(net))
        c.key("net", net_desc(net), method.name, lin, b0)
        if got == 0:
            c.require(Ax is None and As is None and Ab is None and rhs is None,
                      "cut_none", "None without violated unit")
            continue
        Ax, As, Ab, rhs = N(Ax), N(As), N(Ab), N(rhs)
        c.require(Ax.shape == (got, nin) and As.shape == (got, nu) and
                  Ab.shape == (got, nu) and rhs.shape == (got, ), "cut_shape",
                  "shapes")
        ex = Ax @ x0 + As @ s0 + Ab @ b0 - rhs
        c.require(np.all(ex > -1e-9), "cut_not_violated",
                  "a cut the point satisfies", ex=ex)
        if got == nviol == nmay:
            c.close(np.sort(ex), np.sort([y - r for y, r in want if
                                          y > r + 1e-9]), "cut_violation",
                    "violation of the cuts against the most violated ones of "
                    "each unit", 1e-8)
        c.ev("cuts", got)
        for x, (post, act, pre) in zip(X, true):
            tie = [k for k in range(nu) if abs(pre[k]) < 1e-9][:8]
            for d in itertools.product((0., 1.), repeat=len(tie)):
                a = act.copy()
                a[tie] = d
                v = Ax @ x + As @ post + Ab @ a - rhs
                c.require(np.all(v < 1e-8 * (1 + np.abs(post).max())),
                          "cut_excludes", "true point excluded",
                          net=net_desc(net), method=method.name, x=x, v=v)


def solve(m, what, c):
    m.setParam(GRB.Param.OutputFlag, False)
    m.setParam(GRB.Param.DualReductions, 0)
    m.optimize()
    if m.status == GRB.Status.OPTIMAL:
        return m.ObjVal
    if m.status == GRB.Status.INFEASIBLE:
        return None
    raise gurobipy.SolverInconclusive("%s: status %s" % (what, m.status))


@chk.section(quick=120, thorough=1200)
def cutting_loop(c, rng, i):
    """The documented relax - solve - cut loop on a network program."""
    net, npn, nu, nin, lo, up, method = network(rng, 7, 1)
    free = rto.ReLUFreePattern(net, DTYPE)
    ret = free.output_constraint(T(lo), T(up), method)

    def build(vt):
        m = gtm.GurobiTorchMILP(DTYPE)
        x = m.addVars(nin, lb=-GRB.INFINITY, name="x")
        z, b = m.add_mixed_integer_linear_constraints(
            ret, x, None, "z", "b", "in", "eq", "", vt)
        m.setObjective([ret.Aout_slack.reshape(-1), obj], [z, x],
                       float(ret.Cout), GRB.MAXIMIZE)
        return m, x, z, b

    obj = T(rng.normal(size=nin) * float(rng.choice([0., 1.])))
    m, x, z, b = build(GRB.BINARY)
    opt = solve(m.gurobi_model, "milp", c)
    c.require(opt is not None, "infeasible", "network program infeasible")
    m, x, z, b = build(gtm.BINARYRELAX)
    last = np.inf
    cuts = 0
    for k in range(4):
        v = solve(m.gurobi_model, "relaxation", c)
        c.require(v is not None, "relaxation_infeasible", "cut off everything")
        tol = 1e-6 * (1 + abs(opt))
        c.require(v <= last + tol and v >= opt - tol, "relaxation_bound",
                  "relaxation value outside [optimum, previous value]", v=v,
                  last=last, opt=opt)
        last = v
        n0 = m.gurobi_model.NumConstrs
        pt = np.array([a.x for a in x] + [a.x for a in z])
        bb = np.array([a.x for a in b])
        llo = np.concatenate((lo, N(ret.relu_output_lo)))
        lup = np.concatenate((up, N(ret.relu_output_up)))
        want = unit_rhs(npn, pt, llo, lup, bb)
        nv = sum(y > r + 1e-9 for y, r in want)
        nm = sum(y > r - 1e-9 for y, r in want)
        free.strengthen_relu_mip_at_solution(m, x, z, b, ret)
        m.gurobi_model.update()
        d = m.gurobi_model.NumConstrs - n0
        c.require(nv <= d <= nm, "loop_cuts", "number of cuts added", got=d,
                  want=nv)
        cuts += d
        if d == 0:
            break
    m.remove_binary_relaxation()
    v = solve(m.gurobi_model, "restored milp", c)
    c.require(v is not None and abs(v - opt) < 1e-6 * (1 + abs(opt)),
              "optimum_changed", "integer optimum with cuts", v=v, opt=opt,
              net=net_desc(net), method=method.name)
    c.ev("loop_cuts", cuts)
    c.key("loop", net_desc(net), method.name, lo, round(opt, 6))


EPS = list(lyapunov.ConvergenceEps)


@chk.section(quick=72, thorough=600, floor=.4)
def lyapunov_program(c, rng, i):
    """Strengthened Lyapunov decrease programs keep their optimum."""
    s = sysgen.any_system(rng, i, maxunits=6)
    L = sysgen.Lyap(rng, s.n, s.eq, maxunits=4)
    dut = lyapunov.LyapunovDiscreteTimeHybridSystem(s.repo, L.net)
    dut.network_bound_propagate_method = METHODS[int(rng.integers(4))]
    et = EPS[int(rng.integers(3))]
    eps = float(rng.choice([0., .1, .5]))
    args = (T(s.eq), L.lam, eps, et)
    r0 = dut.lyapunov_derivative_as_milp(*args, R=L.R)
    v0 = solve(r0.milp.gurobi_model, "plain", c)
    if v0 is None:
        raise Skip("no state with a successor in the box")
    npts = int(rng.integers(1, 4))
    r1 = dut.strengthen_lyapunov_derivative_as_milp(*args, npts, R=L.R)
    n0, n1 = r0.milp.gurobi_model.NumConstrs, r1.milp.gurobi_model.NumConstrs
    v1 = solve(r1.milp.gurobi_model, "strengthened", c)
    tol = 2e-6 * (1 + abs(v0))
    c.require(v1 is not None and abs(v1 - v0) < tol, "optimum_changed",
              "optimum of the strengthened decrease program", v=v1, opt=v0,
              system=str(s.desc), eps_type=str(et))
    c.require(n1 >= n0, "rows", "rows lost", n0=n0, n1=n1)
    c.ev("lyapunov_cuts", n1 - n0)
    # binary strengthening keeps every state with a non-negative objective
    r2 = dut.lyapunov_derivative_as_milp(*args, R=L.R)
    nb = r2.milp.gurobi_model.NumConstrs
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        dut.strengthen_lyapunov_derivative_milp_binary(r2)
    r2.milp.gurobi_model.update()
    added = r2.milp.gurobi_model.NumConstrs - nb
    c.require(added >= 0, "rows", "rows lost by the binary strengthening")
    c.ev("binary_cuts", added)
    v2 = solve(r2.milp.gurobi_model, "binary", c)
    if v0 > 1e-6:
        c.require(v2 is not None and abs(v2 - v0) < tol, "optimum_changed",
                  "optimum after binary strengthening", v=v2, opt=v0,
                  system=str(s.desc), eps_type=str(et))
    else:
        c.require(v2 is None or v2 <= v0 + tol, "optimum_changed",
                  "optimum after binary strengthening grew", v=v2, opt=v0)
    c.key("lyap", s.desc, L.desc, str(et), eps, round(v0, 6))
    c.note(system=str(s.desc), lyapunov=str(L.desc), eps_type=str(et),
           optimum=v0, cuts=n1 - n0, binary_cuts=added)


if __name__ == "__main__":
    chk.main()

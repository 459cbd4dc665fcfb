"""P04: scalar building-block encodings are exact over their whole domain."""
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, DTYPE, box, points  # noqa: E402
from probe import Blocks, fixed  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P04", rule="random and special ranges (touching zero from either "
            "side, degenerate, integer, very unequal), slopes 0..1.7, "
            "saturation limits below/inside/above the input range, 1-4 "
            "dimensions; inputs: ends, zero, limits, interior, just outside; "
            "non-trivial: distinct (encoding, range, input) judged",
            assumptions=["the maximum and a never-active saturation do not "
                         "restrict their input (documented)"])
GRB = gurobipy.GRB
TOL = 1e-6


def rng_range(rng, zero="any"):
    """lo < up with the requested position of zero."""
    a, b = np.sort(rng.normal(size=2) * float(rng.choice([.3, 1., 5.])))
    if b - a < 1e-2:
        b = a + 1.
    k = rng.integers(9 if zero == "any" else 7)
    if zero == "inside":
        a, b = -abs(a) - .01, abs(b) + .01
        if k == 0:
            a = -abs(rng.normal()) * 20 - 1.
        elif k == 1:
            a, b = float(np.floor(a)), float(np.ceil(b))
        elif k == 2:
            a = -10.**rng.uniform(-3, -1)
        elif k == 3:
            b = 10.**rng.uniform(-3, -1)
        return float(a), float(b)
    if k == 0:
        a, b = 0., abs(b) + .1
    elif k == 1:
        a, b = -abs(a) - .1, 0.
    elif k == 2:
        a, b = float(np.floor(a)), float(np.floor(a)) + 1.
    elif k == 3:
        a, b = abs(a) + .1, abs(a) + abs(b) + .3
    elif k == 4:
        a, b = -abs(a) - abs(b) - .3, -abs(a) - .1
    elif k == 5:
        a, b = -abs(a) - .1, abs(b) + .1
    elif k == 7:
        a, b = -10.**rng.uniform(-3, -1), abs(b) + .1
    elif k == 8:
        a, b = -abs(a) - .1, 10.**rng.uniform(-3, -1)
    return float(a), float(b)


def inputs(rng, lo, up):
    out = [lo, up, rng.uniform(lo, up), rng.uniform(lo, up)]
    if lo < 0 < up:
        out.append(0.)
    return out


def outside(rng, lo, up):
    e = float(rng.choice([1e-3, .1, 5.])) * (1 + up - lo)
    return [lo - e, up + e]


def four(r, what, c):
    A_x, A_s, A_b, rhs = [N(v) for v in r]
    n = A_x.size
    c.require(A_s.size == A_b.size == rhs.size == n, "shape", what)
    return Blocks(types.SimpleNamespace(
        Ain_input=A_x.reshape(n, 1), Ain_slack=A_s.reshape(n, 1),
        Ain_binary=A_b.reshape(n, 1), rhs_in=rhs.reshape(-1),
        Aeq_input=None, Aeq_slack=None, Aeq_binary=None, rhs_eq=None,
        Aout_input=None, Aout_slack=None, Aout_binary=None, Cout=None,
        input_lo=None, input_up=None, slack_lo=None, slack_up=None,
        binary_lo=None, binary_up=None), 1, 1, 1)


def sets(c, blk, x, admitted, what, scale):
    """
    admitted: {binary tuple: value}; everything else must be infeasible.
    """
    nb = blk.size["binary"]
    for code in range(2 ** nb):
        be = tuple(float((code >> k) & 1) for k in range(nb))
        P = blk.model({**fixed("input", np.atleast_1d(x)),
                       **fixed("binary", be)})
        if be in admitted:
            c.require(P.feasible(), "value_excluded", "%s: x=%r binaries %s "
                      "is infeasible" % (what, x, be))
            r = P.var_range("slack", 0)
            v = admitted[be]
            c.require(abs(r[0] - v) < TOL * scale and
                      abs(r[1] - v) < TOL * scale, "value_wrong",
                      "%s: x=%r binaries %s gives %s, expected %r" %
                      (what, x, be, r, v))
        else:
            c.require(not P.feasible(), "spurious", "%s: x=%r admits "
                      "binaries %s" % (what, x, be))
        c.ev("binary_choices")


def hull(c, blk, x, be, hi, lo_, what, scale):
    """Relaxed binary: the range of the value at x."""
    P = blk.model(fixed("input", [x]), binary=False)
    r = P.var_range("slack", 0)
    c.require(r is not None and abs(r[1] - hi) < TOL * scale and
              abs(r[0] - lo_) < TOL * scale, "not_convex_hull",
              "%s: relaxed range %s at x=%r, convex hull [%r, %r]" %
              (what, r, x, lo_, hi))


@chk.section(quick=160, thorough=800, floor=.9)
def product(c, rng, i):
    lo, up = rng_range(rng)
    if rng.random() < .1:
        up = lo
    arg = rng.random() < .5
    blk = four(utils.replace_binary_continuous_product(
        lo if arg else T(lo), up if arg else T(up), DTYPE), "product", c)
    s = 1 + abs(lo) + abs(up)
    for x in inputs(rng, lo, up):
        sets(c, blk, x, {(0., ): 0., (1., ): x}, "product [%g,%g]" %
             (lo, up), s)
    for x in outside(rng, lo, up):
        sets(c, blk, x, {}, "product outside [%g,%g]" % (lo, up), s)
    if up > lo:
        # ideal formulation: at every fractional alpha the McCormick hull
        x, a = rng.uniform(lo, up), float(rng.random())
        P = blk.model({("input", 0): x, ("binary", 0): a}, binary=False)
        r = P.var_range("slack", 0)
        h = min(a * up, x - (1 - a) * lo)
        g = max(a * lo, x - (1 - a) * up)
        c.require((r is None and g > h + 1e-7) or (
            r is not None and abs(r[0] - g) < TOL * s and
            abs(r[1] - h) < TOL * s), "not_convex_hull",
            "product relaxation %s, hull [%r, %r]" % (r, g, h))
    c.key("product", lo, up)


@chk.section(quick=160, thorough=800, floor=.9)
def leaky_gradient(c, rng, i):
    lo, up = rng_range(rng)
    if rng.random() < .1:
        up = lo
    sl = float(rng.choice([0., .01, .1, .5, .9, 1.5]))
    arg = rng.random() < .5
    blk = four(utils.leaky_relu_gradient_times_x(
        lo if arg else T(lo), up if arg else T(up), sl, DTYPE),
        "leaky_gradient", c)
    s = 1 + abs(lo) + abs(up)
    for x in inputs(rng, lo, up):
        sets(c, blk, x, {(0., ): sl * x, (1., ): x},
             "leaky gradient %g [%g,%g]" % (sl, lo, up), s)
    for x in outside(rng, lo, up):
        sets(c, blk, x, {}, "leaky gradient outside", s)
    c.key("leaky_gradient", sl, lo, up)


@chk.section(quick=160, thorough=800, floor=.9)
def relu(c, rng, i):
    lo, up = rng_range(rng, "inside")
    if rng.random() < .5:
        sl = 0.
        r = utils.replace_relu_with_mixed_integer_constraint(
            T(lo), T(up), DTYPE) if rng.random() < .5 else \
            utils.replace_relu_with_mixed_integer_constraint(lo, up, DTYPE)
    else:
        sl = float(rng.choice([0., .01, .1, .5, .9, 1.5]))
        a, b = (T(lo), T(up)) if rng.random() < .5 else (lo, up)
        r = utils.replace_leaky_relu_mixed_integer_constraint(sl, a, b, DTYPE)
    blk = four(r, "relu", c)
    s = 1 + abs(lo) + abs(up)
    for x in inputs(rng, lo, up):
        ad = {}
        if x >= 0:
            ad[(1., )] = x
        if x <= 0:
            ad[(0., )] = sl * x
        sets(c, blk, x, ad, "relu slope %g [%g,%g]" % (sl, lo, up), s)
        ch = sl * lo + (x - lo) * (up - sl * lo) / (up - lo)
        v = x if x > 0 else sl * x
        hull(c, blk, x, None, max(ch, v), min(ch, v),
             "relu slope %g [%g,%g]" % (sl, lo, up), s)
    for x in outside(rng, lo, up):
        sets(c, blk, x, {}, "relu outside", s)
    c.key("relu", sl, lo, up)


@chk.section(quick=240, thorough=1200, floor=.9)
def absolute(c, rng, i):
    lo, up = rng_range(rng)
    if rng.random() < .08:
        up = lo
    if rng.random() < .05:
        lo = up = 0.
    z = bool(rng.random() < .5)
    arg = rng.random() < .5
    ret = utils.absolute_value_as_mixed_integer_constraint(
        lo if arg else T(lo), up if arg else T(up), z)
    blk = Blocks(ret, 1, 1, 3 if z else 1)
    c.require(blk.nout == 1, "shape", "%s outputs" % blk.nout)
    s = 1 + abs(lo) + abs(up)
    what = "abs [%g,%g] zero=%s" % (lo, up, z)
    for x in inputs(rng, lo, up):
        v = abs(x)
        if not z:
            # zero at an end of the range belongs to the side of the range
            if x > 0 or (x == 0 and lo >= 0):
                ad = {(1., ): v}
            elif x < 0 or (x == 0 and up <= 0):
                ad = {(0., ): v}
            else:
                ad = {(0., ): v, (1., ): v}
        elif x > 0:
            ad = {(0., 0., 1.): v}
        elif x < 0:
            ad = {(1., 0., 0.): v}
        else:
            ad = {(0., 1., 0.): v}
            if up > 0 or up == lo == 0:
                ad[(0., 0., 1.)] = v
            if lo < 0:
                ad[(1., 0., 0.)] = v
        sets(c, blk, x, ad, what, s)
        P = blk.model(fixed("input", [x]))
        r = P.out_range(0)
        c.require(abs(r[0] - v) < TOL * s and abs(r[1] - v) < TOL * s,
                  "output", "%s output %s at %r" % (what, r, x))
        if z and (lo == 0 or up == 0) and lo < up:
            # documented rows: the relaxed side binary is at least x / end
            P = blk.model(fixed("input", [x]), binary=False)
            a = P.var_range("binary", 2 if lo == 0 else 0)[0]
            c.require(abs(a - x / (lo + up)) < TOL * s, "not_convex_hull",
                      "%s: relaxed binary may drop to %r at %r" % (what, a,
                                                                  x))
    for x in outside(rng, lo, up):
        sets(c, blk, x, {}, what + " outside", s)
    c.key("abs", z, lo, up)


@chk.section(quick=200, thorough=1000, floor=.9)
def maximum(c, rng, i):
    n = int(rng.integers(1, 5))
    lo, up = box(rng, n)
    if rng.random() < .5:  # some entries can never be maximal
        for k in range(n):
            if rng.random() < .4:
                w = up[k] - lo[k]
                up[k] = np.max(lo) - rng.uniform(.1, 2.)
                lo[k] = up[k] - w
    ret = utils.max_as_mixed_integer_constraint(T(lo), T(up))
    blk = Blocks(ret, n, 1, n)
    s = 1 + np.max(np.abs(np.concatenate((lo, up))))
    X = list(points(rng, lo, up, 4))
    # an exact tie, when possible
    a, b = np.max(lo), np.min(up[up >= np.max(lo)], initial=np.max(up))
    v = rng.uniform(a, max(a, b))
    X.append(np.clip(np.full(n, v), lo, up))
    dead = [k for k in range(n) if np.any(up[k] < lo)]
    for x in X:
        m = np.max(x)
        ad = {}
        for k in range(n):
            if x[k] >= m - 1e-12 and k not in dead:
                e = tuple(float(j == k) for j in range(n))
                ad[e] = m
        # ties within tolerance would be ambiguous
        if np.any((m - x > 1e-12) & (m - x < 1e-5)):
            continue
        sets(c, blk, x, ad, "max", s)
        r = blk.model(fixed("input", x)).out_range(0)
        c.require(abs(r[0] - m) < TOL * s and abs(r[1] - m) < TOL * s,
                  "output", "max output %s, value %r" % (r, m))
    c.ev("never_maximal", len(dead))
    c.key("max", n, len(dead), np.round(lo, 4).tolist())


@chk.section(quick=160, thorough=800, floor=.9)
def boundary(c, rng, i):
    n = int(rng.integers(1, 4))
    lo, up = box(rng, n)
    ret = utils.box_boundary(T(lo), T(up))
    blk = Blocks(ret, n, 0, 2 * n)
    flat = bool(np.any(up == lo))
    for k in range(6):
        x = rng.uniform(size=n) * (up - lo) + lo
        j = int(rng.integers(n))
        if k % 2:
            x[j] = lo[j] if rng.random() < .5 else up[j]
        on = bool(np.any((x == lo) | (x == up)))
        d = np.min(np.minimum(x - lo, up - x))
        if not on and d < 1e-4:
            continue
        f = blk.model(fixed("input", x)).feasible()
        c.require(f == on, "boundary", "x=%s in the box [%s,%s]: %s" %
                  (x, lo, up, "admitted" if f else "excluded"))
        c.ev("on_boundary" if on else "interior")
    x = rng.uniform(size=n) * (up - lo) + lo
    j = int(rng.integers(n))
    x[j] = up[j] + .01 * (1 + abs(up[j])) if rng.random() < .5 else \
        lo[j] - .01 * (1 + abs(lo[j]))
    if n > 1 and rng.random() < .5:
        x[(j + 1) % n] = up[(j + 1) % n]
    c.require(not blk.model(fixed("input", x)).feasible(), "boundary",
              "a point outside the box is admitted")
    c.key("boundary", n, flat, np.round(lo, 4).tolist())


@chk.section(quick=400, thorough=2000, floor=.9)
def saturation(c, rng, i):
    a, b = np.sort(rng.normal(size=2)) * float(rng.choice([1., 1., .1, 8.]))
    if b - a < 1e-2:
        b = a + .5
    kind = int(rng.integers(8))
    w = rng.uniform(.05, 1.5) if rng.random() < .6 else \
        float(10.**rng.uniform(-3, 1.5))
    lo, up = {0: (a - 1 - w, a - w), 1: (b + w, b + w + 1.),
              2: (a + .2 * (b - a), a + .8 * (b - a)),
              3: (a - w, a + .5 * (b - a)), 4: (a + .5 * (b - a), b + w),
              5: (a - w, b + w), 6: (a, b), 7: (a - w, b)}[kind]
    if kind == 7 and rng.random() < .5:
        lo, up = a, b + w
    if kind == 0 and rng.random() < .3:
        up = a
    if kind == 1 and rng.random() < .3:
        lo = b
    vt = [GRB.BINARY, GRB.CONTINUOUS, gtm.BINARYRELAX][int(rng.integers(3))] \
        if rng.random() < .4 else GRB.BINARY
    X = [lo, up, rng.uniform(lo, up), rng.uniform(lo, up)] + [
        v for v in (a, b) if lo <= v <= up]
    c.note(limits=(a, b), range=(lo, up), binary=str(vt))
    dt = bool(rng.random() < .5)
    prog = gtm.GurobiTorchMILP(DTYPE) if rng.random() < .7 else \
        gtm.GurobiTorchMIQP(DTYPE)
    prog.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    prog.gurobi_model.setParam(GRB.Param.DualReductions, 0)
    # some unrelated variables first: indices must not matter
    prog.addVars(int(rng.integers(1, 3)), lb=0., ub=1.)
    x = prog.addVars(1, lb=-GRB.INFINITY)[0]
    y = prog.addVars(1, lb=-GRB.INFINITY)[0]
    args = (a, b, lo, up)
    if dt:
        args = tuple(T(v) for v in args)
    be = utils.add_saturation_as_mixed_integer_constraint(
        prog, x, y, *args, vt)
    low, upp = lo < a and up > a, up > b and lo < b
    need = int(low) + int(upp)
    c.require(len(be) == need, "saturation_binaries", "%d binaries, limits "
              "%g %g range %g %g" % (len(be), a, b, lo, up))
    want_vt = {gtm.BINARYRELAX: GRB.CONTINUOUS}.get(vt, vt)
    m = prog.gurobi_model
    m.update()
    for v in be:
        c.require(v.VType == want_vt and v.lb == 0. and v.ub == 1.,
                  "saturation_binaries", "type %r bounds %r %r" %
                  (v.VType, v.lb, v.ub))
    s = 1 + max(abs(v) for v in (a, b, lo, up))

    def rg(e, xv):
        x.lb = x.ub = xv
        out = []
        for sense in (GRB.MINIMIZE, GRB.MAXIMIZE):
            m.setObjective(gurobipy.LinExpr(1., e), sense)
            m.optimize()
            if m.status != GRB.Status.OPTIMAL:
                return None
            out.append(m.ObjVal)
        return out

    for xv in X:
        v = min(max(xv, a), b)
        r = rg(y, xv)
        c.require(r is not None, "saturation_infeasible", "input %r in the "
                  "range is excluded" % xv)
        if want_vt == GRB.BINARY or not be:
            c.require(abs(r[0] - v) < TOL * s and abs(r[1] - v) < TOL * s,
                      "saturation_value", "clamp(%r)=%r, admitted %s; limits "
                      "%g %g range %g %g" % (xv, v, r, a, b, lo, up))
            for k, q in enumerate(be):
                isl = low and k == 0
                d = (a - xv) if isl else (xv - b)
                if abs(d) > 1e-4:
                    g = rg(q, xv)
                    t = float(d > 0)
                    c.require(abs(g[0] - t) < 1e-5 and abs(g[1] - t) < 1e-5,
                              "saturation_binary", "binary %d in %s for "
                              "input %r limits %g %g" % (k, g, xv, a, b))
        else:
            c.require(r[0] <= v + TOL * s and r[1] >= v - TOL * s,
                      "saturation_relaxed", "relaxation %s excludes %r" %
                      (r, v))
        c.ev("saturation_inputs")
    if need and want_vt == GRB.BINARY:
        for xv in outside(rng, lo, up):
            c.require(rg(y, xv) is None, "saturation_outside",
                      "input %r outside [%g,%g] admitted" % (xv, lo, up))
    c.key("saturation", kind, str(vt), round(a, 4), round(lo, 4))


if __name__ == "__main__":
    chk.main()

"""P06: composing mixed-integer constraint sets preserves their relations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, DTYPE  # noqa: E402
from progs import solve  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402

chk = Check("P06", rule="random constraint sets with every combination of "
            "present/absent blocks (input/slack/binary columns of inequality, "
            "equality, output; constants; variable bounds), sizes 0-4, "
            "random affine maps, stacking flags; points: an anchor satisfying "
            "the set, perturbations of it and random points; non-trivial: "
            "both members and non-members were seen",
            assumptions=["variable bounds are also part of the inequality "
                         "rows (the class contract) when the input is "
                         "transformed"])

FIELDS = ["A%s_%s" % (k, v) for k in ("out", "in", "eq")
          for v in ("input", "slack", "binary")] + ["Cout", "rhs_in",
                                                    "rhs_eq"]
BOUNDS = ["input_lo", "input_up", "slack_lo", "slack_up", "binary_lo",
          "binary_up"]


class Ref:
    """Independent numpy picture of a constraint set."""

    def __init__(self, ret):
        for f in FIELDS + BOUNDS:
            v = getattr(ret, f)
            setattr(self, f, None if v is None else N(v).copy())

    def lin(self, kind, x, s, b):
        tot = None
        for nm, v in (("input", x), ("slack", s), ("binary", b)):
            A = getattr(self, "A%s_%s" % (kind, nm))
            if A is None:
                continue
            if A.ndim != 2 or A.shape[1] != len(v):
                raise ValueError("A%s_%s has shape %s for %d variables" %
                                 (kind, nm, A.shape, len(v)))
            tot = A @ v if tot is None else tot + A @ v
        return tot

    def member(self, x, s, b, tol=1e-9):
        for kind in ("in", "eq"):
            rhs = getattr(self, "rhs_" + kind)
            lhs = self.lin(kind, x, s, b)
            if rhs is None:
                if lhs is not None:
                    raise ValueError("rows without right-hand side")
                continue
            if lhs is None:
                lhs = np.zeros(rhs.shape)
            if lhs.shape != rhs.shape:
                raise ValueError("rows %s, right-hand side %s" %
                                 (lhs.shape, rhs.shape))
            d = lhs - rhs
            if np.any((d > tol) if kind == "in" else (np.abs(d) > tol)):
                return False
        for nm, v in (("input", x), ("slack", s), ("binary", b)):
            lo, up = getattr(self, nm + "_lo"), getattr(self, nm + "_up")
            for w in (lo, up):
                if w is not None and w.shape != v.shape:
                    raise ValueError("%s bound shape" % nm)
            if lo is not None and np.any(v < lo - tol):
                return False
            if up is not None and np.any(v > up + tol):
                return False
        return True

    def out(self, x, s, b):
        v = self.lin("out", x, s, b)
        if self.Cout is not None:
            v = self.Cout + (0. if v is None else v)
        return v


def pick(rng, vals):
    return vals[int(rng.integers(len(vals)))]


def build(rng, nx, ns, nb, anchor, bounds=True, out=True, input_bounds=True):
    """A random set that holds at anchor = (x, s, b)."""
    ret = gtm.MixedIntegerConstraintsReturn()
    x, s, b = anchor
    sizes = {"input": x, "slack": s, "binary": b}

    def mat(m, n):
        return rng.integers(-3, 4, size=(m, n)).astype(float) if \
            rng.random() < .5 else rng.normal(size=(m, n))

    for kind in ("in", "eq", "out"):
        m = int(rng.integers(0, 4))
        if m == 0 or (kind == "out" and not out):
            continue
        cols = [k for k in sizes if len(sizes[k]) and rng.random() < .7]
        tot = np.zeros(m)
        for k in cols:
            A = mat(m, len(sizes[k]))
            setattr(ret, "A%s_%s" % (kind, k), T(A))
            tot += A @ sizes[k]
        if kind == "out":
            if not cols or rng.random() < .6:
                ret.Cout = T(mat(1, m)[0])
        elif not cols:
            continue
        elif kind == "in":
            ret.rhs_in = T(tot + np.round(rng.uniform(0, 2, m), 1) *
                           (rng.random(m) < .8))
        else:
            ret.rhs_eq = T(tot)
    # the number of slack/binary/input variables is defined by the matrices
    for k, v in sizes.items():
        if len(v) and all(getattr(ret, "A%s_%s" % (kind, k)) is None
                          for kind in ("in", "eq", "out")):
            A = mat(2, len(v))
            if ret.rhs_in is None:
                ret.Ain_input = None
                setattr(ret, "Ain_" + k, T(A))
                ret.rhs_in = T(A @ v + 1.)
            else:
                A = mat(ret.rhs_in.shape[0], len(v))
                setattr(ret, "Ain_" + k, T(A))
                ret.rhs_in = ret.rhs_in + T(A @ v)
    if bounds:
        for nm, v in sizes.items():
            if not len(v) or (nm == "input" and not input_bounds):
                continue
            if rng.random() < .4:
                setattr(ret, nm + "_lo", T(v - np.round(
                    rng.uniform(0, 1.5, len(v)), 1)))
            if rng.random() < .4:
                setattr(ret, nm + "_up", T(v + np.round(
                    rng.uniform(0, 1.5, len(v)), 1)))
    return ret


def anchor_of(rng, nx, ns, nb):
    return (np.round(rng.normal(size=nx), 1), np.round(rng.normal(size=ns), 1),
            rng.integers(0, 2, nb).astype(float))


def near(rng, a, k):
    x, s, b = (v.copy() for v in a)
    if k == 0:
        return x, s, b
    w = pick(rng, [.05, .5, 3.])
    if k % 3 != 1:
        x = x + w * rng.normal(size=x.size) * (rng.random(x.size) < .6)
    if k % 3 != 2:
        s = s + w * rng.normal(size=s.size) * (rng.random(s.size) < .6)
    m = rng.random(b.size) < .3
    return x, s, np.where(m, 1 - b, b)


def snapshot(ret):
    return {f: (getattr(ret, f), None if getattr(ret, f) is None else
                N(getattr(ret, f)).copy()) for f in FIELDS + BOUNDS}


def unchanged(c, ret, snap, who):
    for f, (obj, val) in snap.items():
        cur = getattr(ret, f)
        c.require((cur is None) == (val is None), "operand_mutated",
                  "%s.%s appeared/vanished" % (who, f))
        if val is not None:
            c.require(N(cur).shape == val.shape and
                      np.array_equal(N(cur), val), "operand_mutated",
                      "%s.%s" % (who, f), now=cur, before=val)
    shared(c, snap, who)


def shared(c, snap, who):
    for f, (obj, val) in snap.items():
        if val is not None:
            c.require(obj.shape == val.shape and np.array_equal(N(obj), val),
                      "shared_tensor_mutated",
                      "the tensor given as %s.%s changed" % (who, f),
                      now=obj, before=val)


def counts_ok(c, ret, nx, ns, nb, mech):
    c.require((ret.num_input(), ret.num_slack(), ret.num_binary()) ==
              (nx, ns, nb), mech, "variable counts", got=(
                  ret.num_input(), ret.num_slack(), ret.num_binary()),
              want=(nx, ns, nb))


@chk.section(quick=2000, thorough=20000)
def transform(c, rng, i):
    nx, ns, nb = (int(v) for v in rng.integers([1, 0, 0], [4, 4, 4]))
    nz = int(rng.integers(1, 5))
    A = rng.integers(-2, 3, size=(nx, nz)).astype(float) if i % 2 else \
        rng.normal(size=(nx, nz))
    b = np.round(rng.normal(size=nx), 1) * (rng.random() < .8)
    z = np.round(rng.normal(size=nz), 1)
    anc = (A @ z + b, ) + anchor_of(rng, 0, ns, nb)[1:]
    hasb = rng.random() < .2
    ret = build(rng, nx, ns, nb, anc, input_bounds=hasb)
    ref = Ref(ret)
    counts_ok(c, ret, nx, ns, nb, "transform_counts")
    snap = snapshot(ret)
    tA, tb = T(A), T(b)
    has_input_bound = ret.input_lo is not None or ret.input_up is not None
    try:
        ret.transform_input(tA, tb)
    except Exception:
        if has_input_bound:
            # refusing bounded inputs is allowed, corrupting them is not
            unchanged(c, ret, snap, "refused operand")
            c.ev("refused")
            raise Skip("transform of bounded input refused")
        raise
    shared(c, snap, "operand")
    c.require(np.array_equal(N(tA), A) and np.array_equal(N(tb), b),
              "shared_tensor_mutated", "map arguments")
    new = Ref(ret)
    seen = set()
    for k in range(12):
        zz, s, bb = near(rng, (z, ) + anc[1:], k)
        want = ref.member(A @ zz + b, s, bb, 1e-7)
        # ignore points within rounding of the boundary
        if want != ref.member(A @ zz + b, s, bb, 1e-9):
            continue
        got = new.member(zz, s, bb, 1e-8)
        seen.add(want)
        c.require(got == want, "transform_relation",
                  "membership after the substitution", z=zz, s=s, b=bb,
                  want=want)
        o, w = new.out(zz, s, bb), ref.out(A @ zz + b, s, bb)
        if w is not None:
            c.close(o, w, "transform_output", "output after substitution",
                    1e-9)
    if len(seen) == 2:
        c.key("transform", i, nx, nz, ns, nb)


@chk.section(quick=750, thorough=5000)
def clone(c, rng, i):
    nx, ns, nb = (int(v) for v in rng.integers([1, 0, 0], [4, 4, 4]))
    ret = build(rng, nx, ns, nb, anchor_of(rng, nx, ns, nb))
    snap = snapshot(ret)
    cl = ret.clone()
    for f in FIELDS + BOUNDS:
        a, b = getattr(ret, f), getattr(cl, f)
        c.require((a is None) == (b is None), "clone", "field " + f)
        if a is not None:
            c.close(b, a, "clone", "field " + f, 0.)
    for f in FIELDS + BOUNDS:
        v = getattr(cl, f)
        if v is not None:
            v.data.add_(1.)
    unchanged(c, ret, snap, "original of a modified clone")
    c.key("clone", i)


@chk.section(quick=500, thorough=6000)
def gradients(c, rng, i):
    """Derivatives pass through every operation to the operands' tensors."""
    nx, ns, nb = (int(v) for v in rng.integers([1, 0, 0], [4, 4, 4]))
    op = ("clone", "transform", "concatenate")[i % 3]
    anc = anchor_of(rng, nx, ns, nb)
    ops = [build(rng, nx, ns, nb, anc, bounds=op != "transform")]
    if op == "concatenate":
        ops.append(build(rng, nx, ns, nb, anc))
    nz = int(rng.integers(1, 4))
    opt = [bool(v) for v in rng.integers(0, 2, 3)]
    base = [{f: N(getattr(r, f)).copy() for f in FIELDS + BOUNDS
             if getattr(r, f) is not None} for r in ops]
    extra = {"A": rng.normal(size=(nx, nz)), "b": rng.normal(size=nx)}
    dirs = [{f: rng.normal(size=v.shape) for f, v in d.items()}
            for d in base]
    dex = {k: rng.normal(size=v.shape) for k, v in extra.items()}
    W = {}

    def func(h, grad=False):
        leaves = []
        rets = []
        for d, dv in zip(base, dirs):
            r = gtm.MixedIntegerConstraintsReturn()
            for f in d:
                t = T(d[f] + h * dv[f]).requires_grad_(grad)
                leaves.append((t, dv[f]))
                setattr(r, f, t)
            rets.append(r)
        ex = {k: T(v + h * dex[k]).requires_grad_(grad)
              for k, v in extra.items()}
        if op == "clone":
            r = rets[0].clone()
        elif op == "transform":
            r = rets[0]
            r.transform_input(ex["A"], ex["b"])
            leaves += [(ex[k], dex[k]) for k in ex]
        else:
            r = gtm.concatenate_mixed_integer_constraints(
                rets[0], rets[1], *opt)
        tot = torch.zeros((), dtype=DTYPE)
        for f in FIELDS + BOUNDS:
            v = getattr(r, f)
            if v is None:
                continue
            if f not in W:
                W[f] = rng.normal(size=tuple(v.shape))
            w = T(W[f])
            fin = torch.isfinite(v)
            tot = tot + (w[fin] * v[fin]).sum()
        return tot, leaves

    v, leaves = func(0., True)
    h = 1e-6
    p, q, z = float(func(h)[0]), float(func(-h)[0]), float(v)
    fd = (p - q) / (2 * h)
    if abs((p - z) - (z - q)) > 2e-10:  # a bound switches here
        raise Skip("no derivative")
    c.require(v.requires_grad, "gradient_lost", "the result of %s does not "
              "depend on its operands" % op)
    g = torch.autograd.grad(v, [t for t, _ in leaves], allow_unused=True)
    ad = sum(float((a * T(dv)).sum()) for a, (_, dv) in zip(g, leaves)
             if a is not None)
    c.close(ad, fd, "operand_gradient", "derivative of the result of %s" % op,
            1e-3, options=opt)
    c.key(op, i)


@chk.section(quick=2500, thorough=20000)
def concatenate(c, rng, i):
    nx = int(rng.integers(1, 4))
    same_s, same_b, stack = (bool(v) for v in rng.integers(0, 2, 3))
    ns1, nb1 = (int(v) for v in rng.integers(0, 4, 2))
    ns2 = ns1 if same_s else int(rng.integers(0, 4))
    nb2 = nb1 if same_b else int(rng.integers(0, 4))
    a1 = anchor_of(rng, nx, ns1, nb1)
    a2 = anchor_of(rng, nx, ns2, nb2)
    a2 = (a1[0], a1[1] if same_s else a2[1], a1[2] if same_b else a2[2])
    r1 = build(rng, nx, ns1, nb1, a1)
    r2 = build(rng, nx, ns2, nb2, a2)
    f1, f2 = Ref(r1), Ref(r2)
    s1, s2 = snapshot(r1), snapshot(r2)
    ret = gtm.concatenate_mixed_integer_constraints(r1, r2, same_s, same_b,
                                                    stack)
    unchanged(c, r1, s1, "first")
    unchanged(c, r2, s2, "second")
    new = Ref(ret)
    full = (a1[0], a1[1] if same_s else np.concatenate((a1[1], a2[1])),
            a1[2] if same_b else np.concatenate((a1[2], a2[2])))
    seen = set()
    for k in range(14):
        x, s, b = near(rng, full, k)
        sa, sb = (s, s) if same_s else (s[:ns1], s[ns1:])
        ba, bb = (b, b) if same_b else (b[:nb1], b[nb1:])
        want = f1.member(x, sa, ba, 1e-7) and f2.member(x, sb, bb, 1e-7)
        if want != (f1.member(x, sa, ba, 1e-9) and
                    f2.member(x, sb, bb, 1e-9)):
            continue
        seen.add(want)
        got = new.member(x, s, b, 1e-8)
        c.require(got == want, "concatenate_relation",
                  "membership in the combination", x=x, s=s, b=b, want=want,
                  flags=(same_s, same_b, stack))
        if stack:
            o1, o2 = f1.out(x, sa, ba), f2.out(x, sb, bb)
            w = [o for o in (o1, o2) if o is not None]
            got = new.out(x, s, b)
            if w:
                c.close(got, np.concatenate(w), "concatenate_output",
                        "stacked output", 1e-9)
            else:
                c.require(got is None or got.size == 0, "concatenate_output",
                          "no output expected")
        else:
            got = new.out(x, s, b)
            c.require(got is None or got.size == 0, "concatenate_output",
                      "no output requested")
    if len(seen) == 2:
        c.key("concatenate", i, ns1, ns2, nb1, nb2, same_s, same_b, stack)
    # composing further must not reach back into the operands
    if ret.input_lo is None and ret.input_up is None:
        A, b = rng.normal(size=(nx, 2)), rng.normal(size=nx)
        ret.transform_input(T(A), T(b))
        unchanged(c, r1, s1, "first (after transforming the combination)")
        unchanged(c, r2, s2, "second (after transforming the combination)")
        new = Ref(ret)
        z = rng.normal(size=2)
        for k in range(3):
            x, s, bb = near(rng, full, k)
            x = A @ z + b
            sa, sb = (s, s) if same_s else (s[:ns1], s[ns1:])
            ba, bc = (bb, bb) if same_b else (bb[:nb1], bb[nb1:])
            want = [f1.member(x, sa, ba, t) and f2.member(x, sb, bc, t)
                    for t in (1e-7, 1e-9)]
            if want[0] == want[1]:
                c.require(new.member(z, s, bb, 1e-8) == want[0],
                          "concatenate_transform", "composition of both")


@chk.section(quick=1500, thorough=8000)
def program(c, rng, i):
    """A set added to a program admits exactly its points."""
    nx, ns, nb = (int(v) for v in rng.integers([1, 0, 0], [4, 4, 4]))
    a = anchor_of(rng, nx, ns, nb)
    r = build(rng, nx, ns, nb, a)
    f, snap = Ref(r), snapshot(r)
    mip = (gtm.GurobiTorchMILP, gtm.GurobiTorchMIQP)[i % 2](torch.float64)
    lo = np.where(rng.random(nx) < .3, -np.inf, a[0] - 3.)
    up = np.where(rng.random(nx) < .3, np.inf, a[0] + 3.)
    xv = mip.addVars(nx, lb=T(lo), ub=T(up), name="x")
    o = f.out(*a)
    no = 0 if o is None else o.size
    want_out = no > 0 and rng.random() < .8
    yv = mip.addVars(no, lb=-gurobipy.GRB.INFINITY, name="y") \
        if want_out else None
    relax = rng.random() < .25
    given = None
    if nb and i % 3 == 2:
        # binary variables that already exist, in any order
        more = mip.addVars(nb + int(rng.integers(0, 10)),
                           vtype=gtm.BINARYRELAX if relax else
                           gurobipy.GRB.BINARY, name="z", lb=0., ub=1.)
        given = [more[j] for j in rng.permutation(len(more))[:nb]]
        c.ev("existing_binaries")
    sv, bv = mip.add_mixed_integer_linear_constraints(
        r, xv, yv, "s", "b" if given is None else given, "in", "eq", "out",
        gtm.BINARYRELAX if relax else gurobipy.GRB.BINARY)
    if given is not None:
        c.require(len(bv) == nb and all(p.sameAs(q) for p, q in zip(
            bv, given)), "program_sizes", "existing binaries are used")
    if relax and rng.random() < .5:
        mip.remove_binary_relaxation()
        relax = False
    unchanged(c, r, snap, "the set added")
    c.require(len(sv) == ns and len(bv) == nb, "program_sizes",
              "variables created", got=(len(sv), len(bv)), want=(ns, nb))
    g = mip.gurobi_model
    seen = set()
    for k in range(8):
        x, s, b = near(rng, a, k)
        if relax and k % 4 == 3:
            b = np.clip(b + rng.uniform(-.5, .5, nb), 0., 1.)
        q = [f.member(x, s, b, t) and np.all(x >= lo - t) and
             np.all(x <= up + t) for t in (1e-4, 1e-9)]
        # a margin for the inequalities is needed in the other direction
        if q[0] != q[1]:
            continue
        cons = [g.addLConstr(gurobipy.LinExpr([1.], [v]),
                             gurobipy.GRB.EQUAL, float(w))
                for v, w in zip(list(xv) + list(sv) + list(bv),
                                np.concatenate((x, s, b)))]
        y = None
        if want_out:
            mip.setObjective([torch.zeros(no, dtype=torch.float64)], [yv], 0.,
                             gurobipy.GRB.MAXIMIZE) if i % 2 == 0 else None
        old, gurobipy.PARANOID = gurobipy.PARANOID, True
        try:
            r0 = solve(mip)
        finally:
            gurobipy.PARANOID = old
        c.require((r0 is not None) == bool(q[1]), "program_relation",
                  "point admitted by the program", want=q[1], x=x, s=s, b=b,
                  relaxed=relax)
        if r0 is not None and want_out:
            y = np.array([v.x for v in yv])
            c.close(y, f.out(x, s, b), "program_output",
                    "output in the program", 1e-6)
        seen.add(bool(q[1]))
        for k2 in cons:
            g.remove(k2)
    c.ev("relaxed" if relax else "binary")
    if len(seen) == 2:
        c.key("program", i, nx, ns, nb)


if __name__ == "__main__":
    chk.main()

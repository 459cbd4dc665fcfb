"""P07: recorded torch constraint data equal the program given to the solver."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, DTYPE  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402

chk = Check("P07", rule="random histories (2-14 operations) of addVars (every "
            "type, scalar/tensor/infinite/equal bounds), addLConstr, "
            "addMConstr (every sense, several variable groups mixing "
            "continuous and binary), and constraint sets with every block "
            "combination; non-trivial: distinct history signatures with at "
            "least one constraint",
            assumptions=["a variable bound passed inside a constraint set is "
                         "also one of its inequality rows (documented class "
                         "contract)"])
GRB = gurobipy.GRB
INF = float("inf")


class Data:
    """Numeric data of a history; a replay may shift it along a direction."""

    def __init__(self):
        self.leaves = []

    def new(self, rng, shape, ints=None):
        v = rng.normal(size=shape)
        m = rng.random(v.shape)
        v = np.where(m < .25, 0., np.where(m < .4, np.round(v), np.where(
            m < .5, np.round(2 * v) / 2, v)))
        self.leaves.append(v)
        return len(self.leaves) - 1


def gen_history(rng):
    """A list of operations, independent of the code under test."""
    D = Data()
    ops = []
    kinds = []  # kind of each variable created ('C','B','R') in order
    fixed = []
    nops = int(rng.integers(2, 15))
    for t in range(nops):
        u = rng.random()
        if t == 0 or u < .22:
            n = int(rng.integers(1, 4))
            k = "CCCBR"[int(rng.integers(5))]
            if t == 0:
                k = "C"
            bt = int(rng.integers(5))
            lo = up = None
            if k == "C":
                if bt == 0:
                    lo, up = 0., INF
                elif bt == 1:
                    lo, up = -INF, INF
                elif bt == 2:
                    a, b = np.sort(np.round(rng.normal(size=2), 2))
                    lo, up = float(a), float(b)
                elif bt == 3:
                    a = np.round(rng.normal(size=n), 2)
                    w = np.round(rng.random(n), 2) * (rng.random(n) < .6)
                    # nearly, but not, equal bounds
                    w = np.where((w > 0) & (rng.random(n) < .4),
                                 10. ** -rng.integers(3, 8, size=n), w)
                    lo, up = a, a + w
                else:
                    lo = np.where(rng.random(n) < .5, -INF,
                                  np.round(rng.normal(size=n), 2))
                    up = np.where(rng.random(n) < .5, INF,
                                  np.maximum(lo, 0.) + .5)
            else:
                lo, up = 0., 1.
                if bt >= 3:
                    lo, up = np.zeros(n), np.ones(n)
                    j = int(rng.integers(n))
                    if rng.random() < .5:
                        lo[j] = 1.
                    else:
                        up[j] = 0.
                    if bt == 4:
                        lo, up = np.zeros(n), np.ones(n)
            ops.append(("vars", n, k, lo, up, "v%d" % t))
            kinds.extend([k] * n)
        elif u < .45:
            m = int(rng.integers(1, min(5, len(kinds)) + 1))
            vs = list(rng.permutation(len(kinds))[:m])
            cuts = sorted(set(rng.integers(0, m + 1, size=2)) | {0, m})
            groups = [vs[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
            ops.append(("lin", groups,
                        [D.new(rng, (len(g), )) for g in groups],
                        "<>="[int(rng.integers(3))], D.new(rng, ()),
                        bool(rng.random() < .5), "l%d" % t))
        elif u < .7:
            m = int(rng.integers(1, min(6, len(kinds)) + 1))
            vs = list(rng.permutation(len(kinds))[:m])
            cuts = sorted(set(rng.integers(0, m + 1, size=2)) | {0, m})
            groups = [vs[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
            nr = int(rng.integers(1, 4))
            ops.append(("mat", groups,
                        [D.new(rng, (nr, len(g))) for g in groups],
                        "<>="[int(rng.integers(3))], D.new(rng, (nr, )),
                        "m%d" % t))
        else:
            cont = [i for i, k in enumerate(kinds) if k == "C"]
            nin = int(rng.integers(1, min(3, len(cont)) + 1))
            perm = list(rng.permutation(cont))
            xin = perm[:nin]
            rest = perm[nin:]
            nout = int(rng.integers(1, len(rest) + 1)) if rest and \
                rng.random() < .7 else 0
            xout = rest[:nout]
            ns = int(rng.integers(0, 3))
            nb = int(rng.integers(0, 3))
            ni, ne = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            blk = {}
            for kind, rows in (("in", ni), ("eq", ne), ("out", nout)):
                if not rows:
                    continue
                have = [("input", nin), ("slack", ns), ("binary", nb)]
                pres = [c for c in have if c[1] and rng.random() < .75]
                if not pres:
                    pres = [have[0]]
                for nm, nc in pres:
                    blk["A%s_%s" % (kind, nm)] = D.new(rng, (rows, nc))
                if kind != "out":
                    blk["rhs_" + kind] = D.new(rng, (rows, ))
                elif rng.random() < .7:
                    blk["Cout"] = D.new(rng, (rows, ))
            # a slack / binary variable has to occur somewhere
            used = {v: any(("_" + v) in q for q in blk)
                    for v in ("slack", "binary")}
            bnd = {}
            for nm, nc, ok in (("input", nin, True), ("slack", ns, True),
                               ("binary", nb, True)):
                if not nc:
                    continue
                for side in ("lo", "up"):
                    if rng.random() < .3:
                        v = np.round(rng.normal(size=nc), 2)
                        if nm == "binary":
                            v = (rng.random(nc) < .3).astype(float)
                            if side == "up":
                                v = 1 - v
                                if "binary_lo" in bnd:
                                    v = np.maximum(v, bnd["binary_lo"])
                        else:
                            v = v - 2. if side == "lo" else v + 2.
                            v = np.where(rng.random(nc) < .3,
                                         -INF if side == "lo" else INF, v)
                        bnd[nm + "_" + side] = v
                        if nm in used:
                            used[nm] = True
            if not used["slack"]:
                ns = 0
            if not used["binary"]:
                nb = 0
            bt = "BBRC"[int(rng.integers(4))]
            ops.append(("set", xin, xout, ns, nb, blk, bnd, bt,
                        bool(rng.random() < .8), "s%d" % t))
            kinds.extend(["C"] * ns + [bt] * nb)
    return ops, D


def leaf_tensors(D, shift=None):
    out = []
    for k, v in enumerate(D.leaves):
        w = v if shift is None else v + shift[k]
        out.append(T(w).requires_grad_(True))
    return out


VT = {"C": GRB.CONTINUOUS, "B": GRB.BINARY, "R": gtm.BINARYRELAX}
SN = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}


def bound_rows(bnd):
    """Inequality rows repeating the bounds of a constraint set."""
    rows = []
    for key, v in bnd.items():
        nm, side = key.split("_")
        for j, val in enumerate(v):
            if np.isfinite(val):
                rows.append((nm, j, side, val))
    return rows


def to_bound(rng_like, v, n):
    return v if isinstance(v, float) else T(v)


def replay(c, ops, D, L, cls):
    """Drive the real code."""
    mip = cls(DTYPE)
    V = []
    for op in ops:
        if op[0] == "vars":
            _, n, k, lo, up, name = op
            new = mip.addVars(n, lb=lo if isinstance(lo, float) else T(lo),
                              ub=up if isinstance(up, float) else T(up),
                              vtype=VT[k], name=name)
            c.require(isinstance(new, list) and len(new) == n, "addVars_list",
                      "addVars must return the list of its variables")
            for v in new:
                c.require(v.VarName.startswith(name), "var_name",
                          "variable name", got=v.VarName, asked=name)
            V.extend(new)
            c.ev("addVars")
        elif op[0] == "lin":
            _, groups, co, sense, rhs, as_float, name = op
            r = L[rhs]
            if as_float:
                r = float(r.item())
            con = mip.addLConstr([L[q] for q in co],
                                 [[V[i] for i in g] for g in groups],
                                 sense=SN[sense], rhs=r, name=name)
            mip.gurobi_model.update()
            c.require(con.ConstrName == name, "constr_name", "", got=con.
                      ConstrName, asked=name)
            c.ev("addLConstr" + sense)
        elif op[0] == "mat":
            _, groups, co, sense, rhs, name = op
            mip.addMConstr([L[q] for q in co],
                           [[V[i] for i in g] for g in groups],
                           sense=SN[sense], b=L[rhs], name=name)
            c.ev("addMConstr" + sense)
        else:
            _, xin, xout, ns, nb, blk, bnd, bt, newbin, name = op
            ret = gtm.MixedIntegerConstraintsReturn()
            for k, q in blk.items():
                setattr(ret, k, L[q])
            for k, v in bnd.items():
                if k.startswith("slack") and not ns:
                    continue
                if k.startswith("binary") and not nb:
                    continue
                setattr(ret, k, T(v))
            br = bound_rows(bnd)
            if br:
                n0 = 0 if ret.rhs_in is None else ret.rhs_in.shape[0]
                sz = {"input": len(xin), "slack": ns, "binary": nb}
                E = {q: np.zeros((len(br), sz[q])) for q in sz}
                rhs = np.zeros(len(br))
                for t, (nm, j, side, val) in enumerate(br):
                    sg = 1. if side == "up" else -1.
                    E[nm][t, j] = sg
                    rhs[t] = sg * val
                for q in sz:
                    if not sz[q]:
                        continue
                    old = getattr(ret, "Ain_" + q)
                    if old is None:
                        if not np.any(E[q]):
                            continue
                        old = torch.zeros((n0, sz[q]), dtype=DTYPE)
                    setattr(ret, "Ain_" + q, torch.cat((old, T(E[q]))))
                ret.rhs_in = T(rhs) if ret.rhs_in is None else torch.cat(
                    (ret.rhs_in, T(rhs)))
            bname = name + "_bin"
            if nb and not newbin:
                vt = {"C": "C", "B": "B", "R": "B"}[bt]
                lb = bnd.get("binary_lo", np.zeros(nb))
                ub = bnd.get("binary_up", np.ones(nb))
                bname = mip.addVars(nb, lb=T(lb), ub=T(ub), vtype=VT[vt],
                                    name=bname)
                sl, bi = mip.add_mixed_integer_linear_constraints(
                    ret, [V[i] for i in xin],
                    [V[i] for i in xout] if xout else None, name + "_slack",
                    bname, name + "_in", name + "_eq", name + "_out", VT[vt])
                c.require(all(a is b for a, b in zip(bi, bname)),
                          "given_binary", "given binaries must be used")
            else:
                sl, bi = mip.add_mixed_integer_linear_constraints(
                    ret, [V[i] for i in xin],
                    [V[i] for i in xout] if xout else None, name + "_slack",
                    bname, name + "_in", name + "_eq", name + "_out", VT[bt])
            c.require(len(sl) == ns and len(bi) == nb, "set_sizes",
                      "slack/binary variables returned", got=(len(sl),
                                                              len(bi)),
                      expected=(ns, nb))
            V.extend(sl)
            V.extend(bi)
            c.ev("constraint_set")
    return mip, V


def intended(ops, vals):
    """Independent interpretation: kinds and '<=' rows {var: coef}, rhs."""
    kinds, rows, eqs = [], [], []

    def le(d, r):
        rows.append((d, r))

    def eq(d, r):
        eqs.append((d, r))

    def var(kind, lo, up):
        k = len(kinds)
        kinds.append(kind)
        if lo == up:
            eq({k: 1.}, lo)
        else:
            if lo > -INF:
                le({k: -1.}, -lo)
            if up < INF:
                le({k: 1.}, up)
        return k

    def add(sense, d, r):
        if sense == "=":
            eq(d, r)
        elif sense == "<":
            le(d, r)
        else:
            le({k: -v for k, v in d.items()}, -r)

    for op in ops:
        if op[0] == "vars":
            _, n, k, lo, up, name = op
            for i in range(n):
                var(k, lo if isinstance(lo, float) else lo[i],
                    up if isinstance(up, float) else up[i])
        elif op[0] == "lin":
            _, groups, co, sense, rhs, _, _ = op
            d = {}
            for g, q in zip(groups, co):
                for i, v in enumerate(g):
                    d[v] = vals[q][i]
            add(sense, d, float(vals[rhs]))
        elif op[0] == "mat":
            _, groups, co, sense, rhs, _ = op
            for k in range(len(vals[rhs])):
                d = {}
                for g, q in zip(groups, co):
                    for i, v in enumerate(g):
                        d[v] = vals[q][k, i]
                add(sense, d, float(vals[rhs][k]))
        else:
            _, xin, xout, ns, nb, blk, bnd, bt, newbin, name = op
            s0 = len(kinds)
            for i in range(ns):
                var("C", -INF, INF)
            b0 = len(kinds)
            for i in range(nb):
                if newbin:
                    var(bt, 0., 1.)
                else:
                    var("B" if bt == "R" else bt,
                        bnd.get("binary_lo", np.zeros(nb))[i],
                        bnd.get("binary_up", np.ones(nb))[i])
            idx = {"input": list(xin), "slack": list(range(s0, s0 + ns)),
                   "binary": list(range(b0, b0 + nb))}
            for kind in ("in", "eq", "out"):
                n = {"in": "rhs_in", "eq": "rhs_eq"}.get(kind)
                if n is not None:
                    if n not in blk:
                        continue
                    rhs = vals[blk[n]]
                elif not xout:
                    continue
                else:
                    rhs = -vals[blk["Cout"]] if "Cout" in blk else \
                        np.zeros(len(xout))
                for r in range(len(rhs)):
                    d = {}
                    for nm in idx:
                        q = blk.get("A%s_%s" % (kind, nm))
                        if q is not None:
                            for i, v in enumerate(idx[nm]):
                                d[v] = d.get(v, 0.) + vals[q][r, i]
                    if kind == "out":
                        d[xout[r]] = d.get(xout[r], 0.) - 1.
                    add("<" if kind == "in" else "=", d, float(rhs[r]))
            for nm, j, side, val in bound_rows(bnd):
                if nm in ("slack", "binary") and j >= len(idx[nm]):
                    continue
                sg = 1. if side == "up" else -1.
                le({idx[nm][j]: sg}, sg * val)
    return kinds, rows, eqs


def canon(rows):
    """Canonical set of '<=' half-spaces; single-variable rows: tightest."""
    out = set()
    single = {}
    for d, r in rows:
        d = {k: v for k, v in d.items() if v != 0.}
        if not d:
            if r < 0:
                out.add(("infeasible", ))
            continue
        if len(d) == 1:
            (k, v), = d.items()
            key = (k, 1 if v > 0 else -1)
            b = r / abs(v)
            if key not in single or b < single[key]:
                single[key] = b
            continue
        s = max(abs(v) for v in d.values())
        out.add((tuple(sorted((k, round(v / s, 7) + 0.)
                              for k, v in d.items())), round(r / s, 7) + 0.))
    for (k, s), b in single.items():
        if abs(b) < 1e90:
            out.add((((k, float(s)), ), round(b, 7) + 0.))
    return out


def both(rows, eqs):
    R = list(rows)
    for d, r in eqs:
        R.append((d, r))
        R.append(({k: -v for k, v in d.items()}, -r))
    return R


def recorded_rows(mip, pos):
    """Rows from the public accessors of the recorded data."""
    nz = len(mip.zeta)
    Ar, Az, b = mip.get_inequality_constraints()
    Ar, Az, b = N(Ar), N(Az), N(b)
    rows = []
    for k in range(len(b)):
        d = {pos[id(mip.r[j])]: Ar[k, j] for j in range(len(mip.r))}
        d.update({pos[id(mip.zeta[j])]: Az[k, j] for j in range(nz)})
        rows.append((d, b[k]))
    A0, b0 = mip.get_active_constraints(set(), torch.zeros(nz, dtype=DTYPE))
    A0, b0 = N(A0), N(b0)
    cols = []
    for j in range(nz):
        e = torch.zeros(nz, dtype=DTYPE)
        e[j] = 1.
        _, bj = mip.get_active_constraints(set(), e)
        cols.append(b0 - N(bj))
    eqs = []
    for k in range(len(b0)):
        d = {pos[id(mip.r[j])]: A0[k, j] for j in range(len(mip.r))}
        d.update({pos[id(mip.zeta[j])]: cols[j][k] for j in range(nz)})
        eqs.append((d, b0[k]))
    return rows, eqs


def solver_rows(mip, pos):
    m = mip.gurobi_model
    m.update()
    rows, eqs = [], []
    for con in m.getConstrs():
        e = m.getRow(con)
        d = {}
        for t in range(e.size()):
            k = pos[id(e.getVar(t))]
            d[k] = d.get(k, 0.) + e.getCoeff(t)
        r = con.RHS
        if con.Sense == "=":
            eqs.append((d, r))
        elif con.Sense == "<":
            rows.append((d, r))
        else:
            rows.append(({k: -v for k, v in d.items()}, -r))
    for v in m.getVars():
        if v.lb > -1e90:
            rows.append(({pos[id(v)]: -1.}, -v.lb))
        if v.ub < 1e90:
            rows.append(({pos[id(v)]: 1.}, v.ub))
    return rows, eqs


def same(c, A, B, mech, what, ops):
    if A != B:
        c.require(False, mech, what, only_first=sorted(map(str, A - B))[:4],
                  only_second=sorted(map(str, B - A))[:4],
                  ops=[o[0] for o in ops])
    c.require(True, mech)


@chk.section(quick=2500, thorough=12000)
def history(c, rng, i):
    ops, D = gen_history(rng)
    L = leaf_tensors(D)
    cls = [gtm.GurobiTorchMILP, gtm.GurobiTorchMIQP,
           gtm.GurobiTorchMIP][i % 3]
    mip, V = replay(c, ops, D, L, cls)
    kinds, rows, eqs = intended(ops, D.leaves)
    c.require(len(V) == len(kinds), "num_vars", "", got=len(V),
              expected=len(kinds))
    m = mip.gurobi_model
    m.update()
    pos = {id(v): k for k, v in enumerate(V)}
    c.require(len(pos) == len(V) and len(m.getVars()) == len(V),
              "model_vars", "solver variables", got=len(m.getVars()),
              expected=len(V))
    # bookkeeping of r and zeta
    rz = [id(v) for v in mip.r], [id(v) for v in mip.zeta]
    c.require(sorted(pos[q] for q in rz[0]) == [k for k in range(len(V)) if
                                                kinds[k] == "C"], "r_list",
              "continuous variables")
    c.require(sorted(pos[q] for q in rz[1]) == [k for k in range(len(V)) if
                                                kinds[k] != "C"],
              "zeta_list", "binary variables")
    for lst, ind in ((mip.r, mip.r_indices), (mip.zeta, mip.zeta_indices)):
        c.require(all(ind[v] == k for k, v in enumerate(lst)) and
                  len(ind) == len(lst), "indices", "index maps")
    want_t = {"C": "C", "B": "B", "R": "C"}
    for k, v in enumerate(V):
        c.require(v.vtype == want_t[kinds[k]], "vtype", "solver type",
                  got=v.vtype, kind=kinds[k])
    zb = []
    for k in range(len(V)):
        if kinds[k] != "C":
            zb += [({k: 1.}, 1.), ({k: -1.}, 0.)]
    I = canon(both(rows, eqs) + zb)
    same(c, canon(both(*solver_rows(mip, pos)) + zb), I, "solver_program",
         "solver program vs requested program", ops)
    # the bounds of binaries are kept by the solver only (they do not
    # constrain r): judge the recorded rows without them
    rrows, reqs = recorded_rows(mip, pos)

    def strip(S):
        return {q for q in S if not (len(q) == 2 and len(q[0]) == 1 and
                                     kinds[q[0][0][0]] != "C")}

    same(c, strip(canon(both(rrows, reqs) + zb)), strip(I), "recorded_data",
         "recorded data vs requested program", ops)
    ncons = sum(o[0] != "vars" for o in ops)
    if ncons:
        c.key([(o[0], ) + tuple(str(q) for q in o[1:4]) for o in ops])
    # a set of active rows and a binary assignment
    if len(rrows):
        act = set(int(q) for q in rng.permutation(len(rrows))[
            :int(rng.integers(1, len(rrows) + 1))])
        z = T((rng.random(len(mip.zeta)) < .5).astype(float))
        A, b = mip.get_active_constraints(act, z)
        zz = {pos[id(v)]: float(z[j]) for j, v in enumerate(mip.zeta)}
        want = []
        for d, r in reqs + [rrows[k] for k in act]:
            row = [d[pos[id(v)]] for v in mip.r]
            want.append(tuple(np.round(row + [r - sum(
                d[k] * q for k, q in zz.items())], 7) + 0.))
        got = [tuple(np.round(np.append(N(A)[k], N(b)[k]), 7) + 0.)
               for k in range(len(b))]
        c.require(sorted(got) == sorted(want), "active_constraints",
                  "active constraints for a binary assignment",
                  got=sorted(got)[:4], expected=sorted(want)[:4])
        c.ev("active_sets")
    # differentiability: recorded data are a linear function of the leaves
    shift = [rng.normal(size=v.shape) * .37 for v in D.leaves]
    if D.leaves and i % 2 == 0:
        nz = len(mip.zeta)
        z = T((rng.random(nz) < .5).astype(float))
        o1 = list(mip.get_inequality_constraints()) + list(
            mip.get_active_constraints(set(), z))
        mip2, _ = replay(c, [op if op[0] != "lin" else
                             op[:5] + (False, ) + op[6:] for op in ops], D,
                         leaf_tensors(D, shift), cls)
        o2 = list(mip2.get_inequality_constraints()) + list(
            mip2.get_active_constraints(set(), z))
        floats = set(op[4] for op in ops if op[0] == "lin" and op[5])
        G = [T(rng.normal(size=tuple(t.shape))) for t in o1]
        s = sum((g * t).sum() for g, t in zip(G, o1))
        if s.requires_grad:
            gr = torch.autograd.grad(s, L, allow_unused=True)
            dd = sum(float((g * T(h)).sum()) for g, h in zip(gr, shift)
                     if g is not None)
            # leaves handed over as plain floats are constants
            sh0 = [h if k not in floats else 0. * h
                   for k, h in enumerate(shift)]
            mip3, _ = replay(c, ops, D, leaf_tensors(D, sh0), cls)
            o3 = list(mip3.get_inequality_constraints()) + list(
                mip3.get_active_constraints(set(), z))
            fd = sum(float((g * (b - a)).sum()) for g, a, b in
                     zip(G, o1, o3))
            c.close(dd, fd, "recorded_gradient",
                    "autograd of the recorded data along a data change",
                    1e-7)
            c.ev("gradients")
        del o2
    # relaxing / restoring binaries only changes the type
    before = solver_rows(mip, pos)
    mip.remove_binary_relaxation()
    for k, v in enumerate(V):
        c.require(v.vtype == ("C" if kinds[k] == "C" else "B"),
                  "restored_type", "type after remove_binary_relaxation",
                  got=v.vtype, kind=kinds[k])
    same(c, canon(both(*before) + zb),
         canon(both(*solver_rows(mip, pos)) + zb), "restore_changes_rows",
         "remove_binary_relaxation changed the program", ops)
    if i < 3:
        c.note(operations=[o[0] for o in ops], variables=len(V),
               rows=len(rows) + len(eqs))


@chk.section(quick=300, thorough=800)
def rejected(c, rng, i):
    """A variable used twice or unknown must be refused, not mis-recorded."""
    mip = gtm.GurobiTorchMILP(DTYPE)
    x = mip.addVars(3, lb=-1., ub=1.)
    b = mip.addVars(2, vtype=[GRB.BINARY, gtm.BINARYRELAX][i % 2], lb=0.,
                    ub=1.)
    j = int(rng.integers(3))
    dup = [x[j], x[(j + 1) % 3]] if i % 3 else [b[0], x[0]]
    again = [dup[0]]
    sense = SN["<=>"[int(rng.integers(3))]]
    ok = False
    try:
        mip.addLConstr([T(rng.normal(size=2)), T(rng.normal(size=1))],
                       [dup, again], sense=sense, rhs=0.)
    except Exception:
        ok = True
    c.require(ok, "duplicate_accepted",
              "addLConstr accepted a variable that occurs twice")
    other = gtm.GurobiTorchMILP(DTYPE)
    y = other.addVars(1)
    ok = False
    try:
        mip.addLConstr([T([1.])], [y], sense=sense, rhs=0.)
    except Exception:
        ok = True
    c.require(ok, "unknown_accepted",
              "addLConstr accepted a variable of another program")
    ok = False
    try:
        mip.addVars(1, vtype="I")
    except Exception:
        ok = True
    c.require(ok, "type_accepted", "an integer variable was accepted")
    # objectives: an occurrence more is an error or counts, it is never lost
    for quad in (False, True):
        m = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(DTYPE)
        V = m.addVars(2, lb=-1., ub=1.) + m.addVars(
            2, vtype=[GRB.BINARY, gtm.BINARYRELAX][i % 2], lb=0., ub=1.)
        k = int(rng.integers(4))
        o = [V[t] for t in rng.permutation(4)[:int(rng.integers(1, 5))]]
        if not any(v is V[k] for v in o):
            o.append(V[k])
        cs = [rng.normal(size=len(o)), rng.normal(size=1)]
        vs = [o, [V[k]]]
        x = [rng.uniform(-1, 1), rng.uniform(-1, 1), 1., 1.]
        at = {id(v): t for v, t in zip(V, x)}
        want = sum(float(a) * at[id(v)] for a_, v_ in zip(cs, vs)
                   for a, v in zip(a_, v_)) + .5
        cs = [T(a) for a in cs]
        try:
            if quad:
                m.setObjective([], [], cs, vs, .5, GRB.MINIMIZE)
            else:
                m.setObjective(cs, vs, .5, GRB.MINIMIZE)
        except Exception:
            c.ev("objective refused")
            continue
        got = float(m.c_r @ T(x[:2]) + m.c_zeta @ T(x[2:]) + m.c_constant)
        c.close(got, want, "duplicate_lost", "an objective with a variable "
                "that occurs twice", 1e-9, quad=quad, k=k)
    # quadratic part: the same pair twice
    m = gtm.GurobiTorchMIQP(DTYPE)
    V = m.addVars(2, lb=-1., ub=1.) + m.addVars(
        2, vtype=GRB.BINARY, lb=0., ub=1.)
    a, b = (V[int(t)] for t in rng.integers(4, size=2))
    q = rng.normal(size=2)
    x = T(rng.uniform(-1, 1, 4))
    at = {id(v): float(t) for v, t in zip(V, x)}
    try:
        m.setObjective([T([[q[0]]]), T([[q[1]]])], [([a], [b]), ([a], [b])],
                       [T([0.])], [[V[0]]], 0., GRB.MINIMIZE)
    except Exception:
        c.ev("quadratic objective refused")
    else:
        xr, xz = x[:2], x[2:]
        got = float(xr @ m.Q_r @ xr + xz @ m.Q_zeta @ xz +
                    xr @ m.Q_rzeta @ xz)
        c.close(got, q.sum() * at[id(a)] * at[id(b)], "duplicate_lost",
                "a quadratic objective with a pair that occurs twice", 1e-9)
    c.key(j, i % 6, sense)


@chk.section(quick=600, thorough=4000)
def objective(c, rng, i):
    """The objective of a program is exactly the one last set, whatever was
    set before, in the recorded data and in the solver alike."""
    quad = bool(i % 2)
    m = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(DTYPE)
    V, real = [], []

    def more():
        for b in (False, True):
            k = int(rng.integers(0 if V else 1, 4))
            if not k:
                continue
            if b:
                V.extend(m.addVars(k, lb=0., ub=1., vtype=[
                    GRB.BINARY, gtm.BINARYRELAX][int(rng.integers(2))]))
            else:
                V.extend(m.addVars(k, lb=-2., ub=2.))
            real.extend([not b] * k)
    more()
    n_set = int(rng.integers(1, 5))
    for s in range(n_set):
        if s and rng.random() < .3:
            more()
        n = len(V)
        # linear part: disjoint pieces of a random subset, in any order
        o = list(rng.permutation(n)[:int(rng.integers(0 if quad else 1,
                                                      n + 1))])
        vs, cs = [], []
        while o:
            k = int(rng.integers(1, len(o) + 1))
            vs.append(o[:k])
            cs.append(T(rng.normal(size=k)).requires_grad_(rng.random() < .6))
            o = o[k:]
        c0 = float(rng.normal())
        c0t = torch.tensor(c0, dtype=DTYPE) if rng.random() < .5 else c0
        sense = [GRB.MINIMIZE, GRB.MAXIMIZE][int(rng.integers(2))]
        lv = [[V[k] for k in v] for v in vs]
        qs, qv = [], []
        if quad:
            L = list(rng.permutation(n))
            cut = int(rng.integers(1, n + 1))
            for blk in (L[:cut], L[cut:]):
                for t in (True, False):
                    b = [k for k in blk if real[k] == t]
                    if b and rng.random() < .7:
                        qv.append((b, b))
            if cut < n and rng.random() < .5:
                # one direction only; the order of the pair is free
                qv.append((L[:cut], L[cut:]) if rng.random() < .5 else
                          (L[cut:], L[:cut]))
            qs = [T(rng.normal(size=(len(a), len(b)))) for a, b in qv]
            m.setObjective(qs, [([V[k] for k in a], [V[k] for k in b])
                                for a, b in qv], cs, lv, c0t, sense)
        else:
            m.setObjective(cs, lv, c0t, sense)
        c.require(m.sense == sense and m.gurobi_model.ModelSense == sense
                  or m.gurobi_model.update() is None
                  and m.gurobi_model.ModelSense == sense,
                  "objective_sense", "sense of the objective last set",
                  want=sense, got=m.sense)
        m.gurobi_model.update()
        e = m.gurobi_model.getObjective()
        le = e.getLinExpr() if hasattr(e, "getLinExpr") else e
        at = {id(v): k for k, v in enumerate(V)}
        for _ in range(2):
            x = rng.uniform(-2, 2, size=n)
            want = c0 + sum(float(a.detach() @ T(x[v])) for a, v in
                            zip(cs, vs)) + sum(
                float(T(x[a]) @ q @ T(x[b])) for q, (a, b) in zip(qs, qv))
            xr = T(x[np.array(real)])
            xz = T(x[~np.array(real)])
            rec = m.c_r @ xr + m.c_zeta @ xz + m.c_constant
            if quad:
                rec = rec + xr @ m.Q_r @ xr + xz @ m.Q_zeta @ xz + \
                    xr @ m.Q_rzeta @ xz
            c.close(float(rec.detach()), want, "objective_recorded",
                    "recorded objective at a point", 1e-9, quad=quad,
                    setting=s)
            got = le.getConstant() + sum(
                le.getCoeff(k) * x[at[id(le.getVar(k))]]
                for k in range(le.size()))
            if e is not le:
                got += sum(e.getCoeff(k) * x[at[id(e.getVar1(k))]] *
                           x[at[id(e.getVar2(k))]] for k in range(e.size()))
            c.close(float(got), want, "objective_solver",
                    "the solver's objective at a point", 1e-9, quad=quad,
                    setting=s)
        leaves = [(a, v) for a, v in zip(cs, vs) if a.requires_grad]
        if leaves:
            g = torch.autograd.grad(rec, [a for a, _ in leaves])
            for h, (a, v) in zip(g, leaves):
                c.close(h, x[v], "objective_gradient", "gradient of the "
                        "recorded objective in its coefficients", 1e-9)
        c.ev("objectives set" if s == 0 else "objectives set again")
    c.key(quad, n_set, tuple(real), c0)


if __name__ == "__main__":
    chk.main()

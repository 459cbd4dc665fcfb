"""P08: recomputed MIP objective and its gradient."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, DTYPE  # noqa: E402
import gurobipy  # noqa: E402
import scipy.optimize  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402

chk = Check("P08", rule="random bounded feasible MILPs / convex MIQPs: 1-4 "
            "continuous, 0-4 binary variables, 0-5 rows of every sense, "
            "boxes, minimize/maximize, pools of 1-4 solutions, given or "
            "default penalty; gradients compared where the fixed-binary "
            "program is non-degenerate; non-trivial: distinct program data "
            "whose recomputed objective was judged",
            assumptions=["MIQP objectives are convex (minimize) or concave "
                         "(maximize) in the continuous variables, positive "
                         "penalty as documented"])
GRB = gurobipy.GRB
NAMES = ("A", "B", "b", "lo", "up", "cr", "cz", "c0", "Qr", "Qz", "Qrz")


def gen(rng, quad):
    nr, nz = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    m = int(rng.integers(0, 6))
    d = {}
    lo = rng.normal(size=nr) - .5
    up = lo + rng.uniform(.3, 3., size=nr)
    if nr >= 3 and rng.random() < .3:  # a variable fixed by its bounds
        j = int(rng.integers(nr))
        up[j] = lo[j]
    r0 = lo + (up - lo) * rng.random(nr)
    z0 = (rng.random(nz) < .5).astype(float)
    A = rng.normal(size=(m, nr)) * (rng.random((m, nr)) < .8)
    # rows of very small norm make the documented penalty visible
    for k in range(m):
        while np.linalg.norm(A[k]) < .3:
            A[k] = rng.normal(size=nr)
    B = rng.normal(size=(m, nz)) * (rng.random((m, nz)) < .6)
    senses = ["<=>"[int(rng.choice(3, p=[.5, .1, .4]))] for _ in range(m)]
    if nr == 1:
        senses = [s if s != "=" else "<" for s in senses]
    if senses.count("=") + np.sum(lo == up) >= nr:
        senses = ["<" if s == "=" else s for s in senses]
    b = A @ r0 + B @ z0
    for k, s in enumerate(senses):
        sl = rng.uniform(0., 1.)
        if s == "=":
            sl = 0.
            B[k] = 0.  # keeps several assignments feasible
            b[k] = A[k] @ r0
        b[k] += sl if s == "<" else -sl
    if m and rng.random() < .2:  # redundant copies of rows
        for k in rng.integers(m, size=int(rng.integers(1, 3))):
            if senses[k] == "=":
                continue
            w = float(rng.choice([1., 2., .5]))
            A, B = np.vstack((A, w * A[k])), np.vstack((B, w * B[k]))
            b = np.append(b, w * b[k])
            senses.append(senses[k])
    d["A"], d["B"], d["b"], d["lo"], d["up"] = A, B, b, lo, up
    d["cr"] = rng.normal(size=nr)
    d["cz"] = rng.normal(size=nz)
    d["c0"] = np.array(rng.normal())
    mx = bool(rng.random() < .5)
    if quad:
        M = rng.normal(size=(nr, nr)) * .8
        Q = M @ M.T + .2 * np.eye(nr)
        # Q_r need not be symmetric: only its symmetric part matters
        S = rng.normal(size=(nr, nr))
        sym = bool(rng.random() < .5)
        Q = Q + (0. if sym else 1.) * (S - S.T)
        d["Qr"] = -Q if mx else Q
        d["Qz"] = rng.normal(size=(nz, nz)) * (rng.random() < .7)
        d["Qrz"] = rng.normal(size=(nr, nz)) * (rng.random() < .7)
    else:
        d["Qr"] = np.zeros((nr, nr))
        d["Qz"] = np.zeros((nz, nz))
        d["Qrz"] = np.zeros((nr, nz))
    return d, senses, mx, nr, nz


def build(d, senses, mx, nr, nz, quad, how, pool):
    mip = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(DTYPE)
    r = mip.addVars(nr, lb=d["lo"], ub=d["up"], name="r")
    z = mip.addVars(nz, vtype=GRB.BINARY, name="z", ub=1.) if nz else []
    SN = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}
    for k, s in enumerate(senses):
        if how == 0:
            mip.addLConstr([d["A"][k], d["B"][k]], [r, z], sense=SN[s],
                           rhs=d["b"][k])
        else:
            mip.addMConstr([d["A"][k:k + 1], d["B"][k:k + 1]], [r, z],
                           sense=SN[s], b=d["b"][k:k + 1])
    sense = GRB.MAXIMIZE if mx else GRB.MINIMIZE
    if quad:
        qc = [d["Qr"]]
        qv = [(r, r)]
        if nz:
            qc += [d["Qz"]]
            qv += [(z, z)]
            if how == 0:
                qc += [d["Qrz"]]
                qv += [(r, z)]
            else:
                qc += [d["Qrz"].T]
                qv += [(z, r)]
        mip.setObjective(qc, qv, [d["cr"], d["cz"]], [r, z], d["c0"], sense)
    else:
        mip.setObjective([d["cr"], d["cz"]], [r, z], d["c0"], sense)
    m = mip.gurobi_model
    m.setParam(GRB.Param.OutputFlag, False)
    if pool > 1:
        m.setParam(GRB.Param.PoolSearchMode, 2)
        m.setParam(GRB.Param.PoolSolutions, pool)
    m.optimize()
    return mip, r, z


def ref(d, senses, mx, z, quad, r_guess=None):
    """Optimal value of the continuous program with the binaries fixed."""
    A, b = d["A"], d["b"] - d["B"] @ z
    le = [k for k, s in enumerate(senses) if s == "<"]
    ge = [k for k, s in enumerate(senses) if s == ">"]
    eq = [k for k, s in enumerate(senses) if s == "="]
    Aub = np.vstack((A[le], -A[ge]))
    bub = np.concatenate((b[le], -b[ge]))
    sg = -1. if mx else 1.
    c = d["cr"] + d["Qrz"] @ z
    c0 = float(d["c0"]) + d["cz"] @ z + z @ d["Qz"] @ z
    if not quad:
        s = scipy.optimize.linprog(
            sg * c, Aub if len(bub) else None, bub if len(bub) else None,
            A[eq] if eq else None, b[eq] if eq else None,
            list(zip(d["lo"], d["up"])), method="highs-ds",
            options={"primal_feasibility_tolerance": 1e-10,
                     "dual_feasibility_tolerance": 1e-10})
        if s.status != 0:
            return None
        r = s.x
        return c @ r + c0, r, c
    # strictly convex QP by active-set enumeration on the given candidate rows
    rows = [(A[k], b[k], "=") for k in eq]
    ineq = [(Aub[k], bub[k]) for k in range(len(bub))]
    n = len(c)
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.
        ineq.append((e, d["up"][j]))
        ineq.append((-e, -d["lo"][j]))
    Q = sg * (d["Qr"] + d["Qr"].T)
    cc = sg * c
    import itertools
    Aeq = np.array([q[0] for q in rows]).reshape(-1, n)
    beq = np.array([q[1] for q in rows])
    G = np.array([q[0] for q in ineq])
    h = np.array([q[1] for q in ineq])
    for kk in range(0, n - len(rows) + 1):
        for S in itertools.combinations(range(len(ineq)), kk):
            E = np.vstack((Aeq, G[list(S)]))
            f = np.concatenate((beq, h[list(S)]))
            K = np.block([[Q, E.T], [E, np.zeros((len(f), len(f)))]])
            if abs(np.linalg.det(K)) < 1e-9:
                continue
            s = np.linalg.solve(K, np.concatenate((-cc, f)))
            r, lam = s[:n], s[n + len(rows):]
            if np.all(G @ r <= h + 1e-9) and np.all(lam >= -1e-9):
                return r @ d["Qr"] @ r + c @ r + c0, r, c
    return None


def fd_dir(d, dv, senses, mx, z, quad):
    """(derivative, exists) along dv of the fixed-binary optimal value."""
    def val(h):
        e = {k: d[k] + h * dv[k] for k in d}
        v = ref(e, senses, mx, z, quad)
        return None if v is None else v[0]

    out = []
    v0 = val(0.)
    for h in (1e-4, 3e-5):
        p, m_ = val(h), val(-h)
        if v0 is None or p is None or m_ is None:
            return None
        a, b_ = (p - v0) / h, (v0 - m_) / h
        if abs(a - b_) > 4e-2 * (1 + abs(a)) * (h / 1e-4) + 1e-4:
            return None
        out.append(.5 * (a + b_))
    if abs(out[0] - out[1]) > 1e-4 * (1 + abs(out[0])):
        return None
    return out[1]


def nondegenerate(d, senses, mx, z, quad, r):
    """LICQ + strict complementarity of the fixed-binary program at r."""
    A, b = d["A"], d["b"] - d["B"] @ z
    n = len(r)
    E, I = [], []
    near = 0
    for k, s in enumerate(senses):
        g = A[k] @ r - b[k]
        if s == "=":
            E.append(A[k])
        elif abs(g) < 1e-5:
            I.append(A[k] if s == "<" else -A[k])
        elif abs(g) < 1e-2:
            near += 1
    for j in range(n):
        e = np.eye(n)[j]
        if d["lo"][j] == d["up"][j]:
            E.append(e)
            continue
        for g, row in ((r[j] - d["up"][j], e), (d["lo"][j] - r[j], -e)):
            if abs(g) < 1e-5:
                I.append(row)
            elif abs(g) < 1e-2:
                near += 1
    act = np.array(E + I).reshape(-1, n)
    if near:
        return False
    if not quad and len(act) != n:
        return False
    if len(act) > n:
        return False
    if len(act):
        sv = np.linalg.svd(act, compute_uv=False)
        if len(sv) < len(act) or sv[-1] < 2e-2:
            return False
        g = d["cr"] + d["Qrz"] @ z + (d["Qr"] + d["Qr"].T) @ r
        sg = -1. if mx else 1.
        lam = np.linalg.lstsq(act.T, -sg * g, rcond=None)[0]
        if np.any(lam[len(E):] < 2e-2):
            return False
    return True


def multiplier(d, senses, mx, z, r):
    """Norm of the smallest multiplier vector at r."""
    A, b = d["A"], d["b"] - d["B"] @ z
    rows = [A[k] for k, s in enumerate(senses)
            if s == "=" or abs(A[k] @ r - b[k]) < 1e-5]
    for j in range(len(r)):
        if min(abs(r[j] - d["up"][j]), abs(d["lo"][j] - r[j])) < 1e-5:
            rows.append(np.eye(len(r))[j])
    if not rows:
        return 0.
    g = d["cr"] + d["Qrz"] @ z + (d["Qr"] + d["Qr"].T) @ r
    return float(np.linalg.norm(np.linalg.lstsq(
        np.array(rows).T, -g, rcond=None)[0]))


def run(c, rng, i, quad):
    d, senses, mx, nr, nz = gen(rng, quad)
    how = int(rng.integers(2))
    pool = int(rng.integers(1, 5)) if nz else 1
    L = {k: T(d[k]).requires_grad_(True) for k in d}
    mip, r, z = build(L, senses, mx, nr, nz, quad, how, pool)
    m = mip.gurobi_model
    if m.status != GRB.OPTIMAL:
        raise Skip("status %d" % m.status)
    nsol = m.solCount
    # a solver returns its solution only up to its tolerances, and may have
    # been stopped early while holding it
    noise = [0., 0., 1e-7, 4e-6][int(rng.integers(4))]
    if noise:
        m._sols = [(o, x + noise * rng.uniform(-1, 1, size=len(x)))
                   for o, x in m._sols]
        c.ev("solutions_within_tolerance")
    stop = [GRB.OPTIMAL, GRB.OPTIMAL, GRB.INTERRUPTED,
            GRB.TIME_LIMIT][int(rng.integers(4))]
    if stop != GRB.OPTIMAL:
        c.ev("stopped_early")
    # independent best value over the binary assignments
    import itertools
    vals = []
    for zz in itertools.product((0., 1.), repeat=nz):
        v = ref(d, senses, mx, np.array(zz), quad)
        if v is not None:
            vals.append(v[0])
    vals.sort(reverse=mx)
    for k in range(nsol):
        m.setParam(GRB.Param.SolutionNumber, k)
        pv = m.PoolObjVal
        if pool == 1 or k == 0:
            c.close(pv, vals[0], "optimum",
                    "optimum of the program handed to the solver", 1e-5)
        zs = np.array([round(v.xn) for v in mip.zeta], dtype=float)
        rs = np.array([v.xn for v in mip.r])
        pen = 1e-8 if quad else [0., 0., 1e-10][int(rng.integers(3))]
        kw = {} if (not quad and pen == 0.) else {"penalty": pen}
        nd = nondegenerate(d, senses, mx, zs, quad, rs)
        if quad:
            lm = multiplier(d, senses, mx, zs, rs)
            if lm > 60.:
                # the documented penalty perturbs the KKT system by
                # penalty * |multiplier|^2
                c.ev("large_multiplier")
                continue
            nd = nd and lm < 15.
        m._status = stop
        try:
            obj = mip.compute_objective_from_mip_data_and_solution(
                solution_number=k, **kw)
        finally:
            m._status = GRB.OPTIMAL
        c.require(isinstance(obj, torch.Tensor) and obj.dim() == 0,
                  "objective_type", "a scalar tensor is documented",
                  got=type(obj))
        c.close(obj, pv, "recomputed_objective",
                "objective recomputed from the data of solution %d" % k,
                1e-5 if nd and noise < 1e-6 else 1e-3)
        if noise > 1e-6 and abs(float(obj) - pv) > 1e-6 * (1 + abs(pv)):
            # within the documented tolerance, with other active rows
            nd = False
        c.ev("pooled" if k else "best")
        c.key("v", d["A"], d["cr"], k)
        if m.status == GRB.OPTIMAL:
            act, z2 = mip.get_active_constraint_indices_and_binary_val(
                solution_number=k)
            c.require(np.array_equal(N(z2), zs), "binary_solution",
                      "binary values of solution %d" % k, got=N(z2),
                      expected=zs)
            Ar, Az, b = [N(t) for t in mip.get_inequality_constraints()]
            g = np.abs(Ar @ rs + Az @ zs - b)
            c.require(act == set(np.flatnonzero(g < 1e-6)),
                      "active_indices", "active inequality rows",
                      got=act, expected=np.flatnonzero(g < 1e-6))
            if nd and noise < 1e-6:
                o2 = mip.compute_objective_from_mip_data(
                    act, z2, **({"penalty": 1e-8} if quad else {}))
                c.close(o2, pv, "objective_from_active_set",
                        "objective from the active set", 1e-5)
        if not nd:
            c.ev("degenerate")
            continue
        gr = torch.autograd.grad(obj, [L[q] for q in L], allow_unused=True,
                                 retain_graph=True)
        for t in range(3):
            dv = {q: rng.normal(size=d[q].shape) for q in d}
            if t == 1:  # the objective only
                dv = {q: dv[q] * (q in ("cr", "cz", "c0", "Qr", "Qz", "Qrz"))
                      for q in d}
            elif t == 2:
                dv = {q: dv[q] * (q in ("A", "B", "b", "lo", "up"))
                      for q in d}
            if not quad:
                for q in ("Qr", "Qz", "Qrz"):
                    dv[q] = 0. * dv[q]
            fx = d["lo"] == d["up"]  # moved together
            dv["up"][fx] = dv["lo"][fx]
            if np.any(fx):
                c.ev("fixed_variable_gradients")
            fd = fd_dir(d, dv, senses, mx, zs, quad)
            if fd is None:
                c.ev("no_derivative")
                continue
            ad = sum(float((g * T(dv[q])).sum()) for q, g in zip(L, gr)
                     if g is not None)
            c.close(ad, fd, "gradient",
                    "directional derivative of the recomputed objective "
                    "(solution %d, direction %d)" % (k, t), 2e-3,
                    senses=senses, maximize=mx)
            c.ev("gradient_directions")
            c.key("g", d["A"], d["cr"], k, t)
    if i < 3:
        c.note(nr=nr, nz=nz, senses=senses, maximize=mx, solutions=nsol)


@chk.section(quick=500, thorough=12000)
def milp(c, rng, i):
    run(c, rng, i, False)


@chk.section(quick=300, thorough=8000)
def miqp(c, rng, i):
    run(c, rng, i, True)


@chk.section(quick=40, thorough=600)
def refused(c, rng, i):
    """A point that is not described by its active rows is not reported."""
    quad = bool(i % 2)
    mip = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(DTYPE)
    x = mip.addVars(2, lb=-1., ub=1.)
    z = mip.addVars(1, vtype=gtm.BINARYRELAX, lb=0., ub=1.)
    co = T(rng.normal(size=2) + 2.)
    cz = T([1.])
    if quad:
        mip.setObjective([torch.eye(2, dtype=DTYPE)], [(x, x)], [co, cz],
                         [x, z], 0., GRB.MINIMIZE)
    else:
        mip.setObjective([co, cz], [x, z], 0., GRB.MINIMIZE)
    mip.gurobi_model.setParam(GRB.Param.OutputFlag, False)
    mip.gurobi_model.optimize()
    bad = False
    try:
        mip.compute_objective_from_mip_data_and_solution(penalty=1e-8)
    except AssertionError:
        bad = True
    c.require(bad, "relaxed_accepted", "the objective of a program with "
              "relaxed binaries must not be recomputed as a MIP optimum")
    mip.remove_binary_relaxation()
    mip.gurobi_model.optimize()
    o = mip.compute_objective_from_mip_data_and_solution(penalty=1e-8)
    c.close(o, mip.gurobi_model.ObjVal, "recomputed_objective",
            "after restoring the binaries", 1e-5)
    c.key(co)


if __name__ == "__main__":
    chk.main()

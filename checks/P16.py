"""P16: hybrid linear systems: modes, simulation, encoding, bounds."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch, DTYPE  # noqa: E402
from gen import T, N  # noqa: E402
from progs import solve, val, Pin  # noqa: E402
from probe import Blocks, fixed  # noqa: E402
import gurobipy  # noqa: E402
from scipy.optimize import linprog  # noqa: E402
import cvxpy_redirect  # noqa: E402
import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402
import neural_network_lyapunov.gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P16", rule="autonomous and controlled piecewise-affine systems "
            "on random partitions: grids sharing exact boundaries, "
            "overlapping and disjoint polytopes, cut boxes, single modes, "
            "duplicate and redundant faces x states inside, outside, on "
            "shared faces and corners x narrower boxes; non-trivial: distinct "
            "(partition, dynamics)",
            assumptions=["numpy membership and per-mode LPs (scipy)",
                         "solver stand-in, tolerance 1e-6 relative"])
cvxpy_redirect.install()
Exc = hls.AutonomousHybridLinearSystem.StepForwardException


def boxpoly(lo, up):
    n = len(lo)
    return np.vstack((np.eye(n), -np.eye(n))), np.concatenate((up, -lo))


def polytopes(rng, d):
    kind = int(rng.integers(4))
    if kind == 0:  # grid on multiples of 1/4: shared faces are exact
        cuts = [np.cumsum(rng.integers(1, 4, int(rng.integers(1, 3)) + 1)) / 4.
                + int(rng.integers(-4, 3)) / 4. for _ in range(d)]
        idx = np.array(np.meshgrid(*[range(len(v) - 1) for v in cuts])
                       ).reshape(d, -1).T
        cells = [boxpoly(np.array([cuts[j][k[j]] for j in range(d)]),
                         np.array([cuts[j][k[j] + 1] for j in range(d)]))
                 for k in idx]
        cells = [cells[k] for k in rng.permutation(len(cells))][:6]
        name = "grid"
    elif kind == 1:  # boxes that overlap or leave gaps
        cells = []
        for _ in range(int(rng.integers(1, 4))):
            a = rng.integers(-8, 6, d) / 4.
            cells.append(boxpoly(a, a + rng.integers(1, 8, d) / 4.))
        name = "boxes"
    elif kind == 2:  # a box cut by hyperplanes
        a = rng.normal(size=d)
        P, q = boxpoly(a, a + rng.uniform(.5, 3., d))
        cells = [(P, q)]
        for _ in range(int(rng.integers(0, 3))):
            k = int(rng.integers(len(cells)))
            P, q = cells.pop(k)
            h = rng.normal(size=d)
            ctr = (q[:d] - q[d:2 * d]) / 2
            t = float(h @ ctr) + rng.normal() * .1
            cells += [(np.vstack((P, h)), np.append(q, t)),
                      (np.vstack((P, -h)), np.append(q, -t))]
        name = "cut"
    else:  # general polytopes
        cells = []
        for _ in range(int(rng.integers(1, 4))):
            ctr = rng.normal(size=d)
            k = int(rng.integers(0, 4))
            H = rng.normal(size=(k, d))
            P, q = boxpoly(ctr - rng.uniform(.3, 2., d),
                           ctr + rng.uniform(.3, 2., d))
            cells.append((np.vstack((P, H)),
                          np.append(q, H @ ctr + rng.uniform(.05, 1., k))))
        name = "general"
    out = []
    for P, q in cells:
        if rng.random() < .2:  # scaled rows, a repeated row
            s = rng.choice([.5, 2., 4.], len(q))
            P, q = P * s[:, None], q * s
            P, q = np.vstack((P, P[:1])), np.append(q, q[0])
        lp = linprog(np.zeros(d), P, q, bounds=(None, None))
        if lp.status == 0:
            out.append((P, q))
    return out, name


class Sys:
    def __init__(self, rng, controlled):
        self.n = n = int(rng.integers(1, 4))
        self.m = m = int(rng.integers(1, 3)) if controlled else 0
        self.auto = not controlled
        while True:
            cells, name = polytopes(rng, n + m)
            if cells:
                break
        same = rng.random() < .15
        self.modes = []
        for P, q in cells:
            A = rng.normal(size=(n, n)) * (rng.random((n, n)) < .8)
            B = rng.normal(size=(n, m))
            g = rng.normal(size=n) * float(rng.choice([0., 1.]))
            if same and self.modes:
                A, B, g = self.modes[0][:3]
            self.modes.append((A, B, g, P, q))
        if self.auto:
            self.repo = hls.AutonomousHybridLinearSystem(n, DTYPE)
            for A, B, g, P, q in self.modes:
                self.repo.add_mode(T(A), T(g), T(P), T(q))
        else:
            self.repo = hls.HybridLinearSystem(n, m, DTYPE)
            for A, B, g, P, q in self.modes:
                self.repo.add_mode(T(A), T(B), T(g), T(P), T(q))
        self.ext = []
        d = n + m
        for P, q in cells:
            R = []
            for j in range(d):
                e = np.eye(d)[j]
                R.append((lp_max(-e, P, q) * -1, lp_max(e, P, q)))
            self.ext.append(np.array(R))
        self.lo = np.min([R[:, 0] for R in self.ext], axis=0)
        self.up = np.max([R[:, 1] for R in self.ext], axis=0)
        self.desc = (name, n, m, len(cells), tuple(len(q) for _, q in cells))

    def args(self, z):
        return (T(z), ) if self.auto else (T(z[:self.n]), T(z[self.n:]))

    def value(self, k, z):
        A, B, g = self.modes[k][:3]
        return A @ z[:self.n] + B @ z[self.n:] + g

    def inside(self, z, tol=0.):
        return [k for k, (_, _, _, P, q) in enumerate(self.modes)
                if np.all(P @ z <= q + tol)]

    def points(self, rng, k):
        out = [rng.uniform(size=self.n + self.m) *
               (self.up - self.lo + 1.) + self.lo - .5 for _ in range(k)]
        for _ in range(k):  # corners, faces, cell centres
            R = self.ext[int(rng.integers(len(self.ext)))]
            t = rng.choice([0., 1., .5, .25], len(R))
            out.append(R[:, 0] * (1 - t) + R[:, 1] * t)
        for _ in range(k // 2):  # the grid the exact partitions live on
            out.append(np.round((rng.uniform(size=len(self.lo)) *
                                 (self.up - self.lo) + self.lo) * 4) / 4)
        return out


def lp_max(w, P, q, extra=()):
    r = linprog(-w, P, q, bounds=(None, None), method="highs")
    if r.status == 2:
        return None
    if r.status != 0:
        raise Skip("reference LP")
    return -r.fun


@chk.section(quick=360, thorough=12000)
def simulate(c, rng, i):
    S = Sys(rng, i % 2 == 1)
    good = []
    for z in S.points(rng, 8):
        a, b = S.inside(z, 1e-12), S.inside(z, -1e-12)
        ins = S.inside(z)
        exact = np.all(z * 8 == np.round(z * 8)) and S.desc[0] in (
            "grid", "boxes")
        if a != b and not exact:
            c.ev("points within rounding of a face: skipped")
            continue
        ctx = dict(system=S.desc, z=z, inside=ins)
        mode = S.repo.mode(*S.args(z))
        c.require(mode == (ins[0] if ins else None), "mode",
                  "mode of the state", got=mode, **ctx)
        if S.auto:
            try:
                y = S.repo.step_forward(*S.args(z))
            except Exc:
                y = None
        else:
            y, md = S.repo.step_forward(*S.args(z))
            c.require(md == mode, "mode", "mode of the step", got=md, **ctx)
        c.require((y is None) == (not ins), "rejected",
                  "a state outside every mode has a next state (or one "
                  "inside has none)", got=y, **ctx)
        dx = S.repo.possible_dx(*S.args(z))
        c.require(len(dx) == len(ins), "possible", "number of possible next "
                  "states", got=len(dx), **ctx)
        for k, v in zip(ins, dx):
            w = S.value(k, z)
            c.close(N(v), w, "possible", "possible next state", tol=1e-12,
                    scale=1 + np.abs(w).max(), **ctx)
        if ins:
            w = S.value(ins[0], z)
            c.close(N(y), w, "step", "next state", tol=1e-12,
                    scale=1 + np.abs(w).max(), **ctx)
            good.append((z, ins))
            if S.auto:
                k = int(rng.choice(ins))
                c.close(N(S.repo.step_forward(T(z), k)), S.value(k, z),
                        "step_given_mode", "next state in a given mode",
                        tol=1e-12, scale=1 + np.abs(w).max() * 5, **ctx)
        c.ev("points in %s modes" % (len(ins) if len(ins) < 3 else "3+"))
    if good:
        Z = np.array([z for z, _ in good])
        want = np.array([S.value(ins[0], z) for z, ins in good])
        if S.auto:
            got = S.repo.step_forward(T(Z))
        else:
            got, md = S.repo.step_forward(T(Z[:, :S.n]), T(Z[:, S.n:]))
            c.require([int(k) for k in md] == [ins[0] for _, ins in good],
                      "batch", "modes of a batch", got=md)
        c.close(N(got), want, "batch", "batch of next states", tol=1e-12,
                scale=1 + np.abs(want).max(), system=S.desc)
        c.ev("batched states", len(Z))
    c.key(S.desc, S.lo, S.modes[0][0])
    c.note(system=S.desc)


@chk.section(quick=140, thorough=4000)
def bounds(c, rng, i):
    S = Sys(rng, i % 2 == 1)
    n = S.n
    ctx = dict(system=S.desc)
    for k, R in enumerate(S.ext):
        got = np.array((S.repo.x_lo[k], S.repo.x_up[k])).T
        c.close(got, R[:n], "mode_box", "state range of a mode", tol=1e-6,
                scale=1 + np.abs(R).max(), mode=k, **ctx)
        if not S.auto:
            got = np.array((S.repo.u_lo[k], S.repo.u_up[k])).T
            c.close(got, R[n:], "mode_box", "input range of a mode", tol=1e-6,
                    scale=1 + np.abs(R).max(), mode=k, **ctx)
    c.close(np.array((S.repo.x_lo_all, S.repo.x_up_all)),
            np.array((S.lo[:n], S.up[:n])), "box", "state range", tol=1e-6,
            scale=1 + np.abs(S.up).max() + np.abs(S.lo).max(), **ctx)
    if not S.auto:
        c.close(np.array((S.repo.u_lo_all, S.repo.u_up_all)),
                np.array((S.lo[n:], S.up[n:])), "box", "input range",
                tol=1e-6, scale=1 + np.abs(S.up).max() + np.abs(S.lo).max(),
                **ctx)
        c.ev("boxes")
        c.key(S.desc, S.lo)
        return
    tot = []
    for k, (A, _, g, P, q) in enumerate(S.modes):
        lo, up = S.repo.mode_derivative_bounds(k)
        w = np.array([[-lp_max(-a, P, q), lp_max(a, P, q)] for a in A])
        sc = 1 + np.abs(w).max()
        c.close(np.array((lo, up)).T, w, "derivative_bounds",
                "range of A x in a mode", tol=2e-6, scale=sc, mode=k, **ctx)
        tot.append(w + g[:, None])
        c.ev("mode bounds")
    lo = np.min([w[:, 0] for w in tot], axis=0)
    up = np.max([w[:, 1] for w in tot], axis=0)
    c.close(np.array((S.repo.dx_lower, S.repo.dx_upper)), np.array((lo, up)),
            "dx_bounds", "range of the derivative", tol=2e-6,
            scale=1 + np.abs(lo).max() + np.abs(up).max(), **ctx)
    c.key(S.desc, S.lo)
    c.note(system=S.desc, lower=lo, upper=up)


def narrower(rng, S):
    """A box around part of the modes' range (or None for the default)."""
    r = int(rng.integers(3))
    if r == 0:
        return None, S.lo, S.up
    ctr = rng.uniform(size=len(S.lo)) * (S.up - S.lo) + S.lo
    a = np.where(rng.random(len(ctr)) < .6, ctr - rng.uniform(
        .1, 1., len(ctr)), S.lo - .5)
    b = np.where(rng.random(len(ctr)) < .6, ctr + rng.uniform(
        .1, 1., len(ctr)), S.up + .5)
    if r == 2:
        return (a, None), np.maximum(a, S.lo), S.up
    return (a, b), np.maximum(a, S.lo), np.minimum(b, S.up)


@chk.section(quick=240, thorough=7000)
def encode(c, rng, i):
    S = Sys(rng, i % 2 == 1)
    box, lo, up = narrower(rng, S)
    n = S.n
    o = {}
    if box is not None:
        conv = T if rng.random() < .5 else (lambda v: v.copy())
        o["x_lo"] = conv(box[0][:n])
        if box[1] is not None:
            o["x_up"] = conv(box[1][:n])
        if not S.auto:
            o["u_lo"] = conv(box[0][n:])
            if box[1] is not None:
                o["u_up"] = conv(box[1][n:])
    r = S.repo.mixed_integer_constraints(**o)
    c.require(r.num_eq() >= 0 and r.num_ineq() > 0 and r.num_input() ==
              n + S.m and r.num_out() == n, "sizes", "sizes of the blocks",
              system=S.desc)
    blk = Blocks(r, nx=n + S.m)
    pts = [z for z in S.points(rng, 5)]
    for z in [pts[k] for k in rng.permutation(len(pts))[:6]]:
        near = S.inside(z, 1e-6)
        exact = np.all(z * 8 == np.round(z * 8)) and S.desc[0] in (
            "grid", "boxes")
        ins = S.inside(z) if exact else S.inside(z, -1e-6)
        if near != ins and not exact:
            c.ev("points near a face: skipped")
            continue
        slack = min((z - lo).min(), (up - z).min())
        if box is not None and abs(slack) < 1e-6:
            continue
        if slack < -1e-6:
            ins = []
        pr = blk.model(fixed("input", z))
        ctx = dict(system=S.desc, z=z, inside=ins, box=box)
        if not ins:
            c.require(not pr.feasible(), "excluded", "a state outside every "
                      "mode (or the box) is admitted", **ctx)
            c.ev("points excluded")
            continue
        V = np.array([S.value(k, z) for k in ins])
        W = np.vstack((np.eye(n), rng.normal(size=(3, n))))
        for w in W:
            coef = {g: w @ A for g, A in blk.Aout.items()}
            C = 0. if blk.Cout is None else float(w @ blk.Cout.reshape(-1))
            R = pr.range(coef, C)
            c.require(R is not None, "admitted", "no next state admitted",
                      **ctx)
            t = 2e-6 * (1 + np.abs(V).max()) * (1 + np.abs(w).sum())
            c.require(abs(R[0] - (V @ w).min()) < t and
                      abs(R[1] - (V @ w).max()) < t, "next_states",
                      "extent of the admitted next states", got=R,
                      want=((V @ w).min(), (V @ w).max()), **ctx)
        c.ev("points in %d modes" % min(len(ins), 3))
    c.key(S.desc, S.lo, box is None)
    c.note(system=S.desc)


@chk.section(quick=160, thorough=4000)
def program(c, rng, i):
    """Optima over the states and next states vs one LP per mode."""
    S = Sys(rng, i % 2 == 1)
    n, m = S.n, S.m
    mip = gtm.GurobiTorchMILP(DTYPE)
    inf = gurobipy.GRB.INFINITY
    free = rng.random() < .5
    x = mip.addVars(n, lb=-inf) if free else mip.addVars(
        n, lb=T(S.lo[:n]), ub=T(S.up[:n]))
    y = mip.addVars(n, lb=-inf)
    relax = i % 4 >= 2
    bt = gtm.BINARYRELAX if relax else gurobipy.GRB.BINARY
    if S.auto:
        S.repo.add_dynamics_constraint(mip, x, y, "s", "b", bt)
        u = []
    else:
        u = mip.addVars(m, lb=-inf)
        S.repo.add_dynamics_constraint(mip, x, y, u, "s", "b",
                                       binary_var_type=bt)
    w = rng.normal(size=n + m)
    v = rng.normal(size=n)
    sg = (gurobipy.GRB.MAXIMIZE, gurobipy.GRB.MINIMIZE)[int(rng.integers(2))]
    mip.setObjective([T(w), T(v)], [x + u, y], .5, sg)
    s = 1. if sg == gurobipy.GRB.MAXIMIZE else -1.
    best = -np.inf
    for A, B, g, P, q in S.modes:
        cc = w + np.concatenate((v @ A, v @ B))
        t = lp_max(s * cc, P, q)
        best = max(best, t + s * (v @ g))
    best = s * best + .5
    opt = solve(mip)
    ctx = dict(system=S.desc, best=best, opt=opt)
    t = 3e-6 * (1 + abs(best))
    c.require(opt is not None, "feasible", "no state admitted", **ctx)
    if relax:
        c.require(s * (opt - best) > -t, "relaxation", "the relaxation cuts "
                  "off the optimum", **ctx)
        mip.remove_binary_relaxation()
        opt = solve(mip)
        c.require(opt is not None, "feasible", "no state admitted", **ctx)
        ctx["opt"] = opt
    c.require(abs(opt - best) < t, "optimum", "optimum over the dynamics",
              **ctx)
    z = val(x + u)
    yv = val(y)
    c.require(any(np.abs(S.value(k, z) - yv).max() < 3e-6 *
                  (1 + np.abs(yv).max() + np.abs(z).max())
                  for k in S.inside(z, 1e-5)), "solution",
              "reported next state is not one of the system's", z=z, y=yv,
              **ctx)
    pin = Pin(mip, x + u)
    for z in S.points(rng, 2):
        a, b = S.inside(z, 1e-6), S.inside(z, -1e-6)
        if a != b:
            continue
        got = pin.at(z)
        if not a:
            c.require(got is None, "excluded", "a state outside every mode "
                      "is admitted", z=z, **ctx)
        else:
            e = max(s * (w @ z + v @ S.value(k, z)) for k in a) * s + .5
            c.require(got is not None and abs(got - e) < 5e-6 * (1 + abs(e)),
                      "pinned", "optimum at a state", z=z, got=got, want=e,
                      **ctx)
        c.ev("states pinned")
    c.key(S.desc, S.lo, relax)
    c.note(system=S.desc, optimum=opt)


def escapes(P):
    """Whether P d <= 0 has a nonzero solution (None when too close)."""
    out = False
    for j in range(P.shape[1]):
        for sg in (1., -1.):
            e = np.zeros(P.shape[1])
            e[j] = 1.
            r = linprog(np.zeros(P.shape[1]), P, np.zeros(len(P)),
                        A_eq=e[None], b_eq=[sg], bounds=(None, None),
                        method="highs")
            # the same with every face turned by a little
            t = linprog(np.append(np.zeros(P.shape[1]), 1.),
                        np.hstack((P, -np.ones((len(P), 1)))),
                        np.zeros(len(P)), A_eq=np.append(e, 0.)[None],
                        b_eq=[sg], bounds=(None, None), method="highs")
            if r.status not in (0, 2) or t.status not in (0, 3):
                return None
            if t.status == 0 and 1e-9 < t.fun < 1e-4:
                return None
            out = out or r.status == 0
    return out


@chk.section(quick=240, thorough=5000, floor=.6)
def unbounded(c, rng, i):
    """Modes whose polyhedron is unbounded are refused when asked to."""
    S = Sys(rng, i % 2 == 1)
    n, m = S.n, S.m
    if S.auto:
        new = hls.AutonomousHybridLinearSystem(n, DTYPE)
    else:
        new = hls.HybridLinearSystem(n, m, DTYPE)
    count = 0
    for A, B, g, P, q in S.modes:
        for drop in (False, True):
            if drop:  # open some of the faces first
                if rng.random() < .5:
                    continue
                keep = rng.random(len(q)) < rng.uniform(.4, .95)
                if not keep.any():
                    continue
                P, q = P[keep], q[keep]
            s = rng.choice([1., .1, 30.], len(q))
            P2, q2 = P * s[:, None], q * s
            way = escapes(P2)
            if way is None:
                c.ev("polyhedra nearly unbounded")
                continue
            got = bool(utils.is_polyhedron_bounded(T(P2)))
            c.require(got == (not way), "bounded", "bounded polyhedron",
                      P=P2, got=got, system=S.desc)
            a = (T(A), T(g)) if S.auto else (T(A), T(B), T(g))
            try:
                new.add_mode(*a, T(P2), T(q2), check_polyhedron_bounded=True)
                ok = True
            except AssertionError:
                ok = False
            c.require(ok == (not way), "refused", "mode accepted iff bounded",
                      P=P2, accepted=ok, system=S.desc, modes=count)
            count += ok
            c.require(new.num_modes == count, "refused",
                      "a refused mode counts", n=new.num_modes)
            c.ev("unbounded modes" if way else "bounded modes")
    for L in (new.A, new.P, new.q, new.x_lo, new.x_up):
        c.require(len(L) == count, "refused", "a refused mode is kept")
    c.key(S.desc, S.lo, count)


if __name__ == "__main__":
    chk.main()

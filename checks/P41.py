"""P41: planning and reinforcement-learning examples."""
import contextlib
import copy
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
import gen  # noqa: E402
import planning_standin as ps  # noqa: E402

os.environ.setdefault("MPLBACKEND", "Agg")
ps.install()
import pydrake.solvers.mathematicalprogram as mp  # noqa: E402
import neural_network_lyapunov.examples.car.rrt_star as rrt  # noqa: E402
import neural_network_lyapunov.examples.car.unicycle as unicycle  # noqa: E402
import neural_network_lyapunov.examples.car.unicycle_traj_opt as to  # noqa
import neural_network_lyapunov.examples.car.value_iteration as vi  # noqa
import neural_network_lyapunov.examples.rl.td3 as td3m  # noqa: E402
import neural_network_lyapunov.examples.quadrotor2d.quadrotor2d_env as qe  # noqa

N, T = gen.N, gen.T
chk = Check("P41", rule="random histories of tree extensions with a metric "
            "solver that refuses some connections, random transition-cost "
            "tables (unreachable states, absorbing goals), random "
            "trajectories of the collocation program, random histories of "
            "short learning runs; non-trivial: distinct histories",
            assumptions=["pydrake and gym are replaced by stand-ins that "
                         "record the programs and return the harness's "
                         "solutions"])


def need_standin():
    if not getattr(mp, "STANDIN", False):
        raise Skip("the real solver is installed")


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def wdist(a, b):
    d = np.asarray(a) - np.asarray(b)
    return float(d[0] ** 2 + d[1] ** 2 + .5 * d[2] ** 2)


def collocation(rng, nT, x1, x2, cost):
    """A solution vector of the program, with the given cost."""
    def solver(prog):
        v = rng.normal(size=prog.n)
        v[:3 * nT] = np.linspace(x1, x2, nT).T.reshape(-1)
        return v, cost
    return solver


def check_tree(c, t, goal, refused, what):
    n = t.node_state.shape[0]
    c.require(n == len(t.node_parent) == len(t.node_children) ==
              len(t.node_cost_to_root) == len(t.node_cost_to_parent) ==
              len(t.node_to_parent_x), "tree_size", what)
    c.require(t.node_parent[0] is None and t.node_cost_to_root[0] == 0 and
              np.array_equal(t.node_state[0], goal), "root", what)
    kids = [set() for _ in range(n)]
    for j in range(1, n):
        kids[t.node_parent[j]].add(j)
    c.require([set(k) for k in t.node_children] == kids, "children",
              what + ": children and parents disagree")
    for j in range(n):
        seen, k, total = set(), j, 0.
        while t.node_parent[k] is not None:
            if k in seen:
                c.require(False, "cycle", what, node=j)
            seen.add(k)
            total += t.node_cost_to_parent[k]
            k = t.node_parent[k]
        c.require(k == 0, "rooted", what, node=j)
        c.close(t.node_cost_to_root[j], total, "cost_to_root",
                what + ": cost to the goal along the parents", tol=1e-9)
    for j in range(1, n):
        p = t.node_parent[j]
        c.close(t.node_to_parent_x[j][:, 0], t.node_state[j], "path_ends",
                what + ": path starts at the node", tol=1e-12)
        c.close(t.node_to_parent_x[j][:, -1], t.node_state[p], "path_ends",
                what + ": path ends at the parent", tol=1e-12)
        c.require(not refused(t.node_state[j], t.node_state[p]),
                  "refused_edge", what + ": an edge nobody could drive")


@chk.section(quick=24, thorough=200, floor=.6, timeout=200)
def tree(c, rng, i):
    """Every operation of a growing tree, judged as it happens."""
    need_standin()
    np.random.seed(int(rng.integers(2 ** 31)))
    u_lo, u_up = np.array([-3., -.8]), np.array([6., .8])
    goal = rng.normal(size=3) * .3
    plant = unicycle.Unicycle(torch.float64)
    salt, p_ref = rng.normal(size=3), float(rng.choice([0., .2, .6]))

    def edge(a, b):
        lo, hi = sorted((tuple(a), tuple(b)))
        h = np.sin(1e4 * (salt @ (np.array(lo) + 2 * np.array(hi)))) * .5 + .5
        return h < p_ref, wdist(a, b) ** .5 * (.3 + h)
    asked, us = [], []

    def solver(prog):
        ends = [b for b in prog.constraints if b.f is None and
                len(b.vars) == 3 and np.array_equal(b.lo, b.up)]
        c.require(len(ends) == 2, "program_ends", "end states of the program")
        e = sorted(ends, key=lambda b: b.vars[0])
        x1, x2 = e[0].lo, e[1].lo
        nT = e[1].vars[0] + 1
        no, cost = edge(x1, x2)
        if no:
            return None, np.nan
        v = np.random.RandomState(len(asked)).normal(size=prog.n)
        v[:3 * nT] = np.linspace(x1, x2, nT).T.reshape(-1)
        return v, cost
    ps.SOLVER[0] = solver
    uniform = rrt.utils.uniform_sample_in_box

    def sampled(*a):
        r = uniform(*a)
        us.append(N(r))
        return r

    class Tree(rrt.RrtStar):
        def find_path(self, x1, x2):
            r = super().find_path(x1, x2)
            no, cost = edge(x1, x2)
            c.require(np.isinf(r[0]) if no else r[0] == cost, "path_cost",
                      "find_path returns %r" % (r[0],))
            asked.append((np.array(x1), np.array(x2), r[0]))
            return r

        def sample_state(self):
            x = super().sample_state()
            c.require(x.shape == (3,) and np.all(np.abs(x) <= np.array(
                [5., 5., 1.2 * np.pi])), "sample_box", "sampled state", x=x)
            # mostly near the tree, to make rewiring happen
            if rng.random() < .8:
                x = self.node_state[rng.integers(len(self.node_state))] + \
                    rng.normal(size=3) * .3
            return x

        def nearest_node(self, x):
            k = super().nearest_node(x)
            d = [wdist(x, v) for v in self.node_state]
            c.require(d[k] <= min(d) * (1 + 1e-12) + 1e-300, "nearest",
                      "nearest node", got=int(k))
            return k

        def extend_node(self, node_idx, num_samples, dt, x):
            us.clear()
            r = super().extend_node(node_idx, num_samples, dt, x)
            u = us[-1]
            c.require(u.shape == (num_samples, 2) and np.all(u >= u_lo) and
                      np.all(u <= u_up), "control_bounds", "sampled controls")
            ends = np.array([unicycle_end(self.node_state[node_idx], w, dt)
                             for w in u])
            d = [wdist(e, x) for e in ends]
            # solve_ivp's default accuracy
            c.close(wdist(r, x), min(d), "closest_extension",
                    "distance of the extension", tol=1e-3)
            k = np.argmin([np.abs(e - r).max() for e in ends])
            c.close(r, ends[k], "reachable", "extension is a simulated state",
                    tol=1e-3)
            c.ev("extensions")
            return r

        def neighbours(self, x, radius):
            r = super().neighbours(x, radius)
            want = [k for k, v in enumerate(self.node_state)
                    if wdist(v, x) <= radius]
            gray = {k for k, v in enumerate(self.node_state)
                    if abs(wdist(v, x) - radius) < 1e-12}
            c.require(set(map(int, r)) ^ set(want) <= gray, "neighbours",
                      "neighbours", got=r, want=want)
            return r

        def connect_state_extend(self, x, nb):
            asked.clear()
            old = self.node_cost_to_root.copy()
            n0 = len(old)
            k = super().connect_state_extend(x, nb)
            fin = [(j, edge(x, self.node_state[j])[1]) for j in nb
                   if not edge(x, self.node_state[j])[0]]
            if not fin:
                c.require(k is None and len(self.node_state) == n0,
                          "unreachable_state", "a node without a connection")
                c.ev("refused extensions")
                return k
            c.require(k == n0 and len(self.node_state) == n0 + 1 and
                      np.array_equal(self.node_state[k], x), "new_node",
                      "the new node", got=k)
            best = min(cost + old[j] for j, cost in fin)
            c.close(self.node_cost_to_root[k], best, "best_parent",
                    "cost to the goal through the best neighbour", tol=1e-9)
            for j, cost in fin:
                if self.node_parent[j] == k:
                    c.ev("rewirings")
                # descendants of a rewired node may gain as well
                c.require(self.node_cost_to_root[j] <=
                          min(old[j], cost + best) + 1e-9, "no_worse",
                          "a neighbour got worse")
            c.require(np.all(self.node_cost_to_root[:n0] <= old + 1e-9),
                      "no_worse", "some node got worse")
            check_tree(c, self, goal, lambda a, b: edge(a, b)[0], "tree")
            c.ev("connections")
            return k
    rrt.utils.uniform_sample_in_box = sampled
    try:
        t = Tree(plant, 3, u_lo, u_up, goal)
        n = int(rng.integers(8, 45))
        if p_ref < .5:
            t.grow_tree(n)
        else:  # by hand: the growing loop would not end on a dead tree
            for _ in range(n):
                x = t.extend_node(t.nearest_node(t.sample_state()), 20, .05,
                                  t.sample_state())
                nb = t.neighbours(x, .2)
                if nb:
                    t.connect_state_extend(x, nb)
    finally:
        rrt.utils.uniform_sample_in_box = uniform
    if p_ref < .5:
        c.require(len(t.node_state) == n, "tree_nodes", "number of nodes")
    # the saved tree is the tree
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "tree.pt")
        t.save_tree(p)
        t2 = rrt.RrtStar(plant, 3, u_lo, u_up, np.zeros(3))
        load = torch.load
        torch.load = lambda *a, **k: load(*a, **dict(k, weights_only=False))
        try:
            t2.load_tree(p)
        finally:
            torch.load = load
    for k in ("node_state", "node_cost_to_root", "node_cost_to_parent"):
        c.require(np.array_equal(getattr(t, k), getattr(t2, k)), "saved_tree",
                  k)
    c.require(t.node_parent == t2.node_parent and
              t.node_children == t2.node_children, "saved_tree", "edges")
    for k in ("node_to_parent_x", "node_to_parent_u", "node_to_parent_dt"):
        a, b = getattr(t, k), getattr(t2, k)
        c.require(len(a) == len(b) and all(
            (u is None) == (v is None) and (u is None or np.array_equal(u, v))
            for u, v in zip(a, b)), "saved_tree", k)
    c.key(t.node_state.tolist())


def unicycle_end(x, u, dt):
    """Exact state after driving with constant controls."""
    v, w = u
    th = x[2] + w * dt
    if abs(w) < 1e-9:
        return x + np.array([v * np.cos(x[2]), v * np.sin(x[2]), w]) * dt
    return np.array([x[0] + v / w * (np.sin(th) - np.sin(x[2])),
                     x[1] - v / w * (np.cos(th) - np.cos(x[2])), th])


def defect(x, u, dt):
    f = np.array([u[0] * np.cos(x[2]), u[0] * np.sin(x[2]), u[1]])
    return np.abs(x[:, 1:] - x[:, :-1] -
                  (f[:, 1:] + f[:, :-1]) / 2 * dt).max()


@chk.section(quick=3, thorough=10, floor=.5)
def rewired_path(c, rng, i):
    """A rewired node's path must be one the car can drive."""
    need_standin()
    plant = unicycle.Unicycle(torch.float64)
    u_lo, u_up = np.array([-3., -.8]), np.array([6., .8])
    th = float(rng.uniform(-1, 1))
    d = np.array([np.cos(th), np.sin(th), 0.])

    def path(x1, x2):  # straight along the common heading
        s = (x2 - x1) @ d
        x = np.linspace(x1, x2, 4).T
        dt = np.full(3, .02)
        u = np.zeros((2, 4))
        u[0] = s / .06
        return abs(s), x, u, dt
    t = rrt.RrtStar(plant, 3, u_lo, u_up, np.array([0., 0., th]))
    a = t.node_state[0] + .15 * d
    ka = t._add_node_with_path(a, 0, 5., *path(a, t.node_state[0])[1:])
    t.find_path = path
    m = t.node_state[0] + .07 * d
    k = t.connect_state_extend(m, [0, ka])
    c.require(t.node_parent[ka] == k and t.node_parent[k] == 0, "rewired",
              "the detour is replaced")
    c.require(defect(t.node_to_parent_x[k], t.node_to_parent_u[k],
                     t.node_to_parent_dt[k]) < 1e-9, "path_dynamics",
              "path of the new node")
    c.key(th)
    x, u, h = (t.node_to_parent_x[ka], t.node_to_parent_u[ka],
               t.node_to_parent_dt[ka])
    c.close(x[:, 0], a, "rewired_ends", "start of the rewired path", 1e-12)
    c.close(x[:, -1], m, "rewired_ends", "end of the rewired path", 1e-12)
    good, wrong_sign = defect(x, u, h), defect(x, -u, h)
    c.require(min(good, wrong_sign) < 1e-9, "rewired_path",
              "the path of a rewired node fits no controls")
    c.require(good < 1e-9, "rewired_dynamics",
              "the reversed path of a rewired node keeps the forward controls")


@chk.section(quick=80, thorough=800, floor=.8)
def trajectory_program(c, rng, i):
    """The collocation program accepts exactly the drivable trajectories."""
    need_standin()
    nT = int(rng.integers(2, 7))
    u_lo, u_up = -rng.uniform(.2, 3, 2), rng.uniform(.2, 3, 2)
    dt_min, dt_max = .01, float(rng.uniform(.05, .3))
    prog, ini, fin, x, u, dt = to.construct_traj_opt(nT, u_lo, u_up, dt_min,
                                                     dt_max)
    c.require(np.shape(x) == (3, nT) and np.shape(u) == (2, nT) and
              np.shape(dt) == (nT - 1,), "program_shape", "variables")
    # a drivable trajectory, step by step (implicit in the heading)
    U = rng.uniform(u_lo, u_up, (nT, 2)).T
    D = rng.uniform(dt_min, dt_max, nT - 1)
    x0 = rng.normal(size=3)

    def roll(U, D):
        X = np.zeros((3, nT))
        X[:, 0] = x0
        for k in range(nT - 1):
            X[2, k + 1] = X[2, k] + (U[1, k] + U[1, k + 1]) / 2 * D[k]
            for r, g in ((0, np.cos), (1, np.sin)):
                X[r, k + 1] = X[r, k] + D[k] / 2 * (
                    U[0, k] * g(X[2, k]) + U[0, k + 1] * g(X[2, k + 1]))
        return X
    X = roll(U, D)
    v = np.full(prog.n, np.nan)

    def put(X, U, D):
        v[np.asarray(x)], v[np.asarray(u)], v[np.asarray(dt)] = X, U, D
        return v
    ini.evaluator().set_bounds(X[:, 0], X[:, 0])
    fin.evaluator().set_bounds(X[:, -1], X[:, -1])
    c.require(prog.violation(put(X, U, D)) < 1e-9, "drivable_rejected",
              "a drivable trajectory")
    want = np.sum(U ** 2) + 200 * np.sum(np.diff(U[0]) ** 2) + \
        800 * np.sum(np.diff(U[1]) ** 2)
    c.close(prog.cost(put(X, U, D)), want, "trajectory_cost", "cost",
            tol=1e-9)
    # anything else is rejected
    for what in range(6):
        Y, V, E = X.copy(), U.copy(), D.copy()
        k = int(rng.integers(nT))
        s = float(rng.choice([-1., 1.])) * .01
        if what == 0:
            Y[int(rng.integers(3)), k] += s
        elif what == 1:
            V[int(rng.integers(2)), k] += s
        elif what == 2:
            E[int(rng.integers(nT - 1))] = dt_max + .01
        elif what == 3:
            E[int(rng.integers(nT - 1))] = dt_min - .005
        elif what == 4:
            r = int(rng.integers(2))
            V[r, k] = u_up[r] + .01
        else:
            r = int(rng.integers(2))
            V[r, k] = u_lo[r] - .01
        if what >= 2:  # drivable, but for the bound alone
            Y = roll(V, E)
            fin.evaluator().set_bounds(Y[:, -1], Y[:, -1])
        else:
            fin.evaluator().set_bounds(X[:, -1], X[:, -1])
        c.require(prog.violation(put(Y, V, E)) > 1e-6, "not_drivable_accepted",
                  "perturbed trajectory (kind %d)" % what)
    c.ev("trajectories", 7)
    c.key(X.tolist())


@chk.section(quick=60, thorough=600, floor=.8)
def values(c, rng, i):
    """Value iteration ends at the fixed point with a greedy policy."""
    n = int(rng.integers(2, 14))
    gamma = float(rng.choice([.5, .9, .95, 1.]))
    r = rng.uniform(.2, 3, (n, n))
    r[rng.random((n, n)) < rng.choice([0., .4, .7])] = np.inf
    goal = int(rng.integers(n))
    if gamma == 1.:
        r[np.arange(n), np.arange(n)] = np.inf
        r[goal, goal] = 0.
        # every state reaches the goal
        o = np.r_[goal, rng.permutation([k for k in range(n) if k != goal])]
        for k in range(1, n):
            r[o[k], o[rng.integers(k)]] = rng.uniform(.2, 3)
    else:  # somewhere to go from everywhere
        for k in range(n):
            r[k, rng.integers(n)] = rng.uniform(.2, 3)
    u = rng.normal(size=(n, n, 2))
    eps = float(rng.choice([1e-3, 1e-6, 1e-9]))
    r0, u0 = r.copy(), u.copy()
    with quiet():
        V, policy = vi.value_iteration(n, r, u, epsilon=eps,
                                       discount_factor=gamma)
    c.require(np.array_equal(r, r0) and np.array_equal(u, u0), "tables_kept",
              "the tables were changed")
    # reference: Bellman-Ford / discounted iteration to machine precision
    W = np.zeros(n) if gamma < 1 else np.where(np.arange(n) == goal, 0.,
                                               np.inf)
    for _ in range(n if gamma == 1. else 2000):
        W = (r + gamma * W[None]).min(axis=1)
    slack = eps / (1 - gamma) if gamma < 1 else eps * n * 20 / .2
    c.require(np.max(np.abs(V - W)) <= slack + 1e-9, "fixed_point",
              "values, off by %g" % np.max(np.abs(V - W)))
    B = (r + gamma * V[None])
    for k in range(n):
        js = [j for j in range(n) if np.array_equal(policy[k], u[k, j])]
        c.require(len(js) >= 1, "policy_action", "not an action of the state")
        c.require(min(B[k, js]) <= B[k].min() + 2 * eps + 1e-12, "greedy",
                  "the policy is not greedy", state=k)
    c.ev("states", n)
    c.key(r.tolist(), gamma)


@chk.section(quick=8, thorough=60, floor=.8, timeout=200)
def cost_tables(c, rng, i):
    """The translated cost table equals the complete one."""
    need_standin()
    nxy, na = int(rng.integers(3, 6)), int(rng.integers(2, 4))
    n0, n1 = int(rng.integers(1, nxy)), int(rng.integers(1, nxy))
    n2 = int(rng.integers(0, na))
    x_lo, x_up = np.array([-1., -1., -2.]), np.array([1., 1., 2.])
    grids = [np.linspace(x_lo[k], x_up[k], m) for k, m in
             enumerate((nxy, nxy, na))]
    ns = nxy * nxy * na
    nT = 3
    s = np.array(np.meshgrid(*grids, indexing="ij")).reshape(3, -1)
    vi.n_grid_xy, vi.n_grid_angle, vi.s, vi.nT = nxy, na, s, nT
    vi.dt_max = .1
    prog, ini, fin, x, u, dt = to.construct_traj_opt(
        nT, -np.ones(2), np.ones(2), .001, .1)
    w = rng.normal(size=5)
    solved = set()

    def cost(a, b):
        """Depends on the displacement and both headings only."""
        d = np.round(b - a, 9)
        k = abs(d[0] * (2 + w[0]) + d[1] * w[1] + .3) + abs(d[2]) + \
            w[2] ** 2 * abs(np.round(a[2], 9) + 3)
        if np.sin(1e3 * (d @ w[:3]) + 50 * np.round(a[2], 6)) > .6:
            return None
        return k, np.array([d @ w[2:], np.round(a[2], 9) + d[0] * w[4]])

    def solver(prog):
        a, b = ini.lo, fin.lo
        c.require(np.array_equal(ini.lo, ini.up) and
                  np.array_equal(fin.lo, fin.up), "ends", "end states")
        g = np.array([prog.guess[int(k)] for k in np.reshape(x, -1)])
        c.close(g.reshape(3, nT), np.linspace(a, b, nT).T, "guess",
                "initial guess", tol=1e-12)
        q = cost(a, b)
        if q is None:
            return None, np.nan
        v = rng.normal(size=prog.n)
        v[np.asarray(u)[:, 0]] = q[1]
        return v, q[0]
    ps.SOLVER[0] = solver
    with quiet():
        rc, uc = vi.calculate_r_complete(ns, n0, n1, n2, prog, ini, fin, x, u,
                                         dt)
        rd, ud = vi.calculate_r_duplicate(ns, n0, n1, n2, prog, ini, fin, x,
                                          u, dt)
    seen = 0
    for a in range(ns):
        ia = np.array(np.unravel_index(a, (nxy, nxy, na)))
        c.require(tuple(vi.flat_to_3d(a)) == tuple(ia) and
                  vi.threeD_to_flat(*ia) == a, "indexing", "grid index")
        for b in range(ns):
            d = np.array(np.unravel_index(b, (nxy, nxy, na))) - ia
            near = a != b and np.all(np.abs(d) <= (n0, n1, n2))
            q = cost(s[:, a], s[:, b]) if near else None
            want = np.inf if q is None else q[0]
            wu = np.full(2, np.nan) if q is None else q[1]
            for r, uu, nm in ((rc, uc, "complete"), (rd, ud, "duplicated")):
                ok = r[a, b] == want or abs(r[a, b] - want) < 1e-6
                c.require(ok, "transition_cost", "%s table: %g, want %g" %
                          (nm, r[a, b], want), a=a, b=b)
                c.require(np.allclose(uu[a, b], wu, atol=1e-6,
                                      equal_nan=True), "transition_control",
                          nm + " table", a=a, b=b)
            seen += near
    c.ev("transitions", seen)
    c.key(nxy, na, n0, n1, n2, w.tolist())


@chk.section(quick=120, thorough=1000, floor=.9)
def replay(c, rng, i):
    """The buffer holds the latest transitions, kept together."""
    no, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    size = int(rng.integers(1, 12))
    b = td3m.ReplayBuffer(no if rng.random() < .5 else (no,), nu, size)
    hist = []
    for k in range(int(rng.integers(1, 4 * size))):
        t = (rng.normal(size=no), rng.normal(size=nu), float(k),
             rng.normal(size=no), bool(rng.random() < .3))
        o, o2 = t[0].copy(), t[3].copy()
        b.store(o, t[1], t[2], o2, t[4])
        o += 1.   # the caller goes on with its own arrays
        o2 += 1.
        hist.append(t)
        np.random.seed(int(rng.integers(2 ** 31)))
        m = int(rng.integers(1, 8))
        s = b.sample_batch(m)
        live = {int(h[2]): h for h in hist[-size:]}
        c.require(len(s["rew"]) == m, "batch_size", "batch size")
        for q in range(m):
            h = live.get(int(s["rew"][q]))
            c.require(h is not None, "evicted", "sample %g is not among the "
                      "last %d" % (float(s["rew"][q]), size))
            for nm, w in (("obs", h[0]), ("act", h[1]), ("obs2", h[3]),
                          ("done", float(h[4]))):
                c.close(N(s[nm][q]), w, "transition", nm, tol=1e-6)
        c.ev("samples", m)
    big = b.sample_batch(60 * size)
    c.require(set(N(big["rew"]).astype(int)) == set(live), "all_sampled",
              "not every stored transition can be drawn")
    c.key(no, nu, size, len(hist), hist[0][0].tolist())


class Toy(ps.Env):
    """A small environment that logs what it was asked."""
    made = []

    def __init__(self, rng, log):
        n, m = int(log["dims"][0]), int(log["dims"][1])
        self.rng, self.log, self.kind = rng, log, len(Toy.made)
        Toy.made.append(self)
        lo = np.array(log["lo"], dtype=np.float32)
        self.action_space = ps.Box(lo, np.array(log["up"], dtype=np.float32))
        self.observation_space = ps.Box(-np.ones(n, dtype=np.float32),
                                        np.ones(n, dtype=np.float32))
        self.obs_equ = torch.tensor(log["oe"], dtype=torch.float32)
        self.act_equ = torch.tensor(log["ae"], dtype=torch.float32)
        self.events = []
        base = self.action_space.sample
        self.action_space.sample = lambda: self._sample(base)

    def _sample(self, base):
        a = base()
        self.events.append(("sample", a.copy()))
        return a

    def reset(self):
        self.o = self.rng.normal(size=self.log["dims"][0]).astype(np.float32)
        self.events.append(("reset", self.o.copy()))
        return self.o

    def step(self, a):
        a = np.array(a)
        o2 = self.rng.normal(size=self.log["dims"][0]).astype(np.float32)
        r = float(self.rng.normal())
        d = bool(self.rng.random() < self.log["p_done"])
        self.events.append(("step", a.copy(), o2.copy(), r, d))
        return o2, r, d, {}


class Recorder:
    def __init__(self, *a, **k):
        self.log = []

    def add_scalar(self, tag, v, step):
        self.log.append((tag, float(v), step))


@chk.section(quick=16, thorough=120, floor=.9, timeout=200)
def learning(c, rng, i):
    """Short runs of the learner: data, targets, delays and actions."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    lo = -rng.uniform(.5, 2, m)
    up = rng.uniform(.5, 2, m)
    log = dict(dims=(n, m), lo=lo, up=up, oe=rng.normal(size=n) * .3,
               ae=rng.uniform(lo, up) * .5,
               p_done=float(rng.choice([0., .05, .3])))
    o = dict(gamma=float(rng.choice([.9, .99])),
             polyak=float(rng.choice([.5, .9, .995])),
             pi_lr=1e-2, q_lr=1e-2, batch_size=int(rng.integers(2, 9)),
             steps_per_epoch=int(rng.integers(20, 40)),
             epochs=int(rng.integers(1, 3)),
             replay_size=int(rng.choice([15, 1000])),
             start_steps=int(rng.integers(0, 20)),
             update_after=int(rng.integers(2, 20)),
             update_every=int(rng.integers(1, 8)),
             act_noise=float(rng.choice([.1, 2.])), target_noise=0.,
             noise_clip=.3, policy_delay=int(rng.integers(1, 4)),
             num_test_episodes=int(rng.integers(1, 3)),
             max_ep_len=int(rng.integers(3, 12)),
             seed=int(rng.integers(1000)))
    if rng.random() < .3:
        o["target_noise"] = 1.
    made, bufs = [], []
    steps, batches, saves, noises = [], [], [], []
    Toy.made = []
    A = td3m.Adam

    class AC(td3m.MLPActorCritic):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)

        def __deepcopy__(self, memo):
            new = self.__class__.__new__(self.__class__)
            memo[id(self)] = new
            new.__dict__ = copy.deepcopy(self.__dict__, memo)
            made.append(new)
            return new

    class Opt(A):
        def step(self, *a, **k):
            before = [copy.deepcopy(x.state_dict()) for x in made[:2]]
            ps_ = [p for g in self.param_groups for p in g["params"]]
            grads = [None if p.grad is None else p.grad.clone() for p in ps_]
            r = super().step(*a, **k)
            steps.append((ps_, before, grads, len(batches) - 1))
            return r

    class Buf(td3m.ReplayBuffer):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.hist = []
            bufs.append(self)

        def store(self, *t):
            self.hist.append([np.array(v, dtype=float) for v in t])
            return super().store(*t)

        def sample_batch(self, k):
            # the target networks as they are between two updates
            targ = copy.deepcopy(made[1].state_dict())
            r = super().sample_batch(k)
            batches.append((k, {a: b.clone() for a, b in r.items()}, targ,
                            len(self.hist)))
            return r
    rec = Recorder()
    keep = [(td3m, k, getattr(td3m, k)) for k in
            ("Adam", "ReplayBuffer", "SummaryWriter")]
    keep.append((torch, "save", torch.save))
    keep.append((torch, "randn_like", torch.randn_like))

    def randn_like(v):
        r = keep[-1][2](v)
        noises.append(r.clone())
        return r
    td3m.Adam, td3m.ReplayBuffer = Opt, Buf
    td3m.SummaryWriter = lambda *a, **k: rec
    torch.save = lambda obj, name: saves.append((copy.deepcopy(
        obj.state_dict()), name))
    torch.randn_like = randn_like
    try:
        with quiet():
            td3m.td3(lambda: Toy(rng, log), actor_critic=AC,
                     ac_kwargs=dict(hidden_sizes=[4]), exp_name="x", **o)
    finally:
        for mod, k, v in keep:
            setattr(mod, k, v)
    (ac, targ), buf = made[:2], bufs[0]
    env, test = Toy.made
    total = o["steps_per_epoch"] * o["epochs"]
    st = [e for e in env.events if e[0] == "step"]
    c.require(len(st) == total == len(buf.hist), "interactions",
              "%d steps, %d stored, %d wanted" % (len(st), len(buf.hist),
                                                  total))
    # what is stored is what happened
    cur, ln, ev = None, 0, iter(env.events)
    k, nsample = 0, 0
    for e in ev:
        if e[0] == "reset":
            c.require(cur is None, "reset_early", "episode cut short", step=k)
            cur, ln = e[1], 0
        elif e[0] == "sample":
            c.require(k <= o["start_steps"], "random_late",
                      "random action after the start")
            nsample += 1
        else:
            c.require(cur is not None, "reset_missing",
                      "no reset after an episode", step=k)
            ln += 1
            _, a, o2, r, d = e
            h = buf.hist[k]
            stop = ln == o["max_ep_len"]
            for got, want, nm in zip(h, (cur, a, r, o2, float(
                    d and not stop)), ("obs", "act", "rew", "next", "done")):
                c.close(got, np.asarray(want, dtype=float), "stored", nm,
                        tol=1e-6)
            c.require(np.all(a >= lo - 1e-6) and np.all(a <= up + 1e-6),
                      "action_bounds", "action %s" % a)
            cur = None if (d or stop) else o2
            k += 1
    c.require(nsample == min(total, o["start_steps"] + 1), "random_actions",
              "%d random actions" % nsample)
    # updates: one batch and one critic step each
    ts = [t for t in range(total) if t >= o["update_after"] and
          t % o["update_every"] == 0]
    plan = [(t, j) for t in ts for j in range(o["update_every"])]
    c.require(len(batches) == len(plan), "updates", "%d updates, want %d" %
              (len(batches), len(plan)))
    pi_ids = {id(p) for p in ac.pi.parameters()}
    q_ids = {id(p) for p in list(ac.q1.parameters()) +
             list(ac.q2.parameters())}
    per = [[s for s in steps if s[3] == k] for k in range(len(plan))]
    qn = 0
    for k, (t, j) in enumerate(plan):
        size, b, tsd, stored = batches[k]
        c.require(size == o["batch_size"] and stored == t + 1, "batch",
                  "batch drawn at step %d from %d" % (t, stored))
        delayed = j % o["policy_delay"] == 0
        c.require([{id(p) for p in s[0]} for s in per[k]] ==
                  [q_ids] + ([pi_ids] if delayed else []), "step_order",
                  "optimizer steps of an update")
        # the critics' gradient: squared error to the clipped double target
        main = copy.deepcopy(ac)
        main.load_state_dict(per[k][0][1][0])
        tn = copy.deepcopy(targ)
        tn.load_state_dict(tsd)
        for p in main.parameters():
            p.requires_grad_(True)
            p.grad = None
        if o["target_noise"] and len(noises) != len(plan):
            raise Skip("the smoothing noise was drawn another way")
        with torch.no_grad():
            a2 = tn.pi(b["obs2"])
            eps = torch.clamp((noises[k] if noises else 0 * a2) *
                              o["target_noise"],
                              -o["noise_clip"], o["noise_clip"])
            a2 = torch.maximum(torch.minimum(a2 + eps, torch.tensor(
                up, dtype=torch.float32)), torch.tensor(
                lo, dtype=torch.float32))
            q = torch.minimum(tn.q1(b["obs2"], a2), tn.q2(b["obs2"], a2))
            y = b["rew"] + o["gamma"] * (1 - b["done"]) * q
        loss = ((main.q1(b["obs"], b["act"]) - y) ** 2).mean() + \
            ((main.q2(b["obs"], b["act"]) - y) ** 2).mean()
        loss.backward()
        want = [p.grad for p in list(main.q1.parameters()) +
                list(main.q2.parameters())]
        sc = 1 + max(float(g.abs().max()) for g in want)
        for g, w in zip(per[k][0][2], want):
            c.close(N(g), N(w), "critic_gradient", "critic gradient",
                    tol=2e-4, scale=sc)
        lg = [v for tag, v, s in rec.log if tag == "Qloss"][k]
        c.close(lg, float(loss), "critic_loss", "critic loss", tol=2e-4,
                scale=1 + abs(float(loss)))
        if delayed:
            main.load_state_dict(per[k][1][1][0])
            for p in main.parameters():
                p.grad = None
            pl = -main.q1(b["obs"], main.pi(b["obs"])).mean()
            pl.backward()
            for g, w in zip(per[k][1][2], main.pi.parameters()):
                c.close(N(g), N(w.grad), "policy_gradient",
                        "policy gradient", tol=2e-4)
        # targets move only after a policy step, by the averaging rule
        nxt = batches[k + 1][2] if k + 1 < len(plan) else targ.state_dict()
        after = per[k + 1][0][1][0] if k + 1 < len(plan) else ac.state_dict()
        for nm, v in tsd.items():
            w = o["polyak"] * v + (1 - o["polyak"]) * after[nm] if delayed \
                else v
            c.close(N(nxt[nm]), N(w), "target_average", nm, tol=1e-5)
        qn += 1
    c.ev("updates", qn)
    # evaluation episodes are noise-free and bounded
    rets = [v for tag, v, s in rec.log if tag == "TD3AvgRet"]
    c.require(len(rets) == o["epochs"] == len(saves), "epochs",
              "%d evaluations, %d saved networks" % (len(rets), len(saves)))
    eps, cur = [], None
    for e in test.events:
        if e[0] == "reset":
            cur = [e[1], []]
            eps.append(cur)
        elif e[0] == "step":
            cur[1].append(e)
    c.require(len(eps) == o["epochs"] * o["num_test_episodes"], "episodes",
              "evaluation episodes")
    for e in range(o["epochs"]):
        net = copy.deepcopy(ac)
        net.load_state_dict(saves[e][0])
        mine = eps[e * o["num_test_episodes"]:(e + 1) *
                   o["num_test_episodes"]]
        c.close(rets[e], np.mean([sum(s[3] for s in q[1]) for q in mine]),
                "mean_return", "mean return", tol=1e-6)
        for x, q in mine:
            c.require(len(q) == o["max_ep_len"] or q[-1][4] and
                      len(q) <= o["max_ep_len"], "episode_length",
                      "evaluation episode of %d steps" % len(q))
            for s in q:
                a = np.clip(N(net.act(torch.as_tensor(
                    x, dtype=torch.float32))), lo, up)
                c.close(s[1], a, "test_action", "action without noise",
                        tol=1e-5)
                x = s[2]
        c.close(N(net.pi(net.pi.obs_equ)), log["ae"], "equilibrium_action",
                "action at the equilibrium", tol=1e-5)
    c.key({k: v for k, v in o.items()}, n, m)


@chk.section(quick=40, thorough=300, floor=.8)
def environment(c, rng, i):
    """The quadrotor environment follows the plant and pays the LQR cost."""
    if isinstance(getattr(qe.gym, "Env", None), type) and \
            qe.gym.Env is not ps.Env:
        raise Skip("the real gym is installed")
    torch.manual_seed(int(rng.integers(2 ** 31)))
    e = qe.Quadrotor2DEnv()
    x = e.reset().astype(float)
    c.require(np.all(x >= e.observation_space.low - 1e-6) and
              np.all(x <= e.observation_space.high + 1e-6), "reset_box",
              "initial state")
    ue = N(e.system.u_equilibrium)
    for k in range(int(rng.integers(1, 8))):
        u = rng.uniform(0, 8, 2).astype(np.float32)
        o2, r, d, _ = e.step(u)
        want = rk4(lambda v: e.system.dynamics(v, u.astype(float)), x, e.dt)
        c.close(o2, want, "plant_step", "next state", tol=2e-5)
        Q, R = N(e.lqr_Q), N(e.lqr_R)
        c.close(r, -(u - ue) @ R @ (u - ue) - o2 @ Q @ o2, "reward",
                "reward", tol=2e-4)
        c.require(d is False or not d, "done", "the episode ended")
        x = o2.astype(float)
        c.close(e.t_current, (k + 1) * e.dt, "clock", "time", tol=1e-9)
    c.key(x.tolist())


def rk4(f, x, dt, n=20):
    h = dt / n
    for _ in range(n):
        a = f(x)
        b = f(x + h / 2 * a)
        d = f(x + h / 2 * b)
        e = f(x + h * d)
        x = x + h / 6 * (a + 2 * b + 2 * d + e)
    return x


if __name__ == "__main__":
    chk.main()

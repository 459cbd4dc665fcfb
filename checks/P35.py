"""P35: LP cost, early termination and other optimization helpers."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N  # noqa: E402
import copy  # noqa: E402
import gurobipy  # noqa: E402
from gurobipy import GRB  # noqa: E402
import scipy.optimize  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402

chk = Check("P35", rule="random bounded LPs with a unique nondegenerate "
            "optimum (1-5 variables, equality rows or none); random binary "
            "programs with scripted incumbent histories and thresholds; "
            "random regressions; non-trivial: distinct programs / histories",
            assumptions=["scipy HiGHS as reference LP",
                         "Gurobi's documented callback protocol as "
                         "implemented by the stand-in"])


def lp(c, A, b, Ae, be):
    return scipy.optimize.linprog(-c, A, b, Ae if len(Ae) else None,
                                  be if len(be) else None, (None, None),
                                  method="highs")


@chk.section(quick=240, thorough=4000, floor=.6)
def lp_cost(c, rng, i):
    n = int(rng.integers(1, 6))
    ne = int(rng.integers(0, n)) if rng.random() < .6 else 0
    ni = n + 1 + int(rng.integers(0, 6))
    A = rng.normal(size=(ni, n)) * 10.**rng.choice([0., 0., 1., -1.], (ni, 1))
    x0 = rng.normal(size=n) * float(rng.choice([1., 1., 30.]))
    b = A @ x0 + rng.uniform(.1, 2., ni)
    Ae = rng.normal(size=(ne, n))
    be = Ae @ x0
    w = rng.uniform(.1, 1, ni)
    cc = A.T @ (w * (rng.random(ni) < .8)) + (
        Ae.T @ rng.normal(size=ne) if ne else 0)  # bounded by construction
    d = float(rng.normal())
    ref = lp(cc, A, b, Ae, be)
    if ref.status != 0:
        raise Skip("reference LP not solved")
    act = b - A @ ref.x < 1e-7
    M = np.vstack((Ae, A[act]))
    near = (b - A @ ref.x)[~act]
    if M.shape[0] != n or np.linalg.cond(M) > 1e4 or (
            len(near) and near.min() < 1e-4):
        raise Skip("degenerate optimum")
    lam = np.linalg.solve(M.T, cc)
    if np.any(np.abs(lam[ne:]) < 1e-5):
        raise Skip("optimum not unique")
    args = [T(cc), T(d), T(A), T(b), T(Ae).reshape(ne, n), T(be)]
    for a in args:
        a.requires_grad_()
    v = utils.linear_program_cost(*args)
    c.require(v is not None, "solved", "no cost for a bounded LP")
    opt = -ref.fun + d
    c.close(N(v), np.array(opt), "lp_value", "optimal cost", tol=1e-7,
            obj=cc, Ain=A, bin_=b, Ae=Ae, be=be)
    v.backward()
    # envelope theorem: dcost/dc = x, d/db = lambda, d/dA = -lambda x'
    L = np.zeros(ni)
    L[act] = lam[ne:]
    tol = 1e-6 * np.linalg.cond(M)
    c.close(N(args[0].grad), ref.x, "lp_gradient", "d cost / d c", tol=tol)
    c.close(N(args[1].grad), np.array(1.), "lp_gradient", "d cost / d d")
    c.close(N(args[3].grad), L, "lp_gradient", "d cost / d b_in", tol=tol)
    c.close(N(args[2].grad), -np.outer(L, ref.x), "lp_gradient",
            "d cost / d A_in", tol=tol)
    if ne:
        c.close(N(args[5].grad), lam[:ne], "lp_gradient", "d cost / d b_eq",
                tol=tol)
        c.close(N(args[4].grad), -np.outer(lam[:ne], ref.x), "lp_gradient",
                "d cost / d A_eq", tol=tol)
    c.ev("lps")
    c.key("lp", A, b, cc)
    c.note(n=n, inequalities=ni, equalities=ne, active=int(act.sum()))


@chk.section(quick=60, thorough=400)
def lp_infeasible(c, rng, i):
    """No cost for infeasible or unbounded programs."""
    n = int(rng.integers(1, 4))
    a = rng.normal(size=n)
    E = torch.zeros((0, n), dtype=torch.float64)
    e = torch.zeros((0, ), dtype=torch.float64)
    if i % 2:
        A, b, cc = np.vstack((a, -a)), np.array([1., -2.]), rng.normal(size=n)
    else:
        A, b, cc = a[None], np.ones(1), -a
    v = utils.linear_program_cost(T(cc), T(0.), T(A), T(b), E, e)
    c.require(v is None, "no_optimum", "cost of an infeasible/unbounded "
              "program", got=v, infeasible=bool(i % 2))
    c.key("none", a, i % 2)


@chk.section(quick=500, thorough=6000)
def terminate(c, rng, i):
    """Scripted incumbent histories under the early-termination callback."""
    n = int(rng.integers(2, 6))
    nc = int(rng.integers(0, 3))
    sense = GRB.MAXIMIZE if i % 3 else GRB.MINIMIZE
    m = gurobipy.Model()
    m.setParam("OutputFlag", False)
    b = [m.addVar(vtype=GRB.BINARY) for _ in range(n)]
    y = [m.addVar(lb=-1., ub=1.) for _ in range(nc)]
    w = rng.normal(size=n + nc)
    a = rng.uniform(size=n)
    m.addLConstr(gurobipy.LinExpr(a.tolist(), b), GRB.LESS_EQUAL,
                 float(a.sum() * rng.uniform(.3, 1)))
    cst = float(rng.normal()) if rng.random() < .5 else 0.
    m.setObjective(gurobipy.LinExpr(w.tolist(), b + y) + cst, sense)
    m.update()
    m.optimize()
    opt = m.ObjVal
    u = rng.random()
    th = opt + float(rng.normal()) if u < .7 else (0. if u < .9 else opt - .1)
    hist = [rng.normal(size=n + nc) for _ in range(int(rng.integers(0, 5)))]
    log = []
    inner = utils.get_gurobi_terminate_if_callback(th) if th != 0. else \
        utils.get_gurobi_terminate_if_callback()

    class Watch:
        """Records what the callback saw and whether it terminated."""
        def __init__(self, model):
            self.m, self.done = model, False

        def cbGet(self, what):
            return self.m.cbGet(what)

        def terminate(self):
            self.done = True
            self.m.terminate()

        def __getattr__(self, k):
            return getattr(self.m, k)

    def cb(model, where):
        W = Watch(model)
        inner(W, where)
        CB = GRB.Callback
        if where == CB.MIPNODE:
            log.append((model.cbGet(CB.MIPNODE_SOLCNT),
                        model.cbGet(CB.MIPNODE_OBJBST), W.done))
        else:
            log.append((None, None, W.done))

    gurobipy.INCUMBENT_HOOK = lambda mod, k: hist
    try:
        m.optimize(cb)
    finally:
        gurobipy.INCUMBENT_HOOK = None
    done = m.status == GRB.Status.INTERRUPTED
    for cnt, bst, term in log:
        if term and cnt is not None:
            c.require(cnt > 0, "no_incumbent", "terminated without an "
                      "incumbent", threshold=th, log=log, sense=sense)
            c.require(bst > th, "below_threshold", "terminated although the "
                      "incumbent is not above the threshold", bst=bst,
                      threshold=th)
    seen = [bst for cnt, bst, t in log if cnt]
    should = any(v > th for v in seen)
    c.require(done == should, "terminated", "terminated iff an incumbent "
              "above the threshold was seen", done=done, seen=seen,
              threshold=th)
    if done:
        c.require(m.SolCount > 0 and m.ObjVal > th, "verdict",
                  "the reported incumbent is above the threshold",
                  got=m.ObjVal if m.SolCount else None, th=th)
        c.ev("terminated_runs")
    else:
        c.require(m.status == GRB.Status.OPTIMAL and
                  abs(m.ObjVal - opt) < 1e-7 * (1 + abs(opt)), "verdict",
                  "a run that is not terminated reports the optimum",
                  got=m.ObjVal, opt=opt)
        c.ev("full_runs")
    if sense == GRB.MAXIMIZE:
        c.require((m.ObjVal > th) == (opt > th), "verdict",
                  "exceeds the threshold iff the optimum does", got=m.ObjVal,
                  opt=opt, th=th)
    c.ev("callback_calls", len(log))
    c.key("term", w, th, len(hist), sense)


@chk.section(quick=80, thorough=300)
def trajopt_cost(c, rng, i):
    nx, nu, na = (int(v) for v in rng.integers(1, 6, 3))
    dt = torch.float64 if i % 2 else torch.float32
    r = utils.get_simple_trajopt_cost(nx, nu, na, dt)
    c.require(len(r) == 12, "shape", "twelve terms")
    dims = [nx, nu, na]
    val = [.1, 1.3, .5, .2, .4, .6, .7, 1.9, .12, .8, .11, .13]
    for k, M in enumerate(r):
        d = dims[k % 3]
        quad = (k % 6) < 3
        c.require(tuple(M.shape) == ((d, d) if quad else (d, )) and
                  M.dtype == dt, "shape", "term", k=k, got=M.shape)
        if quad:
            c.require(np.all(np.linalg.eigvalsh(N(M)) > 0), "convex",
                      "positive definite quadratic terms", k=k)
        c.close(N(M), (np.eye(d) if quad else np.ones(d)) * val[k], "value",
                "cost term", tol=1e-6, k=k)
    c.key("cost", nx, nu, na)


@chk.section(quick=300, thorough=3000)
def numerical_gradient(c, rng, i):
    na = int(rng.integers(1, 4))
    dims = [int(v) for v in rng.integers(1, 4, na)]
    scalar = bool(rng.random() < .4)
    m = 1 if scalar else int(rng.integers(1, 4))
    As = [rng.normal(size=(m, d)) for d in dims]
    Qs = [rng.normal(size=(m, d, d)) for d in dims]
    calls = []

    def f(*xs):
        calls.append([x.copy() for x in xs])
        v = sum(A @ x + np.einsum("mij,i,j->m", Q, x, x)
                for A, Q, x in zip(As, Qs, xs))
        return float(v[0]) if scalar else v

    xs = [rng.normal(size=d) for d in dims]
    keep = [x.copy() for x in xs]
    kw = {} if rng.random() < .5 else {"dx": float(rng.choice([1e-6, 1e-4]))}
    g = utils.compute_numerical_gradient(f, *xs, **kw)
    if na == 1:
        g = [g]
    c.require(len(g) == na, "count", "one gradient per argument", got=len(g))
    for A, Q, x, gi, k in zip(As, Qs, xs, g, keep):
        want = A + np.einsum("mij,j->mi", Q + np.swapaxes(Q, 1, 2), x)
        c.close(gi, want[0] if scalar else want, "gradient",
                "numerical gradient", tol=1e-6)
        c.require(np.array_equal(x, k), "argument", "argument changed")
    # central differences: every evaluation perturbs one entry by +-dx
    h = kw.get("dx", 1e-7)
    for call in calls:
        d = np.concatenate(call) - np.concatenate(keep)
        c.require(np.sum(np.abs(d) > h * 1e-3) <= 1 and
                  np.all(np.abs(d) < h * 1.01), "perturbation",
                  "one entry at a time", d=d)
    c.ev("evaluations", len(calls))
    c.key("num", dims, m, As)


@chk.section(quick=300, thorough=3000)
def small_helpers(c, rng, i):
    v = T(rng.normal(size=int(rng.integers(1, 8))))
    a = N(v)
    c.close(N(utils.loss_reduction(v, "mean")), np.array(a.mean()),
            "reduction", "mean", 1e-12)
    c.close(N(utils.loss_reduction(v, "max")), np.array(a.max()),
            "reduction", "max", 1e-12)
    c.close(N(utils.loss_reduction(v, "4norm")),
            np.array((np.abs(a)**4).sum()**.25), "reduction", "4norm", 1e-12)
    k = float(rng.normal())
    c.require(abs(utils.find_nearest(a, k) - k) == np.abs(a - k).min(),
              "nearest", "nearest entry")
    lo, up = sorted(rng.normal(size=2) * 3)
    ctr, w = int(rng.integers(0, 100)), int(rng.integers(1, 50))
    s = utils.SigmoidAnneal(torch.float64, float(lo), float(up), ctr, w)
    steps = np.arange(ctr - 5 * w, ctr + 5 * w + 1, max(1, w // 3))
    y = np.array([float(s(int(t))) for t in steps])
    c.close(y, lo + (up - lo) / (1 + np.exp(-(steps - ctr) / w)), "anneal",
            "sigmoid schedule", 1e-9)
    c.require(np.all(np.diff(y) >= 0) and np.all((y >= lo) & (y <= up)),
              "anneal", "monotone within [lo, up]")
    ts = [T(rng.normal(size=(1, 3))), 3., T(rng.normal(size=(2, 2)))]
    o = utils.torch_to_numpy(ts)
    c.require(o[0].shape == (3, ) and o[1] == 3. and
              np.array_equal(o[2], N(ts[2])), "to_numpy", "squeezed")
    o = utils.torch_to_numpy(ts, squeeze=False)
    c.require(o[0].shape == (1, 3), "to_numpy", "unsqueezed")
    c.ev("helpers", 5)
    c.key("help", a, lo, up)


class Recorder(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net, self.log, self.val = net, [], []

    def forward(self, x):
        self.log.append(x.detach().clone())
        self.val.append([p.detach().clone() for p in self.net.parameters()])
        return self.net(x)


def row_ids(X, B):
    return [int(np.where((X == r).all(axis=1))[0][0]) for r in N(B)]


@chk.section(quick=80, thorough=600)
def train_model(c, rng, i):
    """Replay of the recorded batches: Adam steps on sum-of-squares / batch."""
    n, d = int(rng.integers(3, 25)), int(rng.integers(1, 4))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(n, 2))
    bs, ep = int(rng.integers(1, n + 3)), int(rng.integers(1, 4))
    lr = float(rng.choice([1e-3, 1e-2]))
    net = torch.nn.Sequential(torch.nn.Linear(d, 3), torch.nn.Tanh(),
                              torch.nn.Linear(3, 2)).type(torch.float64)
    for p in net.parameters():
        p.data = T(rng.normal(size=tuple(p.shape)))
    ref = copy.deepcopy(net)
    torch.manual_seed(int(rng.integers(1 << 30)))
    rec = Recorder(net)
    out = utils.train_model(rec, T(X), T(Y), batch_size=bs, num_epoch=ep,
                            learning_rate=lr)
    c.require(out is rec, "returns", "the model itself")
    nb = -(-n // bs)
    c.require(len(rec.log) == nb * ep, "batches", "batches per run",
              got=len(rec.log), want=nb * ep)
    opt = torch.optim.Adam(ref.parameters(), lr=lr)
    for k in range(ep):
        ids = []
        for B, v in zip(rec.log[k * nb:(k + 1) * nb],
                        rec.val[k * nb:(k + 1) * nb]):
            c.require(len(B) <= bs, "batches", "batch too large", got=len(B))
            for p, q in zip(ref.parameters(), v):
                c.close(N(q), N(p), "adam_step", "parameters at the batch",
                        tol=1e-8, epoch=k)
            r = row_ids(X, B)
            ids += r
            opt.zero_grad()
            loss = ((ref(B) - T(Y[r]))**2).sum() / bs
            loss.backward()
            opt.step()
        c.require(sorted(ids) == list(range(n)), "epoch", "every sample "
                  "exactly once per epoch", got=sorted(ids), n=n)
    for p, q in zip(ref.parameters(), net.parameters()):
        c.close(N(q), N(p), "adam_step", "final parameters", tol=1e-8)
    c.ev("steps", len(rec.log))
    c.key("train", X, bs, ep)


@chk.section(quick=80, thorough=600)
def train_approximator(c, rng, i):
    """80/20 split, Adam on the MSE of the training part only."""
    n, d = int(rng.integers(5, 30)), int(rng.integers(1, 4))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(n, 2))
    bs, ep = int(rng.integers(1, n + 3)), int(rng.integers(1, 4))
    lr = float(rng.choice([1e-3, 1e-2]))
    net = utils.setup_relu((d, 3, 2), dtype=torch.float64)
    extra = [T(rng.normal(size=2)).requires_grad_(),
             T(rng.normal(size=())).requires_grad_()] if i % 2 else None
    keep = [p.detach().clone() for p in list(net.parameters()) + (extra or [])]
    scale = float(rng.uniform(.5, 2))
    log, val = [], []

    def fun(model, x, scale):
        log.append(x.detach().clone())
        val.append([p.detach().clone() for p in
                    list(net.parameters()) + (extra or [])])
        y = model(x) * scale
        return y * extra[1] + extra[0] if extra else y

    torch.manual_seed(int(rng.integers(1 << 30)))
    ds = torch.utils.data.TensorDataset(T(X), T(Y))
    utils.train_approximator(ds, net, fun, bs, ep, lr,
                             additional_variable=extra,
                             output_fun_args=dict(scale=scale), verbose=False)
    ntr = int(n * .8)
    nb = -(-ntr // bs)
    tr = None
    ref = copy.deepcopy(net)
    ex = [e.detach().clone().requires_grad_() for e in extra or []]
    for p, k in zip(list(ref.parameters()) + ex, keep):
        p.data = k.clone()
    opt = torch.optim.Adam(list(ref.parameters()) + ex, lr=lr)
    pos = 0
    for k in range(ep):
        ids = []
        while len(ids) < ntr and pos < len(log):
            B = log[pos]
            for p, q in zip(list(ref.parameters()) + ex, val[pos]):
                c.close(N(q), N(p), "adam_step", "parameters at the batch",
                        tol=1e-8, epoch=k)
            pos += 1
            c.require(len(B) <= bs, "batches", "batch too large")
            r = row_ids(X, B)
            ids += r
            opt.zero_grad()
            y = ref(B) * scale * (ex[1] if ex else 1.) + (ex[0] if ex else 0.)
            ((y - T(Y[r]))**2).mean().backward()
            opt.step()
        c.require(len(set(ids)) == len(ids) == ntr, "epoch", "training part "
                  "exactly once per epoch", got=sorted(ids), want=ntr)
        tr = set(ids) if tr is None else tr
        c.require(set(ids) == tr, "split", "the training part changed")
        while pos < len(log) and set(row_ids(X, log[pos])).isdisjoint(tr):
            pos += 1  # evaluation of the test part
    c.require(pos == len(log), "split", "test samples used in training",
              got=len(log) - pos)
    for p, q in zip(list(ref.parameters()) + ex,
                    list(net.parameters()) + (extra or [])):
        c.close(N(q), N(p), "adam_step", "final parameters", tol=1e-8)
    c.ev("steps", nb * ep)
    c.key("approx", X, bs, ep)


if __name__ == "__main__":
    chk.main()

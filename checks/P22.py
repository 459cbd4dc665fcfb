"""P22: gradient projection and parameter snapshots."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, relu_net, net_desc, points  # noqa: E402
import sysgen  # noqa: E402
import contextlib  # noqa: E402
import io  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402
import neural_network_lyapunov.train_utils as tu  # noqa: E402

chk = Check("P22", rule="random networks with pairs of losses whose gradients "
            "are aligned, opposed, orthogonal, zero or generic, in all five "
            "projection modes; random histories of snapshot / optimizer step "
            "/ restore for every R option, with and without a controller; "
            "real sample-descent runs; non-trivial: distinct gradients / "
            "histories / runs",
            assumptions=["numpy projection as reference"])
MODES = list(tu.ProjectGradientMode)


def flat(params, grad=False):
    return np.concatenate([N(p.grad if grad else p).reshape(-1)
                           for p in params])


@chk.section(quick=1458, thorough=8000)
def projection(c, rng, i):
    net = relu_net(rng, int(rng.integers(1, 4)), int(rng.integers(1, 3)))
    ps = list(net.parameters())
    n = sum(p.numel() for p in ps)
    mode = MODES[i % 5]
    kind = int(rng.integers(7))
    g1 = rng.normal(size=n)
    g2 = rng.normal(size=n)
    if kind == 0:
        g2 = -g1 * rng.uniform(.1, 3)
    elif kind == 1:
        g2 = g1 * rng.uniform(.1, 3)
    elif kind == 2:
        g2 = g2 - g1 * rng.uniform(.1, 3)
    elif kind == 3:
        (g1 if rng.random() < .5 else g2)[:] = 0
    elif kind == 4:  # exactly orthogonal
        k = rng.random(n) < .5
        g1 = np.where(k, g1, 0)
        g2 = np.where(k, 0, g2)
    elif kind == 5:
        g1 *= 1e-4
        g2 = g2 * 1e3 - g1 * 1e6
    v0 = flat(ps)
    th = torch.cat([p.reshape(-1) for p in ps])
    s = torch.sum(th * 0)  # both losses share part of a graph
    l1 = T(g1) @ th + s
    l2 = T(g2) @ th + .5 * s
    keep = bool(rng.integers(2))
    for p in ps:
        p.grad = None if rng.random() < .5 else torch.zeros_like(p)
    need, n1, n2 = tu.project_gradient(net, l1, l2, mode, retain_graph=keep)
    c.close(N(n1), g1, "separate_gradients", "gradient of loss1", tol=1e-9)
    c.close(N(n2), g2, "separate_gradients", "gradient of loss2", tol=1e-9)
    if abs(g1 @ g2) < 1e-12 * np.linalg.norm(g1) * np.linalg.norm(g2) and \
            g1 @ g2 != 0:
        raise Skip("gradients orthogonal up to rounding")
    c.require(bool(need) == bool(g1 @ g2 < 0), "need_projection",
              "flag", dot=g1 @ g2, flag=need)
    if g1 @ g2 < 0:
        p1 = g1 - (g1 @ g2) / (g2 @ g2) * g2
        p2 = g2 - (g1 @ g2) / (g1 @ g1) * g1
        want = {1: p1, 2: p2, 3: p1 + p2, 4: g1 + p2, 5: p1 + g2}[mode.value]
    else:
        want = g1 + g2
    got = flat(ps, grad=True)
    c.close(got, want, "projected_gradient", "gradient after projection",
            tol=1e-9, mode=mode, kind=kind)
    # first-order effect of descending on the result
    sc = 1e-9 * (1 + np.linalg.norm(g1)) * (1 + np.linalg.norm(g2)) + \
        1e-9 * (np.linalg.norm(g1) + np.linalg.norm(g2))**2
    if mode.name in ("BOTH", "EMPHASIZE_LOSS1"):
        c.require(got @ g1 >= -sc, "loss1_protected", "loss1 increases",
                  mode=mode)
    if mode.name in ("BOTH", "EMPHASIZE_LOSS2"):
        c.require(got @ g2 >= -sc, "loss2_protected", "loss2 increases",
                  mode=mode)
    if mode.name == "LOSS1":
        c.require(got @ g2 >= -sc and got @ g1 >= -sc, "loss2_protected",
                  "a loss increases", mode=mode)
    if mode.name == "LOSS2":
        c.require(got @ g1 >= -sc and got @ g2 >= -sc, "loss1_protected",
                  "a loss increases", mode=mode)
    c.close(flat(ps), v0, "parameters_unchanged", tol=0)
    for p in ps:
        c.require(p.grad.shape == p.shape, "shapes", "gradient shape")
    # the result is not shared with the returned vectors
    for p in ps:
        p.grad.data.mul_(2.)
    c.close(N(n1), g1, "separate_gradients", "aliased with p.grad", tol=1e-9)
    if keep:
        l2.backward()
        c.ev("graph retained")
    c.ev("projected" if need else "not projected")
    c.key("proj", g1, g2, mode.name)
    c.note(net=net_desc(net), mode=mode.name, kind=kind, dot=g1 @ g2)


def r_option(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        R = rng.normal(size=(n + int(rng.integers(2)), n))
        return ro.FixedROptions(T(R)), "fixed"
    if k == 1:
        m = n + int(rng.integers(2))
        o = ro.SearchRwithSPDOptions((m, n), .1)
        M = rng.normal(size=(n, n))
        R = np.vstack((M @ M.T + np.eye(n) * .5,
                       rng.normal(size=(m - n, n))))
        o.set_variable_value(R)
        return o, "spd"
    if k == 2:
        o = ro.SearchRfreeOptions((n, n))
        o.set_variable_value(rng.normal(size=(n, n)))
        return o, "free"
    a = np.array([.1] * n)
    o = ro.SearchRwithSVDOptions((n, n), a)
    U, _, Vt = np.linalg.svd(rng.normal(size=(n, n)))
    o.set_variable_value(U @ np.diag(rng.uniform(.5, 2, n)) @ Vt)
    return o, "svd"


class Log(tlb.Trainer):
    """Records every evaluation of the sample losses."""

    def __init__(self):
        super().__init__()
        self.log = []

    def lyapunov_sample_loss(self, ps, ds, dn, *a, **kw):
        r = super().lyapunov_sample_loss(ps, ds, dn, *a, **kw)
        self.log.append((tuple(ps.shape), ps.detach().clone(),
                         ds.detach().clone(), float(r[0] + r[1])))
        return r


def trainer(rng, fb=None, cls=Log):
    for _ in range(50):
        fb = bool(rng.integers(2)) if fb is None else fb
        if fb:
            S = sysgen.feedback(rng, kind=["relu", "given", "second",
                                           "residue"][int(rng.integers(4))])
        else:
            S = sysgen.auto_relu(rng)
        L = sysgen.Lyap(rng, S.n, S.eq, rkind=0)
        dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
        t = cls()
        opt, rk = r_option(rng, S.n)
        try:
            t.add_lyapunov(dut, L.lam, T(S.eq), opt)
        except AssertionError:
            continue
        t.search_controller = bool(rng.random() < .8)
        t.learning_rate = float(rng.choice([.003, .05, .3]))
        t.lyapunov_positivity_sample_margin = float(rng.choice([0., .1]))
        t.lyapunov_derivative_sample_margin = float(rng.choice([0., .1]))
        t.lyapunov_derivative_epsilon = .1
        if rng.random() < .3:
            t.sample_loss_reduction = ["mean", "max", "4norm"][
                int(rng.integers(3))]
        return t, S, L, opt, (S.kind, rk)
    raise Skip("no trainer")


def every(t):
    """Every value training may change, as a flat vector."""
    sysm = t.lyapunov_hybrid_system.system
    v = [flat(list(t.lyapunov_hybrid_system.lyapunov_relu.parameters())),
         N(t.R_options.R()).reshape(-1)]
    if hasattr(sysm, "controller_network"):
        v.append(flat(list(sysm.controller_network.parameters())))
    return np.concatenate(v)


def step(t, opt, rng, n):
    for _ in range(n):
        opt.zero_grad()
        ps = t._training_params()
        V = t.lyapunov_hybrid_system
        x = T(rng.normal(size=(4, V.system.x_dim)))
        R = t.R_options.R()
        loss = torch.sum(V.lyapunov_value(x, t.x_equilibrium, t.V_lambda,
                                          R=R)) + torch.sum(R**2)
        loss = loss + sum(torch.sum((p - .7317)**2) for p in ps)
        loss.backward()
        opt.step()


@chk.section(quick=350, thorough=2500)
def snapshots(c, rng, i):
    t, S, L, ropt, desc = trainer(rng)
    ps = t._training_params()
    ids = [id(p) for p in ps]
    opt = (torch.optim.Adam(ps, lr=.05) if rng.random() < .5 else
           torch.optim.SGD(ps, lr=.01, momentum=float(rng.choice([0, .9]))))
    snaps = []
    ops = []
    for s in range(int(rng.integers(4, 9))):
        k = int(rng.integers(3)) if s else 0
        if k == 0:
            snaps.append((t._get_current_training_params(), every(t)))
            ops.append("S")
        elif k == 1:
            v = every(t)
            p0 = [N(p).copy() for p in ps]
            step(t, opt, rng, int(rng.integers(1, 4)))
            for p, q in zip(ps, p0):
                c.require(p.numel() == 0 or not np.array_equal(N(p), q),
                          "training_continues",
                          "a training parameter no longer changes", ops=ops)
            c.require(not np.array_equal(every(t), v), "training_continues",
                      "training has no effect any more", ops=ops)
            if not t.R_options.fixed_R:
                # R itself moves with the optimizer
                nr = t.R_options.R().numel()
                nl = sum(p.numel() for p in
                         t.lyapunov_hybrid_system.lyapunov_relu.parameters())
                c.require(not np.array_equal(every(t)[nl:nl + nr],
                                             v[nl:nl + nr]),
                          "training_continues", "R no longer changes",
                          ops=ops, R=desc[1])
            ops.append("O")
        else:
            j = int(rng.integers(len(snaps)))
            t._set_training_params(snaps[j][0])
            c.close(every(t), snaps[j][1], "restore",
                    "restored values differ from the snapshot", tol=0,
                    ops=ops, which=j, kind=desc)
            ops.append("R%d" % j)
        # older snapshots are not disturbed by what happened since
        c.require([id(p) for p in t._training_params()] == ids,
                  "same_parameters", "the trainable tensors were replaced",
                  ops=ops)
    for j in rng.permutation(len(snaps)):
        t._set_training_params(snaps[j][0])
        c.close(every(t), snaps[j][1], "restore",
                "restored values differ from the snapshot", tol=0, ops=ops,
                which=j, kind=desc)
    c.ev("snapshots", len(snaps))
    c.ev("steps", len(ops))
    c.key("snap", desc, "".join(ops), every(t))
    c.note(kind=desc, history="-".join(ops))


@chk.section(quick=175, thorough=900)
def best_restored(c, rng, i):
    """Sample descent keeps the parameters with the lowest recorded loss."""
    t, S, L, ropt, desc = trainer(rng)
    npos, nder = int(rng.integers(12, 20)), int(rng.integers(21, 30))
    P = T(points(rng, S.lo, S.up, npos))
    D = T(points(rng, S.lo, S.up, nder))
    o = tlb.Trainer.AdversarialTrainingOptions()
    o.num_batches = int(rng.integers(2, 5))
    o.num_epochs_per_mip = int(rng.integers(1, 8))
    o.adversarial_cluster_radius = .1
    ps = t._training_params()
    opt = torch.optim.Adam(ps, lr=t.learning_rate)
    with contextlib.redirect_stdout(io.StringIO()):
        t._batch_descent_on_samples(
            P, D, opt, torch.ones(npos, dtype=P.dtype),
            torch.ones(nder, dtype=P.dtype), o)

    def full_loss():
        r = t.lyapunov_hybrid_system
        return t.lyapunov_sample_loss(
            P, D, r.system.step_forward(D),
            t.lyapunov_positivity_sample_cost_weight,
            t.lyapunov_derivative_sample_cost_weight)
    seen = [v for sh, p, d, v in t.log if p.shape[0] == npos and
            d.shape[0] == nder]
    batches = [(p.shape[0], d.shape[0]) for sh, p, d, v in t.log
               if not (p.shape[0] == npos and d.shape[0] == nder)]
    c.require(len(seen) >= 2, "evaluations", "no evaluation of all samples")
    a, b = full_loss()
    end = float(a + b)
    c.require(end <= min(seen) + 1e-9 * (1 + abs(min(seen))), "best_restored",
              "the parameters left behind are not the best ones seen",
              end=end, seen=seen, kind=desc)
    c.require(len(batches) > 0 and all(p <= -(-npos // o.num_batches) and
                                       d <= -(-nder // o.num_batches)
                                       for p, d in batches), "batches",
              "batch sizes", batches=batches[:6])
    c.ev("full evaluations", len(seen))
    c.ev("batches", len(batches))
    c.ev("best before last" if np.argmin(seen) < len(seen) - 1 else
         "best is last")
    c.key("descent", desc, seen)
    c.note(kind=desc, losses=seen)


@chk.section(quick=116, thorough=600)
def on_samples(c, rng, i):
    """train_lyapunov_on_samples restores the best test loss."""
    t, S, L, ropt, desc = trainer(rng)
    n = int(rng.integers(41, 55))
    ntest = n - int(n * .8)
    X = T(rng.uniform(S.lo, S.up, size=(n, S.n)))
    bs = ntest + 1
    if int(n * .8) % bs == ntest:
        bs += 1
    if int(n * .8) % bs == ntest:
        raise Skip("batch size equals test size")
    ne = int(rng.integers(1, 5))
    v0 = every(t)
    with contextlib.redirect_stdout(io.StringIO()):
        t.train_lyapunov_on_samples(X, ne, bs)
    tests = [(p, d, v) for sh, p, d, v in t.log if p.shape[0] == ntest]
    c.require(len(tests) >= ne, "evaluations", "no test evaluation",
              log=[x[0] for x in t.log][:8])
    Pt, Dt = tests[0][0], tests[0][1]
    dn = torch.stack([t.lyapunov_hybrid_system.system.step_forward(x)
                      for x in Dt])
    a, b = t.lyapunov_sample_loss(
        Pt, Dt, dn, t.lyapunov_positivity_sample_cost_weight,
        t.lyapunov_derivative_sample_cost_weight)
    best = min(v for _, _, v in tests)
    c.require(float(a + b) <= best + 1e-9 * (1 + abs(best)), "best_restored",
              "the parameters left behind are not the best ones seen",
              end=float(a + b), seen=[v for _, _, v in tests], kind=desc)
    # the test samples are not trained on
    rows = {tuple(x) for x in N(Pt)}
    trained = [x for sh, p, d, v in t.log if p.shape[0] != ntest
               for x in N(d)]
    c.require(not any(tuple(x) in rows for x in trained), "held_out",
              "a test sample was used for training")
    c.require(len({tuple(x) for x in trained} | rows) ==
              len({tuple(x) for x in N(X)}), "all_samples",
              "not every sample is used")
    c.ev("epochs", ne)
    c.key("on_samples", desc, [v for _, _, v in tests])
    c.note(kind=desc, moved=float(np.abs(every(t) - v0).max()))


if __name__ == "__main__":
    chk.main()

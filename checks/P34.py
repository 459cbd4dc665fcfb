"""P34: dynamics learning: losses, rollouts, training steps, checkpoints."""
import copy
import os
import sys
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, points, net_np, fwd  # noqa: E402
import sysgen  # noqa: E402
from lyapref import Now  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.dynamics_learning as dl  # noqa: E402
import neural_network_lyapunov.training_log as tlog  # noqa: E402

chk = Check("P34", rule="random learned models (given equilibrium, residual; "
            "state space and latent, with linear encoders) x option sets x "
            "batches, horizons and training histories; non-trivial: distinct "
            "(models, options, data)",
            assumptions=["torch/numpy re-implementation of every documented "
                         "loss", "the noise of a variational encoder is "
                         "judged statistically, elsewhere its variance is "
                         "negligible", "program gradients are those of the "
                         "programs (see P11)"])
DT = torch.float64


class Writer:
    def __init__(self, *a, **k):
        self.rows = []

    def add_scalar(self, name, value, step):
        v = value.item() if isinstance(value, torch.Tensor) else value
        self.rows.append((name, float(v), float(step)))

    def add_scalars(self, tag, d, step):
        self.rows.append((tag, {k: float(v) for k, v in d.items()}, step))


dl.SummaryWriter = Writer
tlog.SummaryWriter = Writer


class Enc(torch.nn.Module):
    def __init__(self, rng, chan, w, h, z, logvar=-70.):
        super().__init__()
        k = chan * w * h
        self.lin = torch.nn.Linear(k, z)
        self.var = torch.nn.Linear(k, z)
        self.lin.weight.data = T(rng.normal(size=(z, k)) * 1.5 / np.sqrt(k))
        self.lin.bias.data = T(rng.normal(size=z) * .2)
        self.var.weight.data = T(np.zeros((z, k)))
        self.var.bias.data = T(np.full(z, logvar))
        self.type(DT)

    def forward(self, x):
        f = x.reshape(x.shape[0], -1)
        return self.lin(f), self.var(f)


class Dec(torch.nn.Module):
    def __init__(self, rng, chan, w, h, z, bce):
        super().__init__()
        self.shape, self.bce = (chan, w, h), bce
        k = chan * w * h
        self.lin = torch.nn.Linear(z, k)
        self.lin.weight.data = T(rng.normal(size=(k, z)))
        self.lin.bias.data = T(rng.normal(size=k))
        self.type(DT)

    def forward(self, z):
        y = self.lin(z).reshape((z.shape[0], ) + self.shape)
        return torch.sigmoid(y) if self.bce else y


class World:
    """A learner with its options and an independent torch reference."""

    def __init__(self, c, rng, latent=None, **force):
        self.c, self.rng = c, rng
        self.latent = bool(rng.random() < .5) if latent is None else latent
        n = int(rng.integers(2 if self.latent else 1, 4))
        self.S = S = sysgen.auto_relu(
            rng, n=n, kind=("given", "residual")[int(rng.integers(2))],
            maxunits=6)
        self.L = L = sysgen.Lyap(rng, n, S.eq, maxunits=5)
        self.n = n
        self.lyap = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
        w = (lambda: float(rng.choice([0., 1., .3, 2.5])))
        self.wd, self.ht = (int(v) for v in rng.integers(2, 5, size=2))
        self.chan = 3 if rng.random() < .3 else 1
        slo = S.lo + (S.up - S.lo) * rng.uniform(-.2, .4, n)
        sup = S.up - (S.up - S.lo) * rng.uniform(-.2, .4, n)
        o = dict(
            dtype=DT, x_dim=n, z_dim=n, V_lambda=L.lam,
            V_eps_pos=float(rng.choice([0., .01, .3])),
            V_eps_der_lo=float(rng.choice([0., .1, .5])),
            V_eps_der_up=float(rng.choice([.001, .3, .9])),
            R=L.R, use_bce=bool(rng.random() < .5),
            use_variational=bool(rng.random() < .4),
            kl_weight_lo=float(rng.uniform(0, 1)),
            kl_weight_up=float(rng.uniform(0, 3)),
            kl_weight_center_step=int(rng.integers(0, 8)),
            kl_weight_steps_lo_to_up=int(rng.integers(1, 6)),
            decoded_equilibrium_loss_weight=float(rng.uniform(0, 2)),
            image_width=self.wd, image_height=self.ht,
            x_lo_stable=T(slo), x_up_stable=T(sup),
            z_lo_stable=T(slo), z_up_stable=T(sup),
            lyap_loss_optimal=True,
            lyap_loss_warmstart=bool(rng.random() < .4),
            lyap_loss_freq=int(rng.choice([0, 0, 1, 2])),
            lyap_pos_loss_at_samples_weight=w(),
            lyap_der_lo_loss_at_samples_weight=w(),
            lyap_der_up_loss_at_samples_weight=w(),
            lyap_pos_loss_weight=w(), lyap_der_lo_loss_weight=w(),
            lyap_der_up_loss_weight=w())
        o.update(force)
        self.slo, self.sup = slo, sup
        self.opt = dl.DynamicsLearningOptions(dict(o))
        self.o = types.SimpleNamespace(**o)
        self.enc = self.dec = self.deq = None

    def image(self, k, chan):
        r = self.rng
        x = r.random((k, chan, self.wd, self.ht))
        if r.random() < .4:
            x = np.round(x)
        return x

    def data(self, k):
        """A batch (x, x_next)."""
        r, S = self.rng, self.S
        if not self.latent:
            # inside, outside, and on the rim of the sample box
            x = points(r, S.lo - .2, S.up + .2, k)
            rim = r.random(k) < .15
            x[rim] = np.clip(x[rim], self.slo, self.sup)
            return T(x), T(x + r.normal(size=x.shape) * .3)
        short = r.random() < .6
        return (T(self.image(k, 2 * self.chan)),
                T(self.image(k, (1 if short else 2) * self.chan)))

    def make(self, train=None, val=None, logvar=-70.):
        r = self.rng
        if not self.latent:
            self.learner = dl.StateSpaceDynamicsLearning(
                train, val, self.lyap, self.opt)
        else:
            self.enc = Enc(r, 2 * self.chan, self.wd, self.ht, self.n, logvar)
            self.enc.lin.bias.data += T(self.S.eq)
            self.dec = Dec(r, 2 * self.chan, self.wd, self.ht, self.n,
                           self.o.use_bce)
            if r.random() < .5:
                self.deq = T(self.image(1, 2 * self.chan)[0])
            self.learner = dl.LatentSpaceDynamicsLearning(
                train, val, self.lyap, self.opt, self.enc, self.dec,
                decoded_equilibrium=self.deq)
        self.logvar = logvar
        self.desc = (self.S.desc, self.L.desc, self.latent,
                     self.o.use_bce if self.latent else None,
                     self.o.use_variational if self.latent else None)
        return self.learner

    # the reference, in torch so that it has a gradient

    def nets(self):
        return [self.L.net, self.S.net] + (
            [self.enc, self.dec] if self.latent else [])

    def step(self, x):
        eq = T(self.S.eq)
        d = self.S.net(x) - self.S.net(eq)
        return d + (eq if self.S.kind == "relu_given" else x)

    def V(self, x):
        eq, R = T(self.S.eq), T(self.L.Rn)
        return (self.L.net(x) - self.L.net(eq))[..., 0] + \
            self.o.V_lambda * torch.abs((x - eq) @ R.T).sum(-1)

    def sample_losses(self, x):
        """The three weighted losses at samples (documented formulas)."""
        o = self.o
        if self.latent:
            x = self.enc(x)[0]
        keep = torch.all((x >= T(self.slo)) & (x <= T(self.sup)), dim=1)
        x = x[keep]
        if not len(x):
            z = torch.zeros(1, dtype=DT)
            return z, z, z
        y = self.step(x)
        l1 = torch.abs((x - T(self.S.eq)) @ T(self.L.Rn).T).sum(-1)
        v, vn = self.V(x), self.V(y)
        h = (lambda q: torch.relu(q).mean())
        return (o.lyap_pos_loss_at_samples_weight * h(o.V_eps_pos * l1 - v),
                o.lyap_der_lo_loss_at_samples_weight *
                h(vn - v + o.V_eps_der_lo * v),
                o.lyap_der_up_loss_at_samples_weight *
                h(-(vn - v + o.V_eps_der_up * v)))

    def rec(self, x, pred):
        if not self.o.use_bce:
            return ((x - pred)**2).mean()
        return torch.nn.functional.binary_cross_entropy(pred, x)

    def dynamics(self, x, xn, it):
        if not self.latent:
            return ((self.step(x) - xn)**2).mean()
        mu, lv = self.enc(x)
        if xn.shape[1] < x.shape[1]:
            xn = torch.cat((x[:, xn.shape[1]:], xn), dim=1)
        loss = self.rec(x, self.dec(mu)) + \
            self.rec(xn, self.dec(self.step(mu)))
        if self.o.use_variational:
            loss = loss + self.klw(it) * self.kl(mu, lv)
        if self.deq is not None:
            loss = loss + self.o.decoded_equilibrium_loss_weight * self.rec(
                self.deq[None], self.dec(T(self.S.eq)[None]))
        return loss

    @staticmethod
    def kl(mu, lv):
        return (.5 * (mu**2 + torch.exp(lv) - lv - 1)).sum(dim=1).mean()

    def klw(self, it):
        o = self.o
        s = (it - o.kl_weight_center_step) / o.kl_weight_steps_lo_to_up
        return o.kl_weight_lo + (o.kl_weight_up - o.kl_weight_lo) / (
            1 + np.exp(-s))

    def now(self):
        R = T(self.L.Rn)
        return Now(types.SimpleNamespace(
            x_equilibrium=T(self.S.eq), lyapunov_hybrid_system=self.lyap,
            R_options=types.SimpleNamespace(R=lambda: R),
            V_lambda=self.o.V_lambda), self.S)


def near_kink(W, x):
    """A hinge or the sample box at its kink: selection may go either way."""
    with torch.no_grad():
        z = W.enc(x)[0] if W.latent else x
        d = torch.minimum((z - T(W.slo)).abs().min(),
                          (z - T(W.sup)).abs().min())
    return W.latent and float(d) < 1e-9


@chk.section(quick=250, thorough=5000)
def losses(c, rng, i):
    W = World(c, rng)
    d = W.make()
    d.n_iter = int(rng.integers(0, 12))
    x, xn = W.data(int(rng.integers(1, 7)))
    if near_kink(W, x):
        raise Skip("at the rim of the sample box")
    want = W.dynamics(x, xn, d.n_iter)
    got = d.dynamics_loss(x, xn)
    c.close(N(got), N(want), "dynamics_loss", "dynamics loss", tol=1e-8,
            desc=W.desc)
    for k, (g, w) in enumerate(zip(d.lyapunov_loss_at_samples(x),
                                   W.sample_losses(x))):
        c.close(float(g), float(w), "lyapunov_at_samples",
                ("positivity", "decrease low", "decrease up")[k], tol=1e-8,
                desc=W.desc, x=x)
    # gradients of the summed loss
    ps = [p for n in W.nets() for p in n.parameters()]
    got = got + sum(d.lyapunov_loss_at_samples(x))
    want = want + sum(W.sample_losses(x))
    g = torch.autograd.grad(got, ps, allow_unused=True)
    w = torch.autograd.grad(want, ps, allow_unused=True)
    for a, q in zip(g, w):
        z = (lambda t: 0. if t is None else N(t))
        c.close(z(a) + 0 * z(q), z(q) + 0 * z(a), "loss_gradient",
                "gradient of the loss", tol=1e-7, desc=W.desc)
    if W.latent:
        mu, lv = rng.normal(size=(3, W.n)), rng.normal(size=(3, W.n))
        c.close(float(d.kl_loss(T(mu), T(lv))),
                W.klw(d.n_iter) * float(W.kl(T(mu), T(lv))), "kl",
                "weighted divergence", tol=1e-9)
        out = d.vae_forward(x)
        with torch.no_grad():
            m = W.enc(x)[0]
            for q, r, what in zip((out[0], out[1], out[2], out[4]),
                                  (W.dec(m), W.dec(W.step(m)), m, W.step(m)),
                                  ("decoded", "predicted", "mean", "next")):
                c.close(N(q), N(r), "vae_forward", what, tol=1e-8)
        c.require((out[3] is None) == (not W.o.use_variational),
                  "vae_forward", "log variance")
    c.key("losses", W.desc, x, xn)
    c.ev("losses", 4)
    c.note(desc=W.desc)


@chk.section(quick=16, thorough=160)
def noise(c, rng, i):
    """Variational samples have the encoded mean and variance."""
    W = World(c, rng, latent=True, use_variational=True)
    d = W.make()
    n = 20000
    mu, lv = rng.normal(size=W.n), rng.uniform(-4, 2, W.n)
    torch.manual_seed(int(rng.integers(2**31)))
    z = N(d.reparam(T(np.tile(mu, (n, 1))), T(np.tile(lv, (n, 1)))))
    sd = np.exp(.5 * lv)
    u = (z - mu) / sd
    c.require(np.all(np.abs(u.mean(axis=0)) < 6.5 / np.sqrt(n)),
              "reparam_mean", "mean of the samples", got=u.mean(axis=0))
    c.require(np.all(np.abs(u.var(axis=0) - 1) < 6.5 * np.sqrt(2 / n)),
              "reparam_variance", "variance", got=u.var(axis=0))
    if W.n > 1:
        r = np.abs(np.corrcoef(u.T) - np.eye(W.n)).max()
        c.require(r < 6.5 / np.sqrt(n), "reparam_independent",
                  "correlated noise", r=r)
    c.require(abs((u[1:] * u[:-1]).mean()) < 6.5 / np.sqrt(n),
              "reparam_independent", "correlated across samples")
    c.ev("samples", n)
    c.key(mu, lv)
    # a rollout with noise is one trajectory of the latent dynamics
    for p in (W.enc.var, ):
        p.bias.data = T(rng.uniform(-3, 0, W.n))
    k = int(rng.integers(0, 5))
    x0 = T(W.image(1, 2 * W.chan)[0])
    X, V, Z = d.rollout(x0, k)
    with torch.no_grad():
        for j in range(k + 1):
            c.close(float(V[j]), float(W.V(Z[j])), "noisy_rollout",
                    "value along the trajectory", tol=1e-8, step=j)
        for j in range(k):
            z = W.step(Z[j][None])[0]
            c.close(N(Z[j + 1]), N(z), "noisy_rollout", "next latent state",
                    tol=1e-8, scale=1 + float(z.abs().max()), step=j)
            c.close(N(X[j + 2]), N(W.dec(z[None])[0, W.chan:]),
                    "noisy_rollout", "decoded state", tol=1e-8,
                    scale=1 + float(z.abs().max()), step=j)
    c.ev("steps of noisy rollouts", k)


@chk.section(quick=60, thorough=1200, floor=.6)
def programs(c, rng, i):
    """Worst-violation losses and adversarial states."""
    opt = bool(rng.random() < .7)
    W = World(c, rng, lyap_loss_optimal=opt)
    d = W.make()
    w, o = W.now(), W.o
    sc = w.scale()
    E = lyapunov.ConvergenceEps

    def viols(pad):
        # searched states keep their successor in the box exactly, states
        # of the solver up to rounding
        return [lambda X: w.positivity(X, o.V_eps_pos),
                lambda X: w.decrease(X, E.ExpLower, o.V_eps_der_lo, pad=pad),
                lambda X: w.decrease(X, E.ExpUpper, o.V_eps_der_up, pad=pad)]

    fs = viols(1e-6)
    wts = (o.lyap_pos_loss_weight, o.lyap_der_lo_loss_weight,
           o.lyap_der_up_loss_weight)
    thr = [0.] * 3 if rng.random() < .5 else list(rng.uniform(0, .5, 3))
    bx = [w.worst(f, rng) for f in viols(0.)]
    best = [q[0] for q in bx]
    if not opt and rng.random() < .7:  # thresholds among the violations
        thr = [b * float(rng.uniform(-.3, 1.1)) for b in best]
    hook = rng.integers(2**31)
    for rep in range(2):
        if not opt:  # the solver meets lesser solutions first
            gurobipy.INCUMBENT_HOOK = lambda m, k: [
                np.random.default_rng(hook + j).normal(size=k)
                for j in range(2)]
        try:
            loss = [float(v) for v in d.lyapunov_loss(*thr)]
        finally:
            gurobipy.INCUMBENT_HOOK = None
        for k, what in enumerate(("positivity", "decrease_low",
                                  "decrease_up")):
            if not opt and loss[k] == 0. and wts[k] > 0:
                c.ev("no gradient at an early solution")
                continue
            c.require(loss[k] >= wts[k] * (best[k] if opt else
                                           min(best[k], thr[k])) -
                      5e-6 * sc * (1 + wts[k]), what,
                      "worst violation below one that is attained" if opt
                      else "stopped below its threshold",
                      got=loss[k], found=best[k], weight=wts[k],
                      threshold=thr, desc=W.desc, x=bx[k][1], next=w.nexts(bx[k][1]), lo=W.S.lo,
                      up=W.S.up)
            if wts[k] == 0:
                c.close(loss[k], 0., what, "weight 0")
            if o.lyap_loss_warmstart and opt:
                x = N((d.lyap_pos_x_adv, d.lyap_der_lo_x_adv,
                       d.lyap_der_up_x_adv)[k])
                c.require(np.all((x >= W.S.lo - 1e-6) &
                                 (x <= W.S.up + 1e-6)), what, "outside", x=x)
                c.close(loss[k], wts[k] * float(fs[k](x[None])[0]), what,
                        "violation at the kept state", tol=1e-5,
                        scale=sc * (1 + wts[k]), x=x, desc=W.desc)
    c.ev("programs", 6)
    adv = d.adversarial_samples()
    c.require(len(adv) == 3, "adversarial", "three sets", n=len(adv))
    for k, what in enumerate(("positivity", "decrease_low", "decrease_up")):
        A = N(adv[k]).reshape(-1, W.n)
        if not len(A):
            c.require(best[k] <= 5e-6 * sc, what + "_adversarial",
                      "violations exist but none is returned", found=best[k],
                      desc=W.desc)
            continue
        c.require(np.all((A >= W.S.lo - 1e-6) & (A <= W.S.up + 1e-6)),
                  what + "_adversarial", "outside the box", A=A)
        F = fs[k](A)
        c.require(np.all(F > -5e-6 * sc), what + "_adversarial",
                  "a state without a violation", A=A, F=F, desc=W.desc)
        if opt:
            c.require(F[0] >= max(best[k], F.max()) - 1e-5 * sc,
                      what + "_adversarial", "first state is not the worst",
                      F=F, found=best[k], desc=W.desc)
        c.ev("adversarial states", len(A))
    c.key("programs", W.desc, best)
    c.note(desc=W.desc, found=best, optimal=opt)


def ref_rollout(W, x0, n, through=False):
    with torch.no_grad():
        if not W.latent:
            X = [x0]
            for _ in range(n):
                X.append(W.step(X[-1][None])[0])
            return torch.stack(X), torch.stack([W.V(x) for x in X])
        C = W.chan
        X, Z = [x0[:C], x0[C:]], [W.enc(x0[None])[0][0]]
        for k in range(n):
            if through:
                z = W.enc(torch.cat((X[k], X[k + 1]))[None])[0][0]
                z = W.step(z[None])[0]
            else:
                z = W.step(Z[-1][None])[0]
            Z.append(z)
            X.append(W.dec(z[None])[0, C:])
        return (torch.stack(X), torch.stack([W.V(z) for z in Z]),
                torch.stack(Z))


def ref_rollout_loss(W, roll, through=False):
    r = N(roll)
    if not W.latent:
        p = N(ref_rollout(W, roll[0], len(roll) - 1)[0])
        return ((r - p)**2).mean(axis=1)
    p = N(ref_rollout(W, torch.cat((roll[0], roll[1])), len(roll) - 2,
                      through)[0])
    if W.o.use_bce:
        with np.errstate(divide="ignore"):
            e = -(r * np.maximum(np.log(p), -100) +
                  (1 - r) * np.maximum(np.log(1 - p), -100))
    else:
        e = (r - p)**2
    return e.mean(axis=(1, 2, 3))


@chk.section(quick=200, thorough=4000)
def rollouts(c, rng, i):
    W = World(c, rng)
    d = W.make()
    n = int(rng.integers(0, 7))
    many = []
    for j in range(int(rng.integers(1, 4))):
        if W.latent:
            many.append(T(self_image(W, n + 2)))
        else:
            many.append(T(points(rng, W.S.lo, W.S.up, n + 1)))
    through = bool(W.latent and rng.random() < .5)
    kw = dict(decode_intermediate=through) if W.latent else {}
    x0 = torch.cat((many[0][0], many[0][1])) if W.latent else many[0][0]
    keep = x0.clone()
    out = d.rollout(x0, n, **kw)
    ref = ref_rollout(W, x0, n, through)
    big = 1 + max(float(np.abs(N(r)).max()) for r in ref)
    c.require(len(out) == len(ref), "rollout", "number of results")
    for g, r, what in zip(out, ref, ("trajectory", "V", "latent")):
        c.close(N(g), N(r), "rollout", what, tol=1e-8, scale=big,
                desc=W.desc, through=through, n=n)
    c.close(N(x0), N(keep), "rollout", "initial state changed", tol=0)
    got = d.rollout_loss(many[0], **kw)
    want = ref_rollout_loss(W, many[0], through)
    c.close(N(got), want, "rollout_loss", "loss along the rollout", tol=1e-8,
            scale=big**2 * 100, desc=W.desc, through=through)
    tot = sum(ref_rollout_loss(W, m) for m in many)
    v = N(d.rollout_validation(many))
    f = len(many) if abs(v.sum() * len(many) - tot.sum()) < \
        abs(v.sum() - tot.sum()) else 1
    c.close(v * f, tot, "rollout_validation", "loss over the rollouts",
            tol=1e-8, scale=big**2 * 100, desc=W.desc)
    c.key("rollout", W.desc, N(x0), n)
    c.ev("steps", n)
    c.note(desc=W.desc, steps=n)


def self_image(W, k):
    return W.image(k, W.chan)


def clone(W):
    """An independent copy of the networks with the same reference."""
    Q = copy.copy(W)
    Q.L, Q.S = copy.copy(W.L), copy.copy(W.S)
    Q.lyap = copy.deepcopy(W.lyap)
    Q.S.repo = Q.lyap.system
    Q.L.net, Q.S.net = Q.lyap.lyapunov_relu, Q.lyap.system.dynamics_relu
    Q.enc, Q.dec = copy.deepcopy(W.enc), copy.deepcopy(W.dec)
    return Q


def params(W):
    return [p for n in W.nets() for p in n.parameters()]


def learner_of(W):
    if W.latent:
        d = dl.LatentSpaceDynamicsLearning(None, None, W.lyap, W.opt, W.enc,
                                           W.dec, decoded_equilibrium=W.deq)
    else:
        d = dl.StateSpaceDynamicsLearning(None, None, W.lyap, W.opt)
    return d


@chk.section(quick=60, thorough=1200, floor=.6)
def training(c, rng, i):
    """Every parameter after training is the one the losses demand."""
    W = World(c, rng, lyap_loss_warmstart=False)
    nb, ne = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    val = [W.data(int(rng.integers(1, 5))) for _ in range(2)]
    data = [W.data(int(rng.integers(1, 5))) for _ in range(nb)]
    d = W.make(data, val)
    if any(near_kink(W, x) for x, _ in data + val):
        raise Skip("at the rim of the sample box")
    only = bool(rng.random() < .25)
    adam = bool(rng.random() < .4)
    Q = clone(W)
    ps, qs = params(W), params(Q)
    ad = list(W.L.net.parameters()) if only else ps
    aq = list(Q.L.net.parameters()) if only else qs
    lr = float(rng.choice([.001, .01]))
    if adam or only:
        # the learner's own optimizer
        if only:
            d.reset_optimizer(lyapunov_only=True)
        opt = torch.optim.Adam(aq)
    else:
        d.optimizer = torch.optim.SGD(ad, lr=lr)
        d.writer = Writer()
        opt = torch.optim.SGD(aq, lr=lr)
    validate = bool(rng.random() < .5)
    path = os.path.join(c.scratch(), "nets", "x") if rng.random() < .5 \
        else None
    rate = int(rng.integers(0, 3)) if path else 0
    cwd = os.getcwd()
    os.chdir(c.scratch())
    try:
        d.train(ne, validate=validate, save_rate=rate, save_path=path)
    except gurobipy.GurobiError as ex:
        if max(float(p.abs().max()) for p in ps) < 1e3 and \
                "passModel" not in str(ex):
            raise
        # or layers below the resolution of the solver (weights of 1e-12)
        raise Skip("training diverged")
    finally:
        os.chdir(cwd)
    if max(float(p.abs().max()) for p in ps) > 1e3:
        raise Skip("training diverged")
    # the same history with the reference
    it, log = 0, []
    sure = [np.ones(p.shape, dtype=bool) for p in qs]

    def step():
        # Adam divides by the gradient's size: below 1e-6 that is noise
        for k, q in enumerate(qs):
            g = 0. if q.grad is None else np.abs(N(q.grad))
            sure[k] &= (g == 0.) | (g > 1e-6)
        opt.step()

    f = W.o.lyap_loss_freq
    for ep in range(ne):
        for x, xn in data:
            opt.zero_grad()
            dyn, smp = Q.dynamics(x, xn, it), Q.sample_losses(x)
            (dyn + sum(smp)).sum().backward()
            step()
            log += [("Dynamics/train", float(dyn), it),
                    ("LyapunovPosSamples/train", float(smp[0]), it),
                    ("LyapunovDerSamples/low/train", float(smp[1]), it),
                    ("LyapunovDerSamples/up/train", float(smp[2]), it)]
            if f > 0 and it % f == 0:
                opt.zero_grad()
                try:
                    mip = learner_of(Q).lyapunov_loss()
                except gurobipy.GurobiError as ex:
                    if "passModel" not in str(ex):
                        raise
                    raise Skip("below the resolution of the solver")
                sum(mip).backward()
                step()
                log += [("LyapunovPos/train", float(mip[0]), it),
                        ("LyapunovDer/low/train", float(mip[1]), it),
                        ("LyapunovDer/up/train", float(mip[2]), it)]
            it += 1
        if validate:
            with torch.no_grad():
                k = sum(len(x) for x, _ in val)
                v = [sum(len(x) * Q.dynamics(x, y, it) for x, y in val) / k]
                s = [Q.sample_losses(x) for x, _ in val]
                v += [sum(len(x) * q[j] for (x, _), q in zip(val, s)) / k
                      for j in range(3)]
            log += [(n + "/validate", float(q), it) for n, q in zip(
                ("Dynamics", "LyapunovPosSamples", "LyapunovDerSamples/low",
                 "LyapunovDerSamples/up"), v)]
    c.require(d.n_iter == it, "iterations", "batches counted", n=d.n_iter)
    own = adam or only
    for k, (p, q) in enumerate(zip(ps, qs)):
        m = sure[k] if own else sure[k] | True
        c.close(N(p)[m], N(q)[m], "training", "parameter after training",
                tol=2e-6 if f or own else 1e-8, desc=W.desc, number=k, freq=f,
                only=only, adam=own)
    rows = {}
    for n, v, s in (d.writer.rows if d.writer else []):
        rows.setdefault(n, []).append((s, v))
    for n in {r[0] for r in log}:
        want = [(s, v) for m, v, s in log if m == n]
        got = rows.get(n, [])
        c.close(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2),
                "logged", "logged values of " + n, tol=1e-5 if f else 1e-7)
    if path:
        e = load(W, path)
        for p, q in zip(params_of(e, W), ps):
            c.close(N(p), N(q), "saved", "parameters at the end", tol=0)
        c.ev("models saved by training")
    c.key("training", W.desc, ne, nb, f)
    c.ev("batches", it)
    c.note(desc=W.desc, epochs=ne, batches=nb, freq=f, only=only)


class Stopping:
    """A data loader that looks at the disk and stops at one batch."""

    def __init__(self, data, look, at, how):
        self.data, self.look, self.at, self.how = data, look, at, how
        self.epoch = -1

    def __iter__(self):
        self.epoch += 1
        self.look(self.epoch)
        for b, q in enumerate(self.data):
            if (self.epoch, b) == self.at and self.how is not None:
                raise self.how("stop")
            yield q


@chk.section(quick=48, thorough=800, floor=.6)
def interrupted(c, rng, i):
    """What is on disk during, after and instead of a whole training."""
    W = World(c, rng, lyap_loss_freq=0)
    nb, ne = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    data = [W.data(int(rng.integers(1, 5))) for _ in range(nb)]
    path = os.path.join(c.scratch(), "nets")
    rate = int(rng.integers(0, 4))
    how = (None, KeyboardInterrupt, RuntimeError)[int(rng.integers(3))]
    at = int(rng.integers(ne)), int(rng.integers(nb))
    kept = {"at": None}

    def same(what):
        if kept["at"] is None:
            c.require(not os.path.exists(os.path.join(path,
                                                      "dyn_learner.pkl")),
                      "on_disk", "nothing is saved yet", rate=rate)
            return
        e = load(W, path)
        for p, q in zip(params_of(e, W), kept["at"]):
            c.require(np.array_equal(N(p), q, equal_nan=True), "on_disk",
                      what, rate=rate, epochs=ne, stop=at, how=str(how),
                      got=N(p), want=q, desc=W.desc)
        c.ev("saved models read back")

    def look(epoch):
        # the networks are saved every save_rate epochs, counted from 0
        if epoch > 0 and rate > 0 and (epoch - 1) % rate == 0:
            kept["at"] = [N(p).copy() for p in params(W)]
        same("the last of every %d epochs" % rate)

    d = W.make(Stopping(data, look, at, how), [])
    d.optimizer = torch.optim.SGD(params(W), lr=.002)
    raised = False
    cwd = os.getcwd()
    os.chdir(c.scratch())
    try:
        d.train(ne, save_rate=rate, save_path=path)
    except RuntimeError as ex:
        if str(ex) != "stop":
            raise
        raised = True
    finally:
        os.chdir(cwd)
    c.require(raised == (how is RuntimeError), "interrupt",
              "an error surfaces, an interrupt ends the training",
              raised=raised, how=str(how))
    done = ne * nb if how is None else at[0] * nb + at[1]
    c.require(d.n_iter == done, "interrupt", "batches trained on",
              n=d.n_iter, want=done)
    if not raised:
        kept["at"] = [N(p).copy() for p in params(W)]
    same("at the end")
    c.key("interrupted", W.desc, ne, nb, rate, str(how), at)
    c.ev("trainings " + ("completed" if how is None else "stopped by " +
                         how.__name__))


def load(W, path):
    cls = dl.LatentSpaceDynamicsLearning if W.latent else \
        dl.StateSpaceDynamicsLearning
    return cls.load(path, None, None, W.opt)


def params_of(e, W):
    nets = [e.lyap.lyapunov_relu, e.lyap.system.dynamics_relu]
    if W.latent:
        nets += [e.encoder, e.decoder]
    return [p for n in nets for p in n.parameters()]


@chk.section(quick=60, thorough=1000)
def checkpoints(c, rng, i):
    W = World(c, rng)
    d = W.make()
    path = os.path.join(c.scratch(), "a", "b") if rng.random() < .5 else \
        c.scratch()
    d.save(path)
    if rng.random() < .5:     # saving again replaces the first
        for p in params(W):
            p.data.add_(T(rng.normal(size=p.shape) * .1))
        d.save(path)
    x, xn = W.data(3)
    want = [float(d.dynamics_loss(x, xn))] + \
        [float(v) for v in d.lyapunov_loss_at_samples(x)]
    if W.latent:
        x0 = T(W.image(1, 2 * W.chan)[0])
    else:
        x0 = T(points(rng, W.S.lo, W.S.up, 1)[0])
    roll = [N(v) for v in d.rollout(x0, 3)]
    before = [N(p).copy() for p in params(W)]
    for p in params(W):       # what is saved is not the live model
        p.data.mul_(1.5)
    e = load(W, path)
    for p, q in zip(params_of(e, W), before):
        c.close(N(p), q, "loaded", "parameters", tol=0)
    got = [float(e.dynamics_loss(x, xn))] + \
        [float(v) for v in e.lyapunov_loss_at_samples(x)]
    c.close(np.array(got), np.array(want), "loaded", "losses", tol=1e-9,
            desc=W.desc)
    for g, r in zip(e.rollout(x0, 3), roll):
        c.close(N(g), r, "loaded", "rollout", tol=1e-9,
                scale=1 + np.abs(r).max())
    s, t = e.lyap.system, W.lyap.system
    for n in ("x_lo_all", "x_up_all", "x_equilibrium"):
        q = getattr(t, n)
        c.close(N(getattr(s, n)), N(q), "loaded", n, tol=0)
    if W.latent and W.deq is not None:
        c.close(N(e.decoded_equilibrium), N(W.deq), "loaded",
                "decoded equilibrium", tol=0)
    c.key("checkpoint", W.desc, N(x))
    c.ev("models loaded")


@chk.section(quick=200, thorough=2000)
def options_and_logs(c, rng, i):
    keys = ["k%d" % j for j in range(6)]
    ref, ops = {}, []
    o = dl.DynamicsLearningOptions({})
    for _ in range(int(rng.integers(1, 12))):
        if rng.random() < .5:
            k, v = keys[int(rng.integers(6))], float(rng.normal())
            o.set_option(k, v)
            ref[k] = v
        else:
            u = {k: float(rng.normal()) for k in keys if rng.random() < .4}
            o.set_options(u)
            ref.update(u)
        ops.append(len(ref))
        for k in keys:
            try:
                got = getattr(o, k)
            except AttributeError:
                got = None
            c.require(got == ref.get(k), "options", "value of an option",
                      key=k, got=got, want=ref.get(k))
    dim = int(rng.integers(1, 4))
    first = bool(rng.random() < .5)
    w = Writer()
    g = tlog.TrainingLog(dim, "p", w, first)
    tr, va = [], []
    for _ in range(int(rng.integers(1, 9))):
        v = rng.normal(size=dim)
        if rng.random() < .5:
            tr.append(v)
            g.add_train_loss(v)
        else:
            va.append(v)
            g.add_validation_loss(v)
    h = tlog.TrainingLog.get_copy(g, prefix="q", keep_writer=True)
    g.add_train_loss(np.zeros(dim))
    c.close(h.train_losses, np.array(tr).reshape(-1, dim), "log",
            "train losses", tol=0)
    c.close(h.validation_losses, np.array(va).reshape(-1, dim), "log",
            "validation losses", tol=0)
    c.close(g.train_losses, np.vstack(tr + [np.zeros(dim)]), "log",
            "train losses", tol=0)
    c.require((h.prefix, h.first_value_only, h.writer is w) ==
              ("q", first, True), "log", "settings of a copy")
    tags = sorted({r[0] for r in w.rows if r[0].startswith("Train")})
    c.require(tags == (["Train"] if first else
                       ["Train_%d" % k for k in range(dim)]), "log", "tags",
              tags=tags)
    for k in range(1 if first else dim):
        want = [v[k] for v in tr] + [0.]
        got = [r[1]["p"] for r in w.rows
               if r[0] == ("Train" if first else "Train_%d" % k)]
        c.close(np.array(got), np.array(want), "log", "written", tol=1e-12)
    c.key(dim, first, tr, va, ops)
    c.ev("log entries", len(tr) + len(va))


if __name__ == "__main__":
    chk.main()

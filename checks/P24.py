"""P24: the line-search optimizers."""
import copy
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import neural_network_lyapunov.line_search_adam as lsa  # noqa: E402
import neural_network_lyapunov.line_search_gd as lsgd  # noqa: E402
from gen import T, N  # noqa: E402

chk = Check("P24", rule="random objectives (quadratic, quartic, |.|, "
            "trigonometric, adversarially scripted losses), 1-3 parameter "
            "groups with own options, parameters without gradient, multi-step "
            "histories; every closure call is logged with the parameters; "
            "non-trivial: at least one step whose log has more than one trial "
            "or whose parameters moved",
            assumptions=["ties of the decrease condition within 1e-9 are "
                         "accepted either way"])


def objective(rng, n):
    kind = int(rng.integers(5))
    M = rng.normal(size=(n, n))
    H = T(M @ M.T + .1 * np.eye(n))
    g = T(rng.normal(size=n))

    def f(x):
        if kind == 0:
            return .5 * x @ (H @ x) + g @ x
        if kind == 1:
            return ((x * x - 1)**2).sum() + g @ x
        if kind == 2:
            return (x - g).abs().sum()
        if kind == 3:
            return torch.sin(3 * x).sum() + .05 * (x @ x)
        return torch.exp(torch.clamp(x, max=30.)).sum() - g @ x

    return kind, f


def setup(rng):
    shapes = [[(3, ), (2, 2), (), (1, )][int(rng.integers(4))]
              for _ in range(int(rng.integers(1, 5)))]
    params = [torch.nn.Parameter(T(rng.normal(size=s))) for s in shapes]
    dead = [bool(rng.random() < .2) for _ in params]
    if all(dead):
        dead[0] = False
    return params, dead


def flat(params):
    return torch.cat([p.reshape((-1, )) for p in params])


def groups(rng, params):
    k = min(len(params), int(rng.integers(1, 4)))
    cut = sorted(rng.choice(np.arange(1, len(params)), size=k - 1,
                            replace=False).tolist()) if k > 1 else []
    out = []
    for a, b in zip([0] + cut, cut + [len(params)]):
        out.append(list(range(a, b)))
    return out


class RefGD:
    """Momentum SGD direction, written from the documentation."""
    def __init__(self):
        self.buf = {}

    def direction(self, j, g, p, o):
        d = g + o["weight_decay"] * p
        if o["momentum"]:
            if j not in self.buf:
                self.buf[j] = d.copy()
            else:
                self.buf[j] = (o["momentum"] * self.buf[j] +
                               (1 - o["dampening"]) * d)
            d = d + o["momentum"] * self.buf[j] if o["nesterov"] \
                else self.buf[j]
        return -d, o["lr"]


class RefAdam:
    def __init__(self):
        self.s = {}

    def direction(self, j, g, p, o):
        g = g + o["weight_decay"] * p
        m, v, vm, t = self.s.get(j, (0 * g, 0 * g, 0 * g, 0))
        b1, b2 = o["betas"]
        t += 1
        m = b1 * m + (1 - b1) * g
        v = b2 * v + (1 - b2) * g * g
        vm = np.maximum(vm, v)
        self.s[j] = (m, v, vm, t)
        den = np.sqrt((vm if o["amsgrad"] else v) / (1 - b2**t)) + o["eps"]
        return -m / den, o["lr"] / (1 - b1**t)


def drive(c, rng, which, steps):
    params, dead = setup(rng)
    idx = groups(rng, params)
    common = dict(step_size_reduction=float(rng.choice([.2, .5, .7])),
                  min_step_size_decrease=float(
                      rng.choice([3e-1, 3e-2, 3e-3, 1.1e-4])),
                  loss_minimal_decrement=float(
                      rng.choice([1e-4, 1e-2, .3, .9])),
                  min_improvement=float(rng.choice([0., 0., 1e-3, .1])))
    pg, opts = [], []
    for ids in idx:
        if which == "gd":
            mom = float(rng.choice([0., .5, .9]))
            nest = bool(mom > 0 and rng.random() < .4)
            o = dict(momentum=mom, nesterov=nest,
                     dampening=0. if nest else float(rng.choice([0., .3])),
                     weight_decay=float(rng.choice([0., 0., .1, 4e-3])),
                     lr=float(rng.choice([1e-3, .05, .3, 2.])))
        else:
            o = dict(betas=(float(rng.choice([.9, .5, 0.])),
                            float(rng.choice([.999, .8]))),
                     eps=float(rng.choice([1e-8, 1e-2])),
                     weight_decay=float(rng.choice([0., 0., .1, 4e-3])),
                     amsgrad=bool(rng.random() < .4),
                     lr=float(rng.choice([1e-3, .05, .3, 2.])))
        opts.append(o)
        pg.append(dict(params=[params[j] for j in ids], **o))
    if which == "adam" and rng.random() < .25:
        common["loss_minimal_decrement"] = None
    cls = lsgd.LineSearchGD if which == "gd" else lsa.LineSearchAdam
    if which == "gd":
        opt = cls(pg, lr=1., **common)
    else:
        opt = cls(pg, **common)
    ref = RefGD() if which == "gd" else RefAdam()
    live = [p for p, d in zip(params, dead) if not d]
    kind, f = objective(rng, sum(p.numel() for p in live))
    script = rng.random() < .3

    keep = bool(rng.random() < .5)  # gradients zeroed in place
    log = []

    def value():
        return f(flat(live))

    def closure():
        v = value()
        if script:
            # losses dictated by a schedule: every accept/reject prefix occurs
            v = v * 0. + float(rng.choice([-5., -.5, -1e-2, .5, 3.])) + base
        log.append(([N(p).copy() for p in params], float(v)))
        c.ev("closure_calls")
        return v

    for s in range(steps):
        opt.zero_grad(set_to_none=not keep)
        loss = value()
        loss.backward()
        base = float(loss.detach())
        loss0 = base
        p0 = [N(p).copy() for p in params]
        g0 = [None if p.grad is None else N(p.grad).copy() for p in params]
        del log[:]
        step, dirs, gd_w, gd_n = {}, {}, 0., 0.
        for ids, o in zip(idx, opts):
            for j in ids:
                if g0[j] is None:
                    continue
                d, t = ref.direction(j, g0[j], p0[j], o)
                dirs[j], step[j] = d, t
                gd_n += t * np.sum(g0[j] * d)
                gd_w += t * np.sum((g0[j] + o["weight_decay"] * p0[j]) * d)
        ret = opt.step(closure, loss0)
        # --- the automaton of the documented line search
        alpha, k, done = 1., 0, False
        while alpha > common["min_step_size_decrease"]:
            c.require(k < len(log), "trial_missing",
                      "search ended without an accepted or minimal step",
                      trials=len(log), alpha=alpha)
            at, v = log[k]
            for j in range(len(params)):
                want = p0[j] + (alpha * step[j] * dirs[j] if j in dirs else 0.)
                c.close(at[j], want, "trial_point", "trial %d" % k, tol=1e-9,
                        alpha=alpha)
            verdicts = []
            for gd in (gd_w, gd_n):
                c1 = common["loss_minimal_decrement"]
                for eps in (1e-9, -1e-9):
                    e = eps * (1 + abs(loss0) + abs(gd))
                    ok = v < loss0 - common["min_improvement"] + e
                    if c1 is not None:
                        ok = ok and v < loss0 + c1 * alpha * gd + e
                    verdicts.append(ok)
            k += 1
            accepted = k == len(log)
            nxt = alpha * common["step_size_reduction"]
            last = not nxt > common["min_step_size_decrease"]
            if all(verdicts):
                c.require(accepted, "sufficient_step_rejected",
                          "a step satisfying the decrease condition was not "
                          "taken", alpha=alpha, loss=v, loss0=loss0)
            elif not any(verdicts) and not last:
                c.require(not accepted, "insufficient_step_accepted",
                          alpha=alpha, loss=v, loss0=loss0, slope=gd_n,
                          options=common)
            if accepted:
                done = True
                c.ev("accepted_at_trial_%d" % min(k, 6))
                break
            alpha = nxt
        c.require(done and k == len(log), "extra_trials",
                  "trials beyond the minimal step", k=k, trials=len(log))
        for j in range(len(params)):
            c.close(N(params[j]), log[-1][0][j], "final_parameters", tol=0)
        c.close(float(ret), log[-1][1], "returned_loss", tol=0)
        c.key(which, kind, k, p0, loss0)
        if not np.all(np.isfinite(N(flat(params)))) or \
                N(flat(params)).__abs__().max() > 1e6:
            break
    c.note(which=which, options=common, groups=len(idx), objective=kind,
           last_trials=len(log))


@chk.section(quick=2187, thorough=8000)
def gd(c, rng, i):
    drive(c, rng, "gd", int(rng.integers(1, 7)))


@chk.section(quick=2187, thorough=8000)
def adam(c, rng, i):
    drive(c, rng, "adam", int(rng.integers(1, 7)))


@chk.section(quick=656, thorough=2000)
def full_step_equals_torch(c, rng, i):
    """With every full step accepted: torch.optim.SGD / Adam."""
    params, dead = setup(rng)
    idx = groups(rng, params)
    which = ["gd", "adam"][i % 2]
    pg = []
    for ids in idx:
        if which == "gd":
            mom = float(rng.choice([0., .5, .9]))
            nest = bool(mom > 0 and rng.random() < .4)
            o = dict(momentum=mom, nesterov=nest,
                     dampening=0. if nest else float(rng.choice([0., .3])),
                     weight_decay=float(rng.choice([0., .1, 4e-3])),
                     lr=float(rng.choice([1e-3, .05, .3])))
        else:
            o = dict(betas=(float(rng.choice([.9, .5])),
                            float(rng.choice([.999, .8]))),
                     eps=float(rng.choice([1e-8, 1e-2])),
                     weight_decay=float(rng.choice([0., .1, 4e-3])),
                     amsgrad=bool(rng.random() < .5),
                     lr=float(rng.choice([1e-3, .05, .3])))
        pg.append((ids, o))
    q = [torch.nn.Parameter(p.detach().clone()) for p in params]
    mine = [dict(params=[params[j] for j in ids], **o) for ids, o in pg]
    base = [dict(params=[q[j] for j in ids], **o) for ids, o in pg]
    if which == "gd":
        a, b = lsgd.LineSearchGD(mine, lr=1.), torch.optim.SGD(base, lr=1.)
    else:
        a, b = lsa.LineSearchAdam(mine), torch.optim.Adam(base)
    keep = bool(rng.random() < .5)
    live = [k for k, d in enumerate(dead) if not d]
    kind, f = objective(rng, sum(params[k].numel() for k in live))
    for s in range(8):
        for o, ps in ((a, params), (b, q)):
            o.zero_grad(set_to_none=not keep)
            f(flat([ps[k] for k in live])).backward()
        a.step(lambda: f(flat([params[k] for k in live])), float("inf"))
        b.step()
        if not np.all(np.isfinite(N(flat(q)))) or N(flat(q)).max() > 1e4:
            break
        for k in range(len(params)):
            c.close(N(params[k]), N(q[k]), "full_step_reference",
                    which + " step %d" % s, tol=1e-8)
        if s == 3 and rng.random() < .5:
            # a checkpointed optimizer continues identically
            sd = copy.deepcopy(a.state_dict())
            mine2 = [dict(params=[params[j] for j in ids], **o)
                     for ids, o in pg]
            a = (lsgd.LineSearchGD(mine2, lr=1.) if which == "gd" else
                 lsa.LineSearchAdam(mine2))
            a.load_state_dict(sd)
            c.ev("checkpoint_resumed")
    c.key(which, kind, i)
    c.note(which=which, objective=kind, groups=len(idx))


@chk.section(quick=262, thorough=600)
def converges(c, rng, i):
    """On strongly convex quadratics the method reaches the minimum."""
    n = int(rng.integers(1, 5))
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    H = (Q * rng.uniform(.5, 4., n)) @ Q.T
    xs = rng.normal(size=n)
    p = torch.nn.Parameter(T(rng.normal(size=n) * 3))

    def f():
        e = p - T(xs)
        return .5 * e @ (T(H) @ e)

    which = ["gd", "adam"][i % 2]
    opt = (lsgd.LineSearchGD([p], lr=1., step_size_reduction=.5,
                             loss_minimal_decrement=.3)
           if which == "gd" else
           lsa.LineSearchAdam([p], lr=.5, betas=(0., .999),
                              step_size_reduction=.5,
                              loss_minimal_decrement=.3,
                              min_step_size_decrease=1e-7))
    f0 = float(f().detach())
    prev = f0
    for s in range(300):
        opt.zero_grad()
        loss = f()
        loss.backward()
        v = float(opt.step(f, float(loss.detach())))
        c.require(v <= prev + 1e-12 * (1 + prev) or which == "adam",
                  "monotone", which, v=v, prev=prev)
        prev = v
        if v < 1e-10 * (1 + f0):
            break
    c.key(which, H, xs)
    c.note(which=which, f0=f0, final=prev, steps=s + 1)
    c.require(prev < 1e-5 * (1 + f0), "converges", which, f0=f0, final=prev)


@chk.section(quick=4, thorough=1)
def rejects_bad_options(c, rng, i):
    p = [torch.nn.Parameter(T([1.]))]
    for mk in (lambda: lsgd.LineSearchGD(p, lr=-1.),
               lambda: lsgd.LineSearchGD(p, lr=1., momentum=-.1),
               lambda: lsgd.LineSearchGD(p, lr=1., weight_decay=-.1),
               lambda: lsgd.LineSearchGD(p, lr=1., nesterov=True),
               lambda: lsa.LineSearchAdam(p, lr=-1.),
               lambda: lsa.LineSearchAdam(p, eps=-1.),
               lambda: lsa.LineSearchAdam(p, betas=(1., .9)),
               lambda: lsa.LineSearchAdam(p, betas=(.9, 1.))):
        try:
            mk()
            ok = False
        except ValueError:
            ok = True
        c.require(ok, "bad_option_accepted")
    c.key("options")


if __name__ == "__main__":
    chk.main()

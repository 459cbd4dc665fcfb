"""P40: adversarial value-function training against a random baseline."""
import contextlib
import copy
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import gen  # noqa: E402
import value_standin  # noqa: E402

value_standin.install()
import neural_network_lyapunov.train_value as tv  # noqa: E402
import neural_network_lyapunov.value_to_optimization as vto  # noqa: E402

T, N = gen.T, gen.N
chk = Check("P40", rule="random value functions with holes (states without a "
            "value), adversarial paths of 0-4 states, options (rounds, "
            "batches, buffer limits, extra samples, limits, logging), one to "
            "three training calls in a row; non-trivial: distinct histories "
            "with at least one optimizer step",
            assumptions=["ValueFunction and the adversarial generator are "
                         "supplied by the harness (the repository's modules "
                         "are missing)"])


class Writer:
    def __init__(self, *a, **k):
        self.log = []

    def add_scalars(self, tag, values, step=None, *a, **k):
        self.log.append((tag, dict(values), step))

    def add_scalar(self, *a, **k):
        pass

    def flush(self):
        pass

    def close(self):
        pass


tv.SummaryWriter = Writer


class Sys:
    pass


class Value(vto.ValueFunction):
    def __init__(self, rng, n, lo, up):
        self.dtype = torch.float64
        self.sys = Sys()
        self.sys.x_dim = n
        self.rng, self.n, self.lo, self.up = rng, n, lo, up
        self.W = rng.normal(size=(3, n))
        self.hole = rng.random() < .5
        self.h = rng.normal(size=n)
        self.calls, self.rounds, self.events = [], [], []
        self.empty = rng.random() < .4

    def truth(self, x):
        x = np.asarray(x, float)
        return float(np.sum(np.abs(self.W @ x)) + x @ x)

    def admits(self, x):
        z = (np.asarray(x, float) - self.lo) / (self.up - self.lo)
        return not self.hole or np.sin(7 * (self.h @ z)) < .6

    def get_value_function(self):
        def V(x, *a, **k):
            x = N(x).ravel().copy()
            v = self.truth(x) if self.admits(x) else None
            self.calls.append((x, v))
            self.events.append(("V", x, v))
            return v, None, None
        return V

    def adversarial(self, generator, model, kw):
        rng = self.rng
        n = 0 if self.empty and rng.random() < .3 else int(rng.integers(1, 5))
        X = self.lo + (self.up - self.lo) * rng.random((n, self.n))
        L = np.array([[self.truth(x)] for x in X]).reshape((n, 1))
        self.events.append(("adv", generator, model, kw, X))
        return (T(np.zeros((n, 1))), T(X), T(L), T(X[-1] if n else X.sum(0)))


class Adam:
    """Reference of one optimizer with default settings."""

    def __init__(self, params):
        self.m = [np.zeros(p.shape) for p in params]
        self.v = [np.zeros(p.shape) for p in params]
        self.t = 0

    def step(self, values, grads):
        self.t += 1
        out = []
        for k, (p, g) in enumerate(zip(values, grads)):
            self.m[k] = .9 * self.m[k] + .1 * g
            self.v[k] = .999 * self.v[k] + .001 * g * g
            mh = self.m[k] / (1 - .9 ** self.t)
            vh = self.v[k] / (1 - .999 ** self.t)
            out.append(p - 1e-3 * mh / (np.sqrt(vh) + 1e-8))
        return out


def params(net):
    return [N(p).copy() for p in net.parameters()]


class Monitor:
    """Follows one trainer, judging every optimizer step as it happens."""

    def __init__(self, c, d, vf):
        self.c, self.d, self.vf = c, d, vf
        self.x = {}
        self.steps = {"robust": 0, "baseline": 0}
        self.loss = {"robust": [], "baseline": []}
        self.val = {"robust": [], "baseline": []}
        self.adam = {}
        for who in ("robust", "baseline"):
            self.watch(who)

    def net(self, who):
        return getattr(self.d, who + "_model")

    def buffers(self, who):
        a = "adv" if who == "robust" else "rand"
        return (N(getattr(self.d, a + "_data_buffer")),
                N(getattr(self.d, a + "_label_buffer")))

    def watch(self, who):
        net, opt = self.net(who), getattr(self.d, who + "_optimizer")
        self.adam[who] = Adam(params(net))

        def pre(module, inp):
            if torch.is_grad_enabled():
                self.x[who] = N(inp[0]).copy()
        net.register_forward_pre_hook(pre)
        real = opt.step

        def step(*a, **k):
            before = params(net)
            self.judge(who, net)
            grads = [N(p.grad).copy() for p in net.parameters()]
            r = real(*a, **k)
            after = params(net)
            for got, want in zip(after, self.adam[who].step(before, grads)):
                self.c.close(got, want, "update", "one Adam step", tol=1e-9)
            self.steps[who] += 1
            xv, lv = self.d.x_samples_validation, self.d.v_samples_validation
            with torch.no_grad():
                self.val[who].append(float(((net(xv) - lv) ** 2).mean()))
            self.vf.events.append(("step", who))
            return r
        opt.step = step

    def judge(self, who, net):
        c, X = self.c, self.x.pop(who, None)
        c.require(X is not None, "batch", "a step without an evaluation")
        data, lab = self.buffers(who)
        c.require(len(X) == min(len(data), self.batch), "batch_size",
                  got=len(X), buffer=len(data), batch=self.batch)
        idx = [np.flatnonzero(np.all(data == x, axis=1)) for x in X]
        c.require(all(len(k) for k in idx), "batch_source",
                  "a sample that is not in the buffer", who=who)
        for x, k in zip(X, idx):
            c.require(np.sum(np.all(X == x, axis=1)) <= len(k),
                      "batch_repeats", "a sample twice in one batch", who=who)
        ref = copy.deepcopy(net)
        ref._forward_pre_hooks.clear()
        for p in ref.parameters():
            p.grad = None
        want = T([[self.vf.truth(x)] for x in X])
        with torch.enable_grad():
            loss = ((ref(T(X)) - want) ** 2).mean()
            loss.backward()
        self.loss[who].append(float(loss))
        for p, q in zip(net.parameters(), ref.parameters()):
            c.close(N(p.grad), N(q.grad), "gradient",
                    "of the mean squared error over the batch", tol=1e-9,
                    who=who)
        c.ev("optimizer steps")


def suffix(c, buf, seq, name, cap, inc, prev):
    """buf is the tail of seq, of the right length."""
    n = len(buf)
    c.require(n <= len(seq), name, "more samples than were seen")
    c.require(n == 0 or np.array_equal(buf, seq[len(seq) - n:]), name,
              "the buffer is not made of the latest samples, oldest first",
              size=n, seen=len(seq))
    if len(seq) <= cap:
        c.require(n == len(seq), name, "a sample was dropped although there "
                  "is room", size=n, seen=len(seq), room=cap)
    else:
        c.ev("buffer overflows")
        c.require(n >= min(len(seq), cap - inc), name,
                  "more samples dropped than necessary", size=n, room=cap)
        if prev <= cap and inc <= cap:
            c.require(n <= cap, name, "larger than its limit", size=n,
                      limit=cap)


def is_limit(x, lo, up):
    return np.any((x == lo) | (x == up))


def make(c, rng):
    n = int(rng.integers(1, 4))
    lo = rng.normal(size=n) - .5
    up = lo + rng.uniform(.5, 3., n)
    vf = Value(rng, n, lo, up)
    Xv = lo + (up - lo) * rng.random((int(rng.integers(2, 9)), n))
    Lv = np.array([[vf.truth(x)] for x in Xv])
    kw = dict(nn_width=int(rng.integers(2, 7)),
              nn_depth=int(rng.integers(0, 3)), x_samples_validation=T(Xv),
              v_samples_validation=T(Lv))
    m = int(rng.choice([0, 0, 1, 4, 9]))
    X0 = lo + (up - lo) * rng.random((m, n))
    if m:
        kw.update(x_samples_init=T(X0),
                  v_samples_init=T([[vf.truth(x)] for x in X0]))
    torch.manual_seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    d = tv.AdversarialWithBaseline(vf, T(lo), T(up), **kw)
    if m:       # the trainer keeps its own copy
        kw["x_samples_init"] += 1.
        kw["v_samples_init"] -= 1.
    return vf, d, lo, up, X0, Xv, Lv


def options(rng, nbuf):
    o = tv.AdversarialWithBaselineTrainingOptions()
    o.num_iter_desired = int(rng.choice([0, 1, 3, 7, 12]))
    o.num_steps_between_sampling = int(rng.integers(1, 6))
    o.init_buffer_size = int(rng.choice([0, 3, 8]))
    o.init_num_train_steps = int(rng.integers(0, 4)) \
        if max(o.init_buffer_size, nbuf) else 0
    o.num_rand_extra = int(rng.choice([0, 0, 1, 3]))
    o.num_x_adv_opt = int(rng.integers(1, 4))
    o.x_adv_max_iter = int(rng.integers(1, 9))
    o.x_adv_conv_tol = float(rng.random())
    o.x_adv_lr = float(rng.random())
    o.batch_size = int(rng.choice([1, 2, 5, 30]))
    o.max_buffer_size = int(rng.choice([6, 12, 20, 100000]))
    o.baseline_use_limits = bool(rng.random() < .4)
    return o


def groups(events):
    """Split the events of a call at its sampling rounds."""
    out, cur = [], dict(adv=[], V=[], steps=[])
    for e in events:
        if e[0] == "adv":
            if cur["steps"] or (cur["V"] and not cur["adv"]):
                out.append(cur)
                cur = dict(adv=[], V=[], steps=[])
            cur["adv"].append(e)
        elif e[0] == "V":
            cur["V"].append(e)
        else:
            cur["steps"].append(e[1])
    out.append(cur)
    return out


def run(c, rng, mode):
    vf, d, lo, up, X0, Xv, Lv = make(c, rng)
    X = T(lo + (up - lo) * rng.random((5, len(lo))))
    c.close(d.robust_model(X), d.baseline_model(X), "same_start",
            "both networks start equal", tol=1e-12)
    c.require(d.robust_model is not d.baseline_model and not
              any(p is q for p in d.robust_model.parameters()
                  for q in d.baseline_model.parameters()), "same_start",
              "shared parameters")
    for who in ("adv", "rand"):
        c.close(getattr(d, who + "_data_buffer"), X0, "initial_samples",
                tol=0.)
        c.close(getattr(d, who + "_label_buffer"),
                np.array([vf.truth(x) for x in X0]).reshape((-1, 1)),
                "initial_samples", tol=0.)
    mon = Monitor(c, d, vf)
    # the buffers are observed where a round's first step happens
    logs = {k: [] for k in ("robust", "baseline", "rv", "bv")}
    both = mode == "train"
    total, ncalls = 0, int(rng.integers(1, 4))
    base0 = params(d.baseline_model)
    sizes = []
    for call in range(ncalls):
        o = options(rng, len(d.adv_data_buffer))
        o.init_num_train_steps = o.init_num_train_steps if total == 0 else \
            int(rng.integers(0, 3)) * (len(d.adv_data_buffer) > 0)
        logging = bool(rng.random() < .7)
        mon.batch = o.batch_size
        vf.events.clear()
        snaps = []
        real = vf.adversarial

        def spy(generator, model, kw, real=real, snaps=snaps):
            snaps.append((len(vf.events), N(d.adv_data_buffer).copy(),
                          N(d.rand_data_buffer).copy()))
            return real(generator, model, kw)
        vf.adversarial = spy
        s0 = dict(mon.steps)
        prev = N(d.adv_data_buffer).copy(), N(d.rand_data_buffer).copy()
        wlog = len(d.writer.log)
        with contextlib.redirect_stdout(io.StringIO()):
            (d.train if both else d.train_no_benchmark)(o, logging=logging)
        vf.adversarial = real
        ninit = o.init_num_train_steps if total == 0 else 0
        # numbers of steps and rounds
        c.require(mon.steps["robust"] - s0["robust"] ==
                  ninit + o.num_iter_desired, "iterations",
                  "optimizer steps of the robust network",
                  got=mon.steps["robust"] - s0["robust"], init=ninit,
                  want=o.num_iter_desired)
        c.require(mon.steps["baseline"] - s0["baseline"] ==
                  (ninit + o.num_iter_desired if both else 0), "iterations",
                  "optimizer steps of the baseline")
        total += o.num_iter_desired
        c.require(d.num_total_iter_done == total, "iteration_count",
                  got=d.num_total_iter_done, want=total)
        G = groups(vf.events)
        head = None
        if not G[0]["adv"]:
            head = G.pop(0)
        need = max(0, o.init_buffer_size - len(prev[0]))
        good = [e[1] for e in (head["V"] if head else [])
                if e[2] is not None]
        c.require(len(good) == need, "initial_buffer", "samples drawn to "
                  "fill the buffer", got=len(good), want=need)
        c.require(len([s for s in (head["steps"] if head else [])
                       if s == "robust"]) == ninit, "initial_steps")
        fill = np.array(good).reshape((-1, len(lo)))
        cur = [np.vstack([prev[0], fill]),
               np.vstack([prev[1], fill]) if both else prev[1]]
        rounds = -(-o.num_iter_desired // o.num_steps_between_sampling)
        c.require(len(G) == rounds, "rounds", "sampling rounds",
                  got=len(G), want=rounds)
        # buffers as seen by the first adversarial search of every round
        starts = []
        k = 0
        for g in G:
            starts.append(snaps[k])
            k += len(g["adv"])
        starts.append((0, N(d.adv_data_buffer).copy(),
                       N(d.rand_data_buffer).copy()))
        for r, g in enumerate(G):
            for j in (0, 1):
                c.require(np.array_equal(starts[r][1 + j], cur[j]),
                          "buffer_between_rounds",
                          "changed without new samples", which=j)
            paths = [e[4] for e in g["adv"]]
            c.require(sum(len(p) > 0 for p in paths) == o.num_x_adv_opt and
                      len(paths[-1]) > 0, "adversarial_searches",
                      "successful searches per round",
                      got=sum(len(p) > 0 for p in paths),
                      want=o.num_x_adv_opt)
            for _, gg, model, kw, _p in g["adv"]:
                c.require(model is d.robust_model, "adversarial_model",
                          "searched against another network")
                c.require(np.array_equal(N(gg.x0_lo), lo) and
                          np.array_equal(N(gg.x0_up), up), "search_box")
                c.require((kw["max_iter"], kw["conv_tol"],
                           kw["learning_rate"]) ==
                          (o.x_adv_max_iter, o.x_adv_conv_tol, o.x_adv_lr),
                          "search_options", got=kw)
                x0 = N(kw["x_adv0"]).ravel()
                c.require(np.all(x0 >= lo) and np.all(x0 <= up),
                          "search_start", x0=x0)
                c.ev("adversarial searches")
            adv = np.vstack(paths)
            nnew, ex = len(adv), o.num_rand_extra
            ok = [e[1] for e in g["V"] if e[2] is not None]
            c.require(len(ok) == (nnew if both else 0) + ex, "solve_budget",
                      "value evaluations for the baseline and the extras",
                      got=len(ok), new=nnew, extra=ex)
            for x in ok:
                c.require(np.all(x >= lo) and np.all(x <= up),
                          "sample_in_box", x=x)
            a1, b1 = starts[r + 1][1], starts[r + 1][2]
            inc = max(nnew, ex)
            # the extras are whatever ends the buffer of the robust network
            m = min(ex, len(a1))
            c.require(m == ex, "extras", "the extra samples are missing")
            E = a1[len(a1) - ex:]
            have = set(map(bytes, ok))
            c.require(all(bytes(x) in have for x in E), "extras",
                      "an extra sample that was never evaluated")
            suffix(c, a1, np.vstack([cur[0], adv, E]), "robust_buffer",
                   o.max_buffer_size, inc, len(cur[0]))
            if both:
                c.require(len(a1) == len(b1), "equal_buffers")
                rest = [x for x in ok if bytes(x) not in set(map(bytes, E))]
                B = np.array(rest).reshape((-1, len(lo)))
                c.require(len(B) == nnew, "baseline_samples")
                nb = len(b1)
                Bb = b1[:nb - ex] if ex else b1
                tail = Bb[max(0, len(Bb) - nnew):]
                c.require(set(map(bytes, tail)) <= set(map(bytes, B)),
                          "baseline_samples", "not the states evaluated")
                if len(tail) == nnew:
                    c.require(set(map(bytes, tail)) == set(map(bytes, B)),
                              "baseline_samples", "one sample twice")
                    B = tail
                    suffix(c, b1, np.vstack([cur[1], B, E]),
                           "baseline_buffer", o.max_buffer_size, inc,
                           len(cur[1]))
                nl = sum(bool(is_limit(x, lo, up)) for x in B)
                if o.baseline_use_limits and nnew > 1:
                    c.require(nl >= 1, "limit_samples",
                              "no baseline sample at the limits")
                    c.ev("limit samples", nl)
                else:
                    c.require(nl == 0, "limit_samples",
                              "baseline sample at the limits", n=nl)
            else:
                c.require(np.array_equal(b1, cur[1]), "baseline_untouched")
            nst = sum(s == "robust" for s in g["steps"])
            want = o.num_steps_between_sampling if r < rounds - 1 else \
                o.num_iter_desired - (rounds - 1) * \
                o.num_steps_between_sampling
            c.require(nst == want, "steps_per_round", got=nst, want=want)
            cur = [a1, b1]
            c.ev("sampling rounds")
            c.require(len(d.x_adv_opt_log) == o.num_x_adv_opt or
                      r < rounds - 1, "search_log",
                      got=len(d.x_adv_opt_log))
            if r == rounds - 1:
                pp = [p for p in paths if len(p)]
                for (x, lab), p in zip(d.x_adv_opt_log, pp):
                    c.close(x, p, "search_log", tol=0.)
                    c.close(N(lab).ravel(), [vf.truth(q) for q in p],
                            "search_log", tol=0.)
        for who in ("adv", "rand"):
            X = N(getattr(d, who + "_data_buffer"))
            L = N(getattr(d, who + "_label_buffer"))
            c.require(L.shape == (len(X), 1), "labels", "shape")
            c.close(L.ravel(), np.array([vf.truth(x) for x in X]).ravel(),
                    "labels", "value stored with its state", tol=1e-12)
            c.ev("labels", len(X))
        # logs
        if logging:
            k = o.num_iter_desired
            for who, tag in (("robust", "rv"), ("baseline", "bv")):
                if k and (both or who == "robust"):
                    logs[who] += mon.loss[who][-k:]
                    logs[tag] += mon.val[who][-k:]
            new = [w for w in d.writer.log[wlog:] if w[0] == "Train"]
            c.require([w[2] for w in new] ==
                      list(range(total - k, total)), "log_steps",
                      got=[w[2] for w in new])
            if k:
                c.close([w[1]["robust"] for w in new],
                        mon.loss["robust"][-k:], "log_values", tol=1e-9)
        for got, key in ((d.robust_loss_log, "robust"),
                         (d.baseline_loss_log, "baseline"),
                         (d.robust_val_loss_log, "rv"),
                         (d.baseline_val_loss_log, "bv")):
            c.close(got, logs[key], "logs", "losses of the logged "
                    "iterations: " + key, tol=1e-9)
        if not both:
            for p, q in zip(params(d.baseline_model), base0):
                c.require(np.array_equal(p, q), "baseline_untouched")
        sizes.append((o.num_iter_desired, len(d.adv_data_buffer)))
    state(c, d, vf, Xv, Lv, logs)
    if mon.steps["robust"]:
        c.key(mode, sizes, X0, vf.W)
        c.note(calls=ncalls, steps=mon.steps["robust"], sizes=sizes,
               last_loss=mon.loss["robust"][-1])


def state(c, d, vf, Xv, Lv, logs):
    s = d.get_state()
    npr = {"robust": d.robust_model, "baseline": d.baseline_model}

    def sq(who, X):
        X = np.asarray(X)
        with torch.no_grad():
            y = N(npr[who](T(X))).ravel()
        return (y - np.array([vf.truth(x) for x in X]).ravel()) ** 2
    for who, buf in (("robust", "adv"), ("baseline", "rand")):
        X = N(getattr(d, buf + "_data_buffer"))
        c.close(s[buf + "_data_buffer"], X, "state", tol=0.)
        c.close(s[buf + "_label_buffer"],
                N(getattr(d, buf + "_label_buffer")), "state", tol=0.)
        c.close(np.ravel(N(s[who + "_buffer_loss"])), sq(who, X), "state",
                "squared errors over the buffer", tol=1e-9)
        c.close(np.ravel(N(s[who + "_val_loss"])), sq(who, Xv), "state",
                "squared errors over the validation samples", tol=1e-9)
        c.close(s[who + "_loss_log"], logs[who], "state", tol=1e-9)
        c.close(s[who + "_val_loss_log"],
                logs["rv" if who == "robust" else "bv"], "state", tol=1e-9)
    for (x, e), (x0, _) in zip(s["x_adv_opt_loss_log"], d.x_adv_opt_log):
        c.close(x, N(x0), "state", tol=0.)
        c.close(np.ravel(N(e)), sq("robust", N(x0)), "state",
                "squared errors along the searches", tol=1e-9)
    c.require(len(s["x_adv_opt_loss_log"]) == len(d.x_adv_opt_log), "state")
    # a snapshot, not a view
    keep = N(s["adv_data_buffer"]).copy()
    with torch.no_grad():
        d.adv_data_buffer += 1.
    d.robust_loss_log.append(-1.)
    c.require(np.array_equal(N(s["adv_data_buffer"]), keep) and
              -1. not in s["robust_loss_log"], "state_is_a_copy")
    c.ev("snapshots")


@chk.section(quick=260, thorough=5000, timeout=120)
def with_baseline(c, rng, i):
    run(c, rng, "train")


@chk.section(quick=180, thorough=3000, timeout=120)
def without_baseline(c, rng, i):
    run(c, rng, "alone")


@chk.section(quick=60, thorough=600, timeout=120)
def samples(c, rng, i):
    vf, d, lo, up, X0, Xv, Lv = make(c, rng)
    n = len(lo)
    X = np.array([N(d.get_random_x0()) for _ in range(150)])
    c.require(np.all(X >= lo) and np.all(X <= up), "random_state")
    half = X > .5 * (lo + up)
    c.require(np.all(half.any(0)) and not np.any(half.all(0)),
              "random_spread")
    X = np.array([N(d.get_limit_x0()) for _ in range(300)])
    c.require(np.all(X >= lo) and np.all(X <= up), "limit_state")
    at = (X == lo) | (X == up)
    c.require(np.all(at.sum(1) == 1), "limit_state",
              "exactly one coordinate at its limit")
    c.require(np.all((X == lo).any(0)) and np.all((X == up).any(0)),
              "limit_faces", "every face of the box is reached")
    if n > 1:
        ins = X[at[:, 0], 1]
        c.require(np.any(ins > .5 * (lo + up)[1]) and
                  np.any(ins < .5 * (lo + up)[1]), "limit_spread")
    for fn, lim in ((d.get_random_samples, False), (d.get_limit_samples,
                                                     True)):
        k = int(rng.choice([0, 1, 5, 12]))
        D, L = fn(k)
        c.require(tuple(D.shape) == (k, n) and tuple(L.shape) == (k, 1),
                  "samples_shape", got=(D.shape, L.shape))
        for x, v in zip(N(D), N(L)):
            c.require(vf.admits(x), "sample_has_value",
                      "a state without a value was kept", x=x)
            c.close(v, [vf.truth(x)], "sample_value", tol=1e-12)
            c.require(bool(is_limit(x, lo, up)) == lim, "sample_kind")
            c.ev("samples")
        if n > 1 or not lim:
            c.require(len({bytes(x) for x in N(D)}) == k, "distinct_samples")
    c.key(lo, up)
    c.note(dim=n, holes=vf.hole)


if __name__ == "__main__":
    chk.main()

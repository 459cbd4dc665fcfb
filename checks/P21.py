"""P21: training reports success only with a certificate that holds."""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np, torch  # noqa: E402
from gen import T, N, points, net_np, fwd  # noqa: E402
import sysgen  # noqa: E402
from lyapref import Now  # noqa: E402
import gurobipy  # noqa: E402
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

chk = Check("P21", rule="real training runs (MIP descent and adversarial "
            "descent) of random candidates and controllers on nine system "
            "kinds x R options x optimizers x cost weights x pools x warm "
            "starts x early termination x strengthening; every call of every "
            "run is observed; non-trivial: distinct runs",
            assumptions=["numpy model of candidate and closed loop at the "
                         "parameters of each call; worst states found by "
                         "sampling and local search are lower bounds",
                         "violations of the decrease are judged over states "
                         "whose successor stays in the box (as the program "
                         "is written)",
                         "early termination thresholds are at least the "
                         "convergence tolerances"])
EPS = list(lyapunov.ConvergenceEps)


class Mon(tlb.Trainer):
    """Observes every solved program and every loss of a run."""

    def __init__(self, c, S, rng):
        super().__init__()
        self.c, self.S, self.obs_rng = c, S, rng
        self.calls, self.pos, self.der, self.desc = [], [], [], None
        self.closed, self.graded = False, 0

    def now(self):
        for net in (self.lyapunov_hybrid_system.lyapunov_relu,
                    self.S.__dict__.get("cnet")):
            for p in net.parameters() if net is not None else ():
                v = np.abs(N(p))
                if np.any((v > 0) & (v < 1e-6)):
                    # coefficients below the tolerances of the solver
                    raise Skip("vanishing weights")
        return Now(self, self.S)

    def no_state(self, err):
        """The program has no solution: the closed loop has no state whose
        successor stays in the box."""
        w = self.now()
        best, x = w.worst(lambda X: w.decrease(
            X, self.lyapunov_derivative_eps_type,
            self.lyapunov_derivative_epsilon), self.obs_rng, n0=400)
        self.c.require(best == -np.inf, "program_solved",
                       "the program was not solved, but states exist",
                       x=x, err=repr(err), run=self.desc)
        raise Skip("no state keeps its successor in the box")

    def solve_positivity_mip(self):
        m, obj, adv = super().solve_positivity_mip()
        c, w = self.c, self.now()
        e = self.lyapunov_positivity_epsilon
        f = (lambda X: w.positivity(X, e))
        A = N(adv)
        sc = w.scale()
        thr = self.lyapunov_positivity_mip_term_threshold
        if thr is None:
            best, x = w.worst(f, self.obs_rng)
            c.require(best <= obj + 3e-6 * sc, "positivity_objective",
                      "a state violates positivity more than reported",
                      got=obj, found=best, x=x, run=self.desc)
        k = self.lyapunov_positivity_mip_pool_solutions
        self._adv(A, obj, sc, "positivity", k)
        self._pool(m, A, f(A), 5e-6 * sc, "positivity", k)
        n, eq = self.S.n, self.S.eq
        if k > 1 and not self.add_adversarial_state_only and thr is None and \
                np.any((eq > w.lo + 1e-3) & (eq < w.up - 1e-3)):
            # two sides of the equilibrium: at least two sign patterns
            c.require(len(A) > 1, "positivity_adversarial", "a pool of one "
                      "state although several were asked for", n=len(A))
        if len(A):
            F = f(A)
            c.close(F[0], obj, "positivity_adversarial",
                    "violation at the adversarial state", tol=5e-6, scale=sc,
                    x=A[0], run=self.desc)
            if self.add_adversarial_state_only:
                c.require(np.all(F > -3e-6 * sc), "positivity_adversarial",
                          "a state without a violation is added", F=F)
        self.pos.append((obj, A.copy()))
        c.ev("positivity programs")
        return m, obj, adv

    def _pool(self, m, A, F, tol, what, pool, tie=None):
        """The states are those of the solver's pool, best first: every
        solution of a program has the violation of its own state."""
        g = m.gurobi_model
        k0 = g._params.get("solutionnumber", 0)
        P = []
        for k in range(min(pool, g.solCount)):
            g.setParam(gurobipy.GRB.Param.SolutionNumber, k)
            P.append(g.PoolObjVal)
        g.setParam(gurobipy.GRB.Param.SolutionNumber, k0)
        if self.add_adversarial_state_only:
            if any(abs(v) < tol for v in P):
                self.c.ev("pool with a violation of zero")
                return
            P = [v for v in P if v > 0]
        self.c.require(len(P) == len(A), what + "_pool", "states of the pool",
                       n=len(A), pool=P)
        for k, (v, f) in enumerate(zip(P, F)):
            if tie is not None and tie(k):
                continue
            self.c.close(f, v, what + "_pool", "violation at the state of a "
                         "pool solution", tol=tol, scale=1., k=k,
                         run=self.desc)
        if len(P) > 1:
            self.c.ev("pools of several states")

    def _adv(self, A, obj, sc, what, pool):
        c, S = self.c, self.S
        c.require(A.ndim == 2 and A.shape[1] == S.n, what + "_adversarial",
                  "shape of the adversarial states", shape=A.shape)
        c.require(len(A) <= max(1, pool), what + "_adversarial",
                  "more states than the pool holds", n=len(A), pool=pool)
        if obj > 1e-7 * sc or not self.add_adversarial_state_only:
            c.require(len(A) >= 1, what + "_adversarial",
                      "the violating state is not returned", obj=obj)
        if obj < -1e-7 * sc and self.add_adversarial_state_only:
            c.require(len(A) == 0, what + "_adversarial",
                      "states without violation are returned", obj=obj)
        c.require(np.all(A >= S.lo - 1e-6) and np.all(A <= S.up + 1e-6),
                  what + "_adversarial", "a state outside the box", A=A)
        c.ev("adversarial states", len(A))

    def solve_lyap_derivative_mip(self):
        try:
            m, obj, adv, nxt = super().solve_lyap_derivative_mip()
            for k, v in self.lyapunov_derivative_mip_params.items():
                self.c.require(m.gurobi_model._params.get(str(k).lower()) == v,
                               "solver_options", "a solver option did not "
                               "reach the program", option=k, want=v)
        except TypeError:
            if self.S.kind == "fb_hybrid":
                # exact mode membership of a state the solver returns up to
                # rounding: on the rim of all modes there is no next state
                raise Skip("adversarial state on the rim of the modes")
            raise
        except (AssertionError, AttributeError) as err:
            self.no_state(err)
        c, w = self.c, self.now()
        e, et = self.lyapunov_derivative_epsilon, \
            self.lyapunov_derivative_eps_type
        A, B = N(adv), N(nxt)
        sc = w.scale()
        if self.lyapunov_derivative_mip_term_threshold is None:
            best, x = w.worst(lambda X: w.decrease(X, et, e), self.obs_rng)
            c.require(best <= obj + 3e-6 * sc, "decrease_objective",
                      "a state violates the decrease more than reported",
                      got=obj, found=best, x=x, run=self.desc)
        self._adv(A, obj, sc, "decrease",
                  self.lyapunov_derivative_mip_pool_solutions)
        c.require(B.shape == A.shape, "decrease_adversarial", "shape",
                  a=A.shape, next=B.shape)
        for k, (x, y) in enumerate(zip(A, B)):
            Y = w.nexts(x, 5e-6 * sc)
            d = min([np.abs(y - q).max() for q in Y] or [np.inf])
            c.require(d <= 1e-5 * sc, "adversarial_next",
                      "next state of an adversarial state", x=x, got=y,
                      want=Y, run=self.desc)
            v = float(w.decrease_at(x[None], y[None], et, e)[0])
            if self.S.kind == "fb_hybrid" and len(Y) != 1:
                c.ev("adversarial states on a mode boundary")
            elif k == 0:
                c.close(v, obj, "decrease_adversarial",
                        "violation at the adversarial state", tol=2e-5,
                        scale=sc, x=x, y=y, run=self.desc)
            elif self.add_adversarial_state_only:
                c.require(v > -2e-5 * sc, "decrease_adversarial",
                          "a state without a violation is added", v=v)
        hyb = self.S.kind == "fb_hybrid"
        self._pool(m, A, [float(w.decrease_at(x[None], y[None], et, e)[0])
                          for x, y in zip(A, B)], 3e-5 * sc, "decrease",
                   self.lyapunov_derivative_mip_pool_solutions,
                   lambda k: hyb and len(w.nexts(A[k], 5e-6 * sc)) != 1)
        self.der.append((obj, A.copy()))
        c.ev("decrease programs")
        return m, obj, adv, nxt

    def lyapunov_sample_loss(self, P, D, Dn, wp, wd):
        a, b = super().lyapunov_sample_loss(P, D, Dn, wp, wd)
        if self.closed and self.graded < 8 and self.obs_rng.random() < .3:
            self.graded += 1
            self.sample_gradient(N(P), N(D), a + b, wp, wd)
        return a, b

    def sample_gradient(self, P, D, loss, wp, wd):
        """The sample losses of a training run, as a function of everything
        being trained: the candidate, R and the controller."""
        c = self.c
        ps = self._training_params()

        def f():
            w = self.now()
            v = 0.
            if wp and len(P):
                h = w.positivity(P, self.lyapunov_positivity_epsilon)
                v += wp * reduce(np.maximum(
                    0, h + self.lyapunov_positivity_sample_margin),
                    self.sample_loss_reduction)
            if wd and len(D):
                Y = []
                for x in D:
                    q = w.nexts(x, 1e-7)
                    if len(q) != 1 or len(w.nexts(x, -1e-7)) != 1:
                        return None
                    Y.append(q[0])
                h = w.decrease_at(D, np.array(Y),
                                  self.lyapunov_derivative_eps_type,
                                  self.lyapunov_derivative_epsilon)
                v += wd * reduce(np.maximum(
                    0, h + self.lyapunov_derivative_sample_margin),
                    self.sample_loss_reduction)
            return v
        f0 = f()
        if f0 is None:
            return
        c.close(float(loss), f0, "sample_loss", "sample losses during "
                "training", tol=1e-7, scale=1 + abs(f0), run=self.desc)
        g = torch.autograd.grad(loss, ps, allow_unused=True,
                                retain_graph=True) if loss.requires_grad \
            else [None] * len(ps)
        d = [self.obs_rng.normal(size=tuple(p.shape)) for p in ps]
        sl = []
        for h in (1e-6, -1e-6):
            old = [p.detach().clone() for p in ps]
            with torch.no_grad():
                for p, q in zip(ps, d):
                    p.data.add_(T(h * q))
                v = f()
                for p, q in zip(ps, old):
                    p.data.copy_(q)
            if v is None:
                return
            sl.append((v - f0) / h)
        if abs(sl[0] - sl[1]) > 1e-4 * (1 + abs(sl[0])):
            c.ev("sample gradients at a kink")
            return
        gd = sum(float((N(x) * q).sum()) for x, q in zip(g, d)
                 if x is not None)
        c.close(gd, np.mean(sl), "sample_gradient", "gradient of the sample "
                "losses in the trained parameters", tol=1e-3,
                scale=1 + abs(sl[0]), run=self.desc)
        c.ev("sample gradients")

    def total_loss(self, P, D, Dn, *wts):
        P0, D0, Dn0 = (N(v).copy() for v in (P, D, Dn))
        ps = self._training_params()
        v0 = [N(p).copy() for p in ps]
        np_, nd_ = len(self.pos), len(self.der)
        r = super().total_loss(P, D, Dn, *wts)
        judge_loss(self, P0, D0, Dn0, wts, r, self.pos[np_:], self.der[nd_:])
        g = None
        if r.loss.requires_grad:
            g = torch.autograd.grad(r.loss, ps, allow_unused=True,
                                    retain_graph=True)
            g = [None if v is None else N(v).copy() for v in g]
        self.calls.append(dict(P=P0, D=D0, Dn=Dn0, r=r, params=v0, grads=g,
                               loss=float(r.loss),
                               pos=r.lyap_loss.positivity_mip_obj,
                               der=r.lyap_loss.derivative_mip_obj))
        return r


def reduce(h, red):
    if red == "mean":
        return float(np.mean(h))
    if red == "max":
        return float(np.max(h))
    return float(np.sum(np.abs(h)**4)**.25)


def judge_loss(t, P, D, Dn, wts, r, pos, der):
    """Every part of one total loss, from the samples it was given."""
    c, w = t.c, t.now()
    ws_p, ws_d, wm_p, wm_d, wg = wts
    ll = r.lyap_loss
    sc = w.scale()
    c.require((len(pos) == 1) == (wm_p is not None) and
              (len(der) == 1) == (wm_d is not None), "programs_solved",
              "one program per weight that is not None", weights=wts)
    n = t.max_sample_pool_size
    # the sample sets with the adversarial states appended
    if t.add_positivity_adversarial_state and pos:
        P = np.vstack((P, pos[0][1]))
    got = N(ll.positivity_state_samples)
    c.close(got, P, "appended", "positivity samples", tol=1e-12)
    if t.add_derivative_adversarial_state and der:
        D = np.vstack((D, der[0][1]))
    got = N(ll.derivative_state_samples)
    gn = N(ll.derivative_state_samples_next)
    c.close(got, D, "appended", "decrease samples", tol=1e-12)
    c.require(gn.shape == D.shape, "appended", "next states", shape=gn.shape)
    c.close(gn[:len(Dn)], Dn, "appended", "next states kept", tol=1e-12)
    Dn = gn
    parts = []
    h = np.maximum(0, t.lyapunov_positivity_sample_margin + w.positivity(
        P[-n:], t.lyapunov_positivity_epsilon))
    parts.append(ws_p * reduce(h, t.sample_loss_reduction)
                 if ws_p and len(h) else 0.)
    c.close(float(ll.positivity_sample_loss), parts[-1],
            "positivity_sample_loss", "sample loss", tol=1e-8, run=t.desc)
    h = np.maximum(0, t.lyapunov_derivative_sample_margin + w.decrease_at(
        D[-n:], Dn[-n:], t.lyapunov_derivative_eps_type,
        t.lyapunov_derivative_epsilon)) if len(D) else np.zeros(0)
    parts.append(ws_d * reduce(h, t.sample_loss_reduction)
                 if ws_d and len(h) else 0.)
    c.close(float(ll.derivative_sample_loss), parts[-1],
            "derivative_sample_loss", "sample loss", tol=1e-8, run=t.desc)
    for wt, q, obj, loss, what in (
            (wm_p, pos, ll.positivity_mip_obj, ll.positivity_mip_loss,
             "positivity"),
            (wm_d, der, ll.derivative_mip_obj, ll.derivative_mip_loss,
             "derivative")):
        if wt is None:
            c.require(obj is None, what + "_mip_loss", "objective", obj=obj)
        else:
            c.require(obj == q[0][0], what + "_mip_loss",
                      "reported objective", got=obj, want=q[0][0])
        parts.append(wt * obj if wt else 0.)
        c.close(float(loss), parts[-1], what + "_mip_loss", "program loss",
                tol=2e-5, scale=(wt or 1.) * sc, run=t.desc)
    g = 0.
    if wg:
        Z = []
        for j in range(w.S.n):
            for b in (w.lo, w.up):
                z = points(t.obs_rng, w.lo, w.up, 40)
                z[:, j] = b[j]
                Z.append(z)
        V = w.V(np.vstack(Z))
        g = float(ll.gap_mip_loss)
        c.require(g >= wg * (V.max() - V.min()) - 1e-5 * sc * wg,
                  "gap_loss", "boundary gap below one that is attained",
                  got=g, found=wg * (V.max() - V.min()))
    else:
        c.close(float(ll.gap_mip_loss), 0., "gap_loss", "weight 0")
    parts.append(g)
    c.close(float(r.loss), sum(parts), "total", "the total is the sum",
            tol=3e-5, scale=sc * (1 + sum(v or 0 for v in wts)), parts=parts,
            weights=wts, run=t.desc)


def r_option(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        R = np.eye(n) if rng.random() < .5 else rng.normal(size=(n + 1, n))
        return ro.FixedROptions(T(R)), "fixed"
    U, _, Vt = np.linalg.svd(rng.normal(size=(n, n)))
    if k == 1:
        o = ro.SearchRwithSPDOptions((n, n), .1)
        o.set_variable_value((U * rng.uniform(.5, 2, n)) @ U.T)
        return o, "spd"
    if k == 2:
        o = ro.SearchRfreeOptions((n, n))
        o.set_variable_value(U @ np.diag(rng.uniform(.5, 2, n)) @ Vt)
        return o, "free"
    o = ro.SearchRwithSVDOptions((n, n), np.full(n, .1))
    o.set_variable_value(U @ np.diag(rng.uniform(.5, 2, n)) @ Vt)
    return o, "svd"


def setup(c, rng, i, batched=False):
    for _ in range(60):
        S = sysgen.any_system(rng, i, maxunits=4)
        if batched and S.kind in ("pwa", "fb_hybrid"):
            i += 1  # (needs batched steps)
            continue
        L = sysgen.Lyap(rng, S.n, S.eq, maxunits=4, rkind=0,
                        lam=float(rng.choice([.3, 1., 2.])))
        k = float(rng.choice([.05, .2, 1.]))
        with torch.no_grad():
            for p in L.net.parameters():
                p.mul_(k)
        t = Mon(c, S, rng)
        dut = lyapunov.LyapunovDiscreteTimeHybridSystem(S.repo, L.net)
        if rng.random() < .5:
            dut.network_bound_propagate_method = sysgen.METHODS[
                int(rng.integers(4))]
        opt, rk = r_option(rng, S.n)
        try:
            t.add_lyapunov(dut, L.lam, T(S.eq), opt)
        except AssertionError:
            continue
        break
    else:
        raise Skip("no trainer")
    t.search_controller = bool(rng.random() < .7)
    t.learning_rate = float(rng.choice([.003, .03, .1]))
    t.lyapunov_positivity_epsilon = float(rng.choice([0., .01, .1]))
    t.lyapunov_derivative_epsilon = float(rng.choice([0., .01, .1]))
    t.lyapunov_derivative_eps_type = EPS[int(rng.choice([0, 0, 0, 1, 2]))]
    t.lyapunov_positivity_convergence_tol = float(
        rng.choice([1e-6, 1e-4, .05]))
    t.lyapunov_derivative_convergence_tol = float(
        rng.choice([3e-5, 1e-3, .1, .3]))
    t.add_adversarial_state_only = bool(rng.random() < .6)
    t.add_positivity_adversarial_state = bool(rng.random() < .6)
    t.add_derivative_adversarial_state = bool(rng.random() < .6)
    t.max_sample_pool_size = int(rng.choice([3, 7, 500]))
    t.sample_loss_reduction = ["mean", "max", "4norm"][int(rng.integers(3))]
    if rng.random() < .5:
        t.lyapunov_positivity_sample_margin = float(rng.choice([0., .05]))
        t.lyapunov_derivative_sample_margin = float(rng.choice([0., .1, .3]))
    if rng.random() < (.8 if S.kind == "pwa" else .35):
        t.lyapunov_positivity_mip_pool_solutions = int(rng.integers(2, 5))
        t.lyapunov_derivative_mip_pool_solutions = int(rng.integers(2, 5))
        if rng.random() < (.8 if S.kind == "pwa" else .5):
            t.lyapunov_derivative_mip_params[
                gurobipy.GRB.Param.PoolSearchMode] = 2
    t.lyapunov_derivative_mip_params[gurobipy.GRB.Param.TimeLimit] = float(
        rng.integers(1000, 9999))
    t.lyapunov_positivity_mip_warmstart = bool(rng.random() < .3)
    t.lyapunov_derivative_mip_warmstart = bool(rng.random() < .3)
    if rng.random() < .15:
        t.lyapunov_positivity_mip_term_threshold = \
            t.lyapunov_positivity_convergence_tol
    if rng.random() < .15:
        t.lyapunov_derivative_mip_term_threshold = \
            t.lyapunov_derivative_convergence_tol
    if rng.random() < .1:
        t.boundary_value_gap_mip_cost_weight = .3
    if S.kind in ("fb_relu", "fb_given", "relu_given") and rng.random() < .2:
        t.derivative_mip_num_strengthen_pts = 1
    t.output_flag = bool(rng.random() < .1)
    t.optimizer = "SGD" if rng.random() < .5 else "Adam"
    t.desc = (S.desc, L.desc, rk, t.optimizer, t.search_controller,
              t.lyapunov_derivative_eps_type.name)
    return t, S, L, opt


def weights(rng, hi=3.):
    k = int(rng.integers(5))
    return None if k == 0 else 0. if k == 1 else float(rng.uniform(.1, hi))


def others(t, S):
    """Values training was not asked to change."""
    ps = {id(p) for p in t._training_params()}
    out = []
    for o in (S.repo, S.__dict__.get("net"), S.__dict__.get("cnet"),
              (S.__dict__.get("fw") or {}).get("repo")):
        for m in [o] + list(vars(o).values() if hasattr(o, "__dict__")
                            else []):
            if isinstance(m, torch.nn.Module):
                out += [p for p in m.parameters() if id(p) not in ps]
            elif isinstance(m, torch.Tensor) and id(m) not in ps:
                out.append(m)
    if t.R_options.fixed_R:
        out.append(t.R_options.R())
    out.append(t.x_equilibrium)
    return out


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@chk.section(quick=120, thorough=1500, floor=.6)
def total_loss(c, rng, i):
    """One total loss with arbitrary weights, samples and options."""
    t, S, L, ropt = setup(c, rng, i)
    wts = (float(rng.choice([0., 1., .3])), float(rng.choice([0., 1., 2.])),
           weights(rng), weights(rng), float(rng.choice([0., 0., .5])))
    P = points(rng, S.lo, S.up, int(rng.integers(0, 8)))
    D = points(rng, S.lo, S.up, int(rng.integers(0, 8)))
    Y = points(rng, S.lo - .2, S.up + .2, len(D))
    with quiet():
        t.total_loss(T(P), T(D), T(Y), *wts)
    c.key("loss", t.desc, P, D, wts)
    c.note(run=t.desc, weights=wts)


def certificate(c, t, S, rng, tag):
    w = t.now()
    sc = w.scale()
    e, et = t.lyapunov_derivative_epsilon, t.lyapunov_derivative_eps_type
    b, x = w.worst(lambda X: w.positivity(X, t.lyapunov_positivity_epsilon),
                   rng, n0=400, iters=60)
    c.require(b <= t.lyapunov_positivity_convergence_tol + 3e-6 * sc,
              "certificate_positivity", "success, but positivity fails",
              violation=b, x=x, run=t.desc, how=tag)
    b, x = w.worst(lambda X: w.decrease(X, et, e), rng, n0=400, iters=60)
    c.require(b <= t.lyapunov_derivative_convergence_tol + 3e-6 * sc,
              "certificate_decrease", "success, but the decrease fails",
              violation=b, x=x, run=t.desc, how=tag)
    c.ev("certificates")


def near_tolerances(t, rng):
    """
    Tolerances on either side of the violations of the start, so that one
    condition may be within its tolerance and the other one not.
    """
    if rng.random() < .5:
        return
    with quiet():
        try:
            p = tlb.Trainer.solve_positivity_mip(t)[1]
            d = tlb.Trainer.solve_lyap_derivative_mip(t)[1]
        except (AssertionError, AttributeError, TypeError):
            return
    t.lyapunov_positivity_last_x_adv = None
    t.lyapunov_derivative_last_x_adv = None
    if p > 1e-5:
        t.lyapunov_positivity_convergence_tol = float(
            p * rng.choice([.5, .9, 1.1, 2.]))
    if d > 1e-5:
        t.lyapunov_derivative_convergence_tol = float(
            d * rng.choice([.5, .9, 1.1, 2.]))
    if t.lyapunov_positivity_mip_term_threshold is not None:
        t.lyapunov_positivity_mip_term_threshold = \
            t.lyapunov_positivity_convergence_tol
    if t.lyapunov_derivative_mip_term_threshold is not None:
        t.lyapunov_derivative_mip_term_threshold = \
            t.lyapunov_derivative_convergence_tol


@chk.section(quick=80, thorough=1000, floor=.6)
def train(c, rng, i):
    t, S, L, ropt = setup(c, rng, i)
    t.max_iterations = int(rng.integers(1, 7))
    t.lyapunov_positivity_sample_cost_weight = float(rng.choice([0., 1.]))
    t.lyapunov_derivative_sample_cost_weight = float(rng.choice([0., 1.]))
    t.lyapunov_positivity_mip_cost_weight = float(rng.choice([.5, 3.]))
    t.lyapunov_derivative_mip_cost_weight = float(rng.choice([.5, 3.]))
    if t.optimizer == "SGD" and rng.random() < .3:
        t.momentum = .9
    if rng.random() < .3:
        t.save_network_path = c.scratch()
        t.save_network_iterations = int(rng.integers(1, 4))
    X = points(rng, S.lo, S.up, int(rng.choice([0, 1, 5])))
    near_tolerances(t, rng)
    t.closed = True
    fixed = others(t, S)
    before = [N(v).copy() for v in fixed]
    ps = t._training_params()
    with quiet():
        try:
            out = t.train(T(X).reshape(-1, S.n))
        except TypeError:
            if S.kind == "fb_hybrid":
                # a kept sample on the rim of the modes, see above
                raise Skip("adversarial state on the rim of the modes")
            raise
    calls = t.calls
    end = [N(p) for p in ps]
    for v, b in zip(fixed, before):
        c.close(N(v), b, "others_unchanged", "a value training was not asked "
                "to change", tol=0, run=t.desc)
    c.require(len(out) == 4, "outcome", "four parts", n=len(out))
    tp, td = (t.lyapunov_positivity_convergence_tol,
              t.lyapunov_derivative_convergence_tol)
    good = [k["pos"] <= tp and k["der"] <= td for k in calls]
    c.require(1 <= len(calls) <= t.max_iterations, "outcome",
              "number of iterations", n=len(calls), most=t.max_iterations)
    last = calls[-1]
    if out[0]:
        c.require(good[-1] and not any(good[:-1]), "outcome",
                  "success without both conditions within tolerance",
                  pos=last["pos"], der=last["der"], run=t.desc)
        for p, q in zip(end, last["params"]):
            c.close(p, q, "certified_parameters",
                    "parameters changed after they were certified", tol=0)
        certificate(c, t, S, rng, "train")
    else:
        c.require(not any(good), "outcome", "training went on past success",
                  run=t.desc)
        c.require(len(calls) == t.max_iterations, "outcome",
                  "stopped before the budget", n=len(calls))
    c.close(np.array([float(v) for v in out[1:]]),
            np.array([last["loss"], last["pos"], last["der"]]), "reported",
            "reported loss and objectives", tol=1e-12)
    # the samples of an iteration are those the last one left behind, with
    # next states of the current closed loop
    c.close(calls[0]["P"], X.reshape(-1, S.n), "samples", "initial samples",
            tol=0)
    fb = S.kind.startswith("fb_")
    for a, b in zip(calls, calls[1:]):
        c.close(b["P"], N(a["r"].lyap_loss.positivity_state_samples),
                "samples", "positivity samples carry over", tol=0)
        c.close(b["D"], N(a["r"].lyap_loss.derivative_state_samples),
                "samples", "decrease samples carry over", tol=0)
    w = None
    for k in calls:
        for p, v in zip(ps, k["params"]):
            p.data.copy_(T(v))
        w = t.now()
        for x, y in zip(k["D"], k["Dn"]):
            Y = w.nexts(x, 5e-6)
            if not len(Y):
                c.ev("samples that left the domain")
                continue
            c.require(min([np.abs(y - q).max() for q in Y] or [np.inf]) <=
                      1e-5, "samples", "next state of a sample under the "
                      "current closed loop", x=x, got=y, want=Y, run=t.desc,
                      fb=fb)
    for p, v in zip(ps, end):
        p.data.copy_(T(v))
    # each iteration steps along the gradient of its own total loss
    if t.optimizer == "SGD" and t.momentum == 0.:
        seq = [k["params"] for k in calls] + [end]
        for k, a, b in zip(calls, seq, seq[1:]):
            if out[0] and k is last:
                break
            for p, q, g in zip(a, b, k["grads"]):
                want = p if g is None else p - t.learning_rate * g
                c.close(q, want, "descent", "parameters after a step",
                        tol=1e-9, scale=1 + np.abs(want).max(), run=t.desc)
            c.ev("gradient steps")
    if t.save_network_path:
        j = (len(calls) - 1) // t.save_network_iterations * \
            t.save_network_iterations
        k = calls[j]
        net = torch.load(os.path.join(t.save_network_path, "lyapunov.pt"),
                         weights_only=False)
        R = torch.load(os.path.join(t.save_network_path, "R.pt"),
                       weights_only=False)
        for p, v in zip(ps, k["params"]):
            p.data.copy_(T(v))
        w = t.now()
        Z = points(rng, S.lo, S.up, 6)
        c.close(fwd(net_np(net), Z), fwd(w.net, Z), "saved", "saved "
                "candidate", tol=1e-12)
        c.close(N(R), w.R, "saved", "saved R", tol=1e-12)
        if fb:
            cn = torch.load(os.path.join(t.save_network_path,
                                         "controller.pt"),
                            weights_only=False)
            c.close(fwd(net_np(cn), Z), fwd(net_np(S.cnet), Z), "saved",
                    "saved controller", tol=1e-12)
        c.ev("saved networks")
    c.ev("success" if out[0] else "budget used up")
    c.ev("iterations", len(calls))
    c.key("train", t.desc, X, len(calls), last["loss"])
    c.note(run=t.desc, outcome=bool(out[0]), iterations=len(calls))


@chk.section(quick=60, thorough=800, floor=.5)
def adversarial(c, rng, i):
    t, S, L, ropt = setup(c, rng, i, batched=True)
    t.boundary_value_gap_mip_cost_weight = 0.
    t.max_iterations = int(rng.integers(1, 6))
    t.add_positivity_adversarial_state = True
    t.add_derivative_adversarial_state = True
    o = tlb.Trainer.AdversarialTrainingOptions()
    o.num_batches = int(rng.integers(1, 4))
    o.num_epochs_per_mip = int(rng.integers(1, 5))
    o.positivity_samples_pool_size = int(rng.choice([4, 10000]))
    o.derivative_samples_pool_size = int(rng.choice([4, 10000]))
    if rng.random() < .3:
        o.adversarial_cluster_radius = .1
    if rng.random() < .3:
        o.perturb_derivative_sample_count = int(rng.integers(1, 3))
        o.perturb_derivative_sample_std = float(rng.choice([1e-3, .02, .3]))
    near_tolerances(t, rng)
    t.closed = True
    P = points(rng, S.lo, S.up, int(rng.integers(2, 7)))
    D = points(rng, S.lo, S.up, int(rng.integers(2, 7)))
    fixed = others(t, S)
    before = [N(v).copy() for v in fixed]
    torch.manual_seed(int(rng.integers(2**31)))
    with quiet():
        out = t.train_adversarial(T(P), T(D), o)
    for v, b in zip(fixed, before):
        c.close(N(v), b, "others_unchanged", "a value training was not asked "
                "to change", tol=0, run=t.desc)
    tp, td = (t.lyapunov_positivity_convergence_tol,
              t.lyapunov_derivative_convergence_tol)
    c.require(len(t.pos) == len(t.der) and
              1 <= len(t.pos) <= t.max_iterations, "outcome",
              "programs per iteration", pos=len(t.pos), der=len(t.der))
    good = [p < tp and d < td for (p, _), (d, _) in zip(t.pos, t.der)]
    c.require(not any(good[:-1]), "outcome", "went on past success")
    c.require(bool(out[0]) == good[-1], "outcome", "reported success",
              got=out[0], pos=t.pos[-1][0], der=t.der[-1][0], tols=(tp, td))
    if not out[0]:
        c.require(len(t.pos) == t.max_iterations, "outcome",
                  "stopped before the budget")
    else:
        certificate(c, t, S, rng, "adversarial")
    # the training sets: initial states, then what the programs found,
    # most recent last, cut to the pool size
    wantP, wantD = P, D
    for (_, A), (_, B) in zip(t.pos, t.der):
        if np.isfinite(o.adversarial_cluster_radius):
            A, B = cluster(A, .1), cluster(B, .1)
        wantP = np.vstack((wantP, A))[-o.positivity_samples_pool_size:]
        k = o.perturb_derivative_sample_count
        B = np.vstack([B] * (1 + k))
        wantD = np.vstack((wantD, B))[-o.derivative_samples_pool_size:]
    c.close(N(out[1]), wantP, "training_set", "positivity states", tol=1e-12)
    std = o.perturb_derivative_sample_std if \
        o.perturb_derivative_sample_count else 0.
    if std and N(out[2]).shape == wantD.shape:
        q = np.abs(N(out[2]) - wantD).max(initial=0.)
        moved = np.count_nonzero(np.abs(N(out[2]) - wantD) > 1e-12)
        c.require(moved < 6 or q > .05 * std, "training_set", "perturbations "
                  "far smaller than asked for", std=std, largest=q)
    c.close(N(out[2]), wantD, "training_set", "decrease states",
            tol=8 * std + 1e-12, scale=1.)
    c.ev("success" if out[0] else "budget used up")
    c.ev("iterations", len(t.pos))
    c.key("adversarial", t.desc, P, D, [p for p, _ in t.pos])
    c.note(run=t.desc, outcome=bool(out[0]), iterations=len(t.pos))


def cluster(A, r):
    """Keep the first state and every one that leaves its predecessor."""
    keep = [k == 0 or np.linalg.norm(A[k] - A[k - 1]) > r
            for k in range(len(A))]
    return A[np.array(keep, dtype=bool)] if len(A) else A


@chk.section(quick=300, thorough=6000)
def clusters(c, rng, i):
    n, d = int(rng.integers(0, 9)), int(rng.integers(1, 4))
    r = float(rng.choice([.1, .5, 2.]))
    A = np.cumsum(rng.normal(size=(n, d)) *
                  rng.choice([.01, 3.], size=(n, 1)), axis=0)
    dist = np.linalg.norm(np.diff(A, axis=0), axis=1) if n > 1 else []
    if np.any(np.abs(np.asarray(dist) - r) < 1e-9):
        raise Skip("at the radius")
    got, rep = tlb._cluster_adversarial_states(T(A).reshape(n, d), r)
    c.key(A, r)
    want = cluster(A, r)
    c.close(N(got).reshape(-1, d), want.reshape(-1, d), "clusters",
            "representatives", tol=0, A=A, r=r)
    k = [j for j in range(n) if j == 0 or dist[j - 1] > r] + [n]
    c.close(N(rep).astype(float), np.diff(k).astype(float) if n else
            np.zeros(0), "clusters", "sizes of the clusters", tol=0, A=A, r=r)
    c.ev("clusters", len(want))


if __name__ == "__main__":
    chk.main()

"""
Reference values of candidates and closed loops at their current parameters
(they move during training), and searches for the worst state of a box.
"""
from vlib import np
from gen import N, net_np, fwd, points, grid
from sysgen import clamp

NEG = -np.inf


class Now:
    """V and the next states of a trainer's candidate, as of now."""

    def __init__(self, t, S):
        self.S, self.lo, self.up = S, S.lo, S.up
        self.eq = N(t.x_equilibrium).copy()
        self.net = net_np(t.lyapunov_hybrid_system.lyapunov_relu)
        self.R = N(t.R_options.R()).copy()
        self.lam = t.V_lambda
        self.phi0 = float(fwd(self.net, self.eq)[0])
        if S.kind.startswith("fb_"):
            c = net_np(S.cnet)
            c0 = fwd(c, S.fw["xeq"])
            self.policy = (lambda X: clamp(fwd(c, X) - c0 + S.ueq, S.ulo,
                                           S.uup))
            self.cand = (lambda X, tie: S.fw["cand"](X, self.policy(X), tie))
        else:
            self.cand = S.cand

    def l1(self, X):
        return np.abs((np.asarray(X) - self.eq) @ self.R.T).sum(axis=-1)

    def V(self, X):
        return fwd(self.net, X)[..., 0] - self.phi0 + self.lam * self.l1(X)

    def nexts(self, x, tie=1e-7):
        Y, M = self.cand(np.asarray(x)[None], tie)
        return [y[0] for y, m in zip(Y, M) if m[0]]

    def scale(self):
        return 1. + np.abs(self.V(np.vstack((self.lo, self.up)))).max()

    def positivity(self, X, eps):
        return eps * self.l1(X) - self.V(X)

    def decrease_at(self, X, Y, et, eps):
        if et.name == "ExpLower":
            return self.V(Y) - (1 - eps) * self.V(X)
        if et.name == "ExpUpper":
            return -self.V(Y) + (1 - eps) * self.V(X)
        return self.V(Y) - self.V(X) + eps * self.l1(X)

    def decrease(self, X, et, eps, tie=0., pad=0.):
        """Largest violation over the successors that stay in the box."""
        X = np.atleast_2d(X)
        Y, M = self.cand(X, tie)
        best = np.full(len(X), NEG)
        for y, m in zip(Y, M):
            ok = m & np.all((y >= self.lo - pad) & (y <= self.up + pad),
                            axis=1)
            if ok.any():
                best[ok] = np.maximum(best[ok], self.decrease_at(
                    X[ok], y[ok], et, eps))
        return best

    def worst(self, f, rng, n0=120, iters=40):
        """(largest f found over the box, where): a lower bound."""
        lo, up = self.lo, self.up
        X = np.vstack((grid(lo, up, {1: 101, 2: 15, 3: 7}.get(len(lo), 4)),
                       points(rng, lo, up, n0), self.eq[None]))
        F = f(X)
        k = np.argsort(-F)[:24]
        B, FB = X[k].copy(), F[k].copy()
        w, s = up - lo, .3
        for _ in range(iters):
            C = np.clip(B + rng.normal(size=B.shape) * s * w, lo, up)
            C = np.where(rng.random(B.shape) < .4, B, C)
            FC = f(C)
            b = FC > FB
            B[b], FB[b] = C[b], FC[b]
            s *= .87
        j = int(np.argmax(FB))
        return FB[j], B[j]

"""
Spring-loaded inverted pendulums and an independent reference: a point mass on
a massless spring about a fixed foot, in Cartesian coordinates, integrated
with DOP853.
"""
import types
from vlib import np
from scipy.integrate import solve_ivp
import neural_network_lyapunov.spring_loaded_inverted_pendulum as sl

TOL = dict(method="DOP853", rtol=1e-11, atol=1e-12, dense_output=True)


def jac(f, x, h=1e-6):
    x = np.asarray(x, dtype=float)
    J = []
    for j in range(x.size):
        e = np.zeros(x.size)
        e[j] = h * max(1., abs(x[j]))
        J.append((np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * e[j]))
    return np.array(J).T


def jac2(f, x, h, cols=None):
    """Two step sizes; returns the finer Jacobian and their disagreement."""
    cols = range(len(x)) if cols is None else cols
    out = []
    for s in (1., 3.):
        J = []
        for j in cols:
            e = np.zeros(len(x))
            e[j] = s * h[j]
            J.append((f(x + e) - f(x - e)) / (2 * e[j]))
        out.append(np.array(J).T)
    return out[0], float(np.abs(out[0] - out[1]).max())


class Pendulum:
    def __init__(self, m, l0, k, g):
        self.m, self.l0, self.k, self.g = m, l0, k, g
        self.v = np.sqrt(g * l0)
        self.desc = (m, l0, k, g)
        self.repo = sl.SLIP(m, l0, k, g)

    def stance_to_cartesian(self, q):
        r, th, rd, td, xf = q
        s, c = np.sin(th), np.cos(th)
        return (np.array([xf - r * s, r * c]),
                np.array([-rd * s - r * c * td, rd * c - r * s * td]))

    def fly(self, x, t):
        x, t = np.asarray(x)[:, None], np.asarray(t)[None, :]
        return np.concatenate([x[0] + x[2] * t,
                               x[1] + x[3] * t - self.g * t * t / 2,
                               x[2] + 0 * t, x[3] - self.g * t])

    def fall(self, x, th):
        """Apex -> (state before touch-down, time)."""
        t = np.sqrt(2 * (x[1] - self.l0 * np.cos(th)) / self.g)
        return np.array([x[0] + x[2] * t, self.l0 * np.cos(th), x[2],
                         -self.g * t, t])

    def _stance(self, pos, vel, xf):
        """Cartesian stance from touch-down to lift-off or a fall."""
        k, m, g, l0 = self.k, self.m, self.g, self.l0
        foot = np.array([xf, 0.])

        def f(t, y):
            d = y[:2] - foot
            r = np.sqrt(d @ d)
            a = k / m * (l0 - r) * d / r
            return np.array([y[2], y[3], a[0], a[1] - g])

        def lo(t, y):
            d = y[:2] - foot
            return np.sqrt(d @ d) - l0

        def ground(t, y):
            return y[1]
        lo.terminal, lo.direction = True, 1
        ground.terminal, ground.direction = True, -1
        T = 60 * np.sqrt(m / k) + 20 * np.sqrt(l0 / g)
        # leave the guard first
        sol = solve_ivp(f, (0, T), np.r_[pos, vel], events=[lo, ground],
                        max_step=.3 * np.sqrt(m / k), **TOL)
        r = types.SimpleNamespace(sol=sol, ok=False, why=None, grazing=False,
                                  sens=1.)
        r.t = sol.t[-1]
        y = sol.y[:, -1]
        d = sol.y[:2] - foot[:, None]
        rr = np.sqrt((d * d).sum(0))
        r.rmin = rr.min() / l0
        if r.rmin < .15:
            r.grazing = True
        d = y[:2] - foot
        rd = d @ y[2:] / np.sqrt(d @ d)
        if len(sol.t_events[0]):
            r.ok = True
            th = np.arctan2(-d[0], d[1])
            td = -(np.cos(th) * y[2] + np.sin(th) * y[3]) / l0
            r.end = np.array([l0, th, rd, td, xf])
            r.cart = y
            r.rd = rd
            if rd < .05 * self.v or abs(abs(th) - np.pi / 2) < 1e-3:
                r.grazing = True
            r.sens = max(1., self.v / max(rd, 1e-9))
        elif len(sol.t_events[1]):
            r.why = "fall"
            # close to lifting off at the ground?
            if abs(np.sqrt(d @ d) - l0) < 1e-3 * l0 or \
                    abs(y[3]) < 1e-2 * self.v:
                r.grazing = True
        else:
            r.why = "endless stance"
            r.grazing = True
        return r

    def skims(self, rd, td, th):
        """The leg touches so tangentially that it is thrown off again at
        once, within a step of an integrator that looks for sign changes."""
        a = self.l0 * td ** 2 - self.g * np.cos(th)
        return rd > -.02 * self.v or \
            (a > 0 and -2 * rd / a < .6 * np.sqrt(self.m / self.k))

    def stance(self, q):
        """From a post-touch-down state [l0, th, rd, td, xf]."""
        pos, vel = self.stance_to_cartesian(q)
        r = self._stance(pos, vel, q[4])
        if self.skims(q[2], q[3], q[1]):
            r.grazing = True
        return r

    def stance_path(self, r, t):
        """(x, z, vx, vz) at the times t after touch-down."""
        return r.sol.sol(np.minimum(t, r.sol.t[-1]))

    def step(self, x, th):
        """One step from a flight state (x, z, vx, vz)."""
        r = types.SimpleNamespace(ok=False, why=None, grazing=False, sens=1.,
                                  x0=np.array(x), stance=None, t_td=np.inf)
        gap = x[1] - self.l0 * np.cos(th)
        if abs(gap) < 1e-4 * self.l0:
            r.grazing = True
        if gap < 0:
            r.why = "foot below the ground"
            return r
        r.t_td = t = (x[3] + np.sqrt(x[3] ** 2 + 2 * self.g * gap)) / self.g
        r.pre_td = self.fly(x, [t])[:, 0]
        pos, vel = r.pre_td[:2], r.pre_td[2:]
        xf = pos[0] + self.l0 * np.sin(th)
        er = np.array([-np.sin(th), np.cos(th)])
        r.r_dot_td = vel @ er
        et = np.array([np.cos(th), np.sin(th)])
        if self.skims(r.r_dot_td, vel @ et / self.l0, th):
            r.grazing = True
            return r
        r.stance = q = self._stance(pos, vel, xf)
        r.grazing |= q.grazing
        if not q.ok:
            r.why = q.why
            return r
        r.post_lo = q.cart
        r.sens = q.sens
        if abs(q.cart[3]) < 1e-3 * self.v:
            r.grazing = True
        if q.cart[3] < 0:
            r.why = "downward lift-off"
            return r
        r.ok = True
        ta = q.cart[3] / self.g
        r.apex = np.array([q.cart[0] + q.cart[2] * ta,
                           q.cart[1] + q.cart[3] * ta / 2, q.cart[2]])
        r.t = t + q.t + ta
        return r

    def apex_map(self, x, th):
        return self.step(np.r_[x, 0.], th)


def pendulum(rng):
    m = float(np.exp(rng.uniform(np.log(.5), np.log(90))))
    l0 = float(rng.uniform(.3, 2))
    g = float(rng.choice([9.81, rng.uniform(1.6, 20)]))
    k = float(np.exp(rng.uniform(np.log(4), np.log(200)))) * m * g / l0
    return Pendulum(m, l0, k, g)


def apex_state(rng, p, hard=False):
    """Apex state (x, height, vx) and leg angle."""
    for _ in range(50):
        vx = float(rng.normal() * .8 * p.v)
        if rng.random() < .1:
            vx = 0.
        th = float(abs(rng.normal()) * .35)
        if hard:
            th = float(rng.uniform(0, .8))
            if rng.random() < .15:
                th = -th
        th = min(th, .8) * (np.sign(vx) if vx else 1)
        h = p.l0 * float(np.cos(th) + np.exp(rng.uniform(np.log(.03),
                                                         np.log(.8))))
        x = np.array([float(rng.normal() * 3), h, vx])
        if hard:
            if rng.random() < .15:
                x[1] = p.l0 * np.cos(th) - rng.uniform(.01, .5)
            return x, th
        r = p.apex_map(x, th)
        if r.ok and not r.grazing:
            break
    return x, th

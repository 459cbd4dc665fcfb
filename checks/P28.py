"""P28: the spring-loaded inverted pendulum obeys its physics."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np  # noqa: E402
import slipgen  # noqa: E402
import neural_network_lyapunov.spring_loaded_inverted_pendulum as sl  # noqa

chk = Check("P28", rule="pendulums with mass .5-90, rest length .3-2, "
            "dimensionless stiffness 4-200 and gravity 1.6-20, apex states "
            "and leg angles within +-.8 rad, stones of any extent, runs of "
            "1-6 steps; non-trivial: distinct trajectories judged",
            assumptions=["reference: mass on a massless spring in Cartesian "
                         "coordinates about a fixed foot, integrated with "
                         "DOP853 at 1e-11 and an event solver; the repo "
                         "integrates with rtol 1e-8 / atol 1e-6, so "
                         "trajectories are compared at 3e-5 of their scale",
                         "grazing cases (a guard reached within 1e-4 of "
                         "tangentially) are not judged"])


@chk.section(quick=1826, thorough=20000)
def local(c, rng, i):
    """Vector field, guards, transitions, energies at one point."""
    p = slipgen.pendulum(rng)
    s, l0, g, m, k = p.repo, p.l0, p.g, p.m, p.k
    v = p.v
    x = np.array([rng.normal() * 3, rng.uniform(.1, 3) * l0,
                  rng.normal() * v, rng.normal() * v])
    d = s.flight_dynamics(x)
    c.close(d, [x[2], x[3], 0., -g], "flight_dynamics", "ballistic flight",
            tol=1e-12)
    c.close(s.flight_phase_energy(x),
            m * (x[2] ** 2 + x[3] ** 2) / 2 + m * g * x[1],
            "flight_energy", "energy in flight", tol=1e-12)
    # stance: polar field against the Cartesian force balance
    th = rng.uniform(-1.3, 1.3)
    r = rng.uniform(.4, 1.1) * l0
    q = np.array([r, th, rng.normal() * v, rng.normal() * v / l0,
                  rng.normal() * 3])
    d = s.stance_dynamics(q)
    # position relative to the foot is (-r sin th, r cos th)
    er, et = np.array([-np.sin(th), np.cos(th)]), \
        -np.array([np.cos(th), np.sin(th)])
    vel = q[2] * er + r * q[3] * et
    acc = k * (l0 - r) / m * er - np.array([0, g])
    want = np.array([q[2], q[3], acc @ er + r * q[3] ** 2,
                     (acc @ et - 2 * q[2] * q[3]) / r, 0.])
    c.close(d, want, "stance_dynamics", "force balance in stance", tol=1e-11)
    E = m * vel @ vel / 2 + k * (l0 - r) ** 2 / 2 + m * g * r * np.cos(th)
    c.close(s.stance_phase_energy(q), E, "stance_energy", "energy in stance",
            tol=1e-12)
    # touch-down
    pre = np.array([x[0], l0 * np.cos(th), x[2], x[3]])
    post = s.touchdown_transition(pre, th)
    pos, vel2 = p.stance_to_cartesian(post)
    c.close(post[:2], [l0, th], "touchdown_transition", "leg at touch-down",
            tol=1e-12)
    c.close(np.r_[pos, vel2], pre, "touchdown_transition",
            "position and velocity are continuous at touch-down", tol=1e-11)
    c.close(s.stance_phase_energy(post), s.flight_phase_energy(pre),
            "touchdown_energy", "energy is continuous at touch-down",
            tol=1e-11)
    c.close(s.touchdown_guard(x, th), x[1] - l0 * np.cos(th),
            "guard", "touch-down guard", tol=1e-12)
    # lift-off
    q0 = q.copy()
    q0[0] = l0
    lo = s.liftoff_transition(q0)
    c.close(lo, np.r_[p.stance_to_cartesian(q0)], "liftoff_transition",
            "position and velocity are continuous at lift-off", tol=1e-11)
    c.close(s.flight_phase_energy(lo), s.stance_phase_energy(q0),
            "liftoff_energy", "energy is continuous at lift-off", tol=1e-11)
    c.close(s.liftoff_guard(q), r - l0, "guard", "lift-off guard", tol=1e-12)
    c.close(s.apex_guard(x), x[3], "guard", "apex guard", tol=1e-12)
    c.key("local", q, x, l0, k)

    # gradients of the local maps
    def check(got, f, at, what):
        c.close(got, slipgen.jac(f, at), what, "gradient of " + what,
                tol=2e-6)
    check(s.stance_dynamics_gradient(q), s.stance_dynamics, q,
          "stance_dynamics_gradient")
    a, b = s.touchdown_transition_gradient(x, th)
    check(a, lambda z: s.touchdown_transition(z, th), x,
          "touchdown_transition_gradient")
    check(b, lambda z: s.touchdown_transition(x, z[0]), np.array([th]),
          "touchdown_transition_gradient")

    def lift(z):  # at the lift-off guard the leg is at rest length
        z = z.copy()
        z[0] = l0
        return s.liftoff_transition(z)
    check(s.liftoff_transition_gradient(q0), lift, q0,
          "liftoff_transition_gradient")
    c.ev("local maps", 3)


@chk.section(quick=913, thorough=10000)
def stones(c, rng, i):
    """Time to touch-down on a stone, against the parabola."""
    p = slipgen.pendulum(rng)
    s, l0, g = p.repo, p.l0, p.g
    th = rng.uniform(-.9, .9)
    x = np.array([rng.normal() * 3, rng.uniform(.6, 2.5) * l0,
                  rng.normal() * p.v, rng.choice([0., rng.normal() * p.v])])
    h = rng.normal() * .5 * l0
    gap = x[1] - l0 * np.cos(th) - h
    kind = int(rng.integers(4))
    if kind == 3 and gap < 0:
        h += gap - .2
        gap = .2
    t = None
    if gap >= 0:
        t = max(np.roots([-g / 2, x[3], gap]).real)
        foot = x[0] + l0 * np.sin(th) + x[2] * t
        w = rng.uniform(.05, 3)
        le = foot - w * rng.uniform(-.6, 1.6)
        ri = le + w
    else:
        le, ri = sorted(rng.normal(size=2) * 5)
    if rng.random() < .2:
        le = -np.inf
    if rng.random() < .2:
        ri = np.inf
    if min(abs(gap), *(abs(foot - b) for b in (le, ri)) if t is not None
           else (9,)) < 1e-7:
        raise Skip("at a boundary")
    stone = sl.SteppingStone(le, ri, h)
    hit = t is not None and le <= foot <= ri
    got = s.time_to_touchdown(x, stone, th)
    c.require((got is not None) == hit, "touchdown_possible",
              "touch-down on the stone", x=x, stone=(le, ri, h), angle=th,
              got=got, want=t)
    c.require(bool(s.can_touch_stepping_stone(x, stone, th)) == hit,
              "touchdown_possible", "can_touch_stepping_stone")
    if hit:
        c.close(got, t, "touchdown_time", "time to touch-down", tol=1e-9)
        c.ev("touch-downs")
    else:
        c.ev("misses")
    c.key("stone", x, th, h, le, ri)


@chk.section(quick=456, thorough=5000, floor=.6)
def apex(c, rng, i):
    """One apex-to-apex step against the reference."""
    p = slipgen.pendulum(rng)
    x, th = slipgen.apex_state(rng, p, hard=i % 4 == 0)
    ref = p.apex_map(x, th)
    if ref.grazing:
        raise Skip("grazing")
    got = p.repo.apex_map(x[0], x[1], x[2], th)
    ok = ref.ok and not x[2] * th < 0
    if not ref.ok or x[2] * th < 0:
        c.require(all(v is None for v in got), "apex_none",
                  "a step that cannot be completed has no next apex",
                  got=got, why=ref.why, x=x, angle=th, par=p.desc)
        c.ev("no step: " + (ref.why or "leg points backwards"))
    else:
        c.require(all(v is not None for v in got), "apex_none",
                  "the step can be completed", x=x, angle=th, par=p.desc)
        sc = ref.sens * (1 + np.abs(ref.apex).max() + ref.t)
        c.close(np.array(got[:3]), ref.apex, "apex_map", "next apex",
                tol=3e-5, scale=sc, x=x, angle=th, par=p.desc)
        c.close(float(got[3]), ref.t, "apex_time", "time to the next apex",
                tol=3e-5, scale=sc, x=x, angle=th, par=p.desc)
        # energy: published energies, not the reference's
        e = p.repo.flight_phase_energy
        c.close(e(np.array([got[0], got[1], got[2], 0.])) / p.m,
                e(np.array([x[0], x[1], x[2], 0.])) / p.m, "apex_energy",
                "energy of consecutive apices", tol=1e-4, scale=ref.sens
                * (p.g * x[1] + x[2] ** 2))
    c.key("apex", p.desc, x, th)
    g = p.repo.apex_to_apex_gradient(x, th)
    if not ref.ok:
        c.require(len(g) == 12 and all(v is None for v in g),
                  "gradient_none", "no gradient without a step",
                  why=ref.why)
        return
    if not ok and ref.r_dot_td > -1e-6:
        return
    sc = ref.sens * (1 + np.abs(ref.apex).max() + ref.t)
    c.close(g[2], ref.apex, "gradient_value", "next apex of the gradient",
            tol=3e-5, scale=sc, x=x, angle=th, par=p.desc)
    c.close(g[5], ref.t, "gradient_value", "time", tol=3e-5, scale=sc)
    c.close(g[8], ref.pre_td, "gradient_value", "state before touch-down",
            tol=1e-9)
    c.close(g[11], ref.post_lo, "gradient_value", "state after lift-off",
            tol=3e-5, scale=sc)

    def f(z):
        r = p.apex_map(z[:3], z[3])
        if not r.ok:
            raise Skip("edge of the domain")
        return np.r_[r.apex, r.t, r.pre_td, r.post_lo]
    J, err = slipgen.jac2(f, np.r_[x, th], 2e-5 * np.array([1, 1, 1, .3]))
    if err > 1e-4 * (1 + np.abs(J).max()):
        raise Skip("finite differences do not settle")
    S = 1 + np.abs(J).max()

    def cmp(A, b, want, what):
        c.close(np.c_[np.reshape(A, (-1, 3)), np.reshape(b, (-1, 1))], want,
                "apex_gradient", "gradient of " + what, tol=1e-3, scale=S,
                x=x, angle=th, par=p.desc)
    cmp(g[0], g[1], J[:3], "the next apex")
    cmp(g[3], g[4], J[3:4], "the time to the next apex")
    cmp(g[6], g[7], J[4:8], "the state before touch-down")
    cmp(g[9], g[10], J[8:], "the state after lift-off")
    c.ev("gradients of the apex map")


@chk.section(quick=456, thorough=5000, floor=.6)
def phases(c, rng, i):
    """Gradients and values of the separate phases."""
    p = slipgen.pendulum(rng)
    s = p.repo
    x, th = slipgen.apex_state(rng, p)
    if x[1] - p.l0 * np.cos(th) < .01 * p.l0:
        x[1] += p.l0
    A, b, pre, at, bt, t = s.apex_to_touchdown_gradient(x, th)
    ref = p.fall(x, th)
    c.close(np.r_[pre, t], ref, "apex_to_touchdown", "free fall", tol=1e-10)
    J = slipgen.jac(lambda z: p.fall(z[:3], z[3]), np.r_[x, th])
    c.close(np.c_[A, b], J[:4], "apex_to_touchdown_gradient",
            "gradient of the touch-down state", tol=1e-5)
    c.close(np.r_[at, bt], J[4], "apex_to_touchdown_gradient",
            "gradient of the touch-down time", tol=1e-5)
    low = x.copy()
    low[1] = p.l0 * np.cos(th) - rng.uniform(.01, .5)
    c.require(all(v is None for v in s.apex_to_touchdown_gradient(low, th)),
              "touchdown_none", "foot below the ground at the apex")
    # ascent
    y = np.array([rng.normal(), p.l0 * rng.uniform(.3, 1), rng.normal() * p.v,
                  abs(rng.normal()) * p.v])
    A, xa, at, t = s.liftoff_to_apex_gradient(y)

    def up(z):
        t = z[3] / p.g
        return np.array([z[0] + z[2] * t, z[1] + z[3] * t - p.g * t * t / 2,
                         z[2], t])
    c.close(np.r_[xa, t], up(y), "liftoff_to_apex", "ascent", tol=1e-10)
    J = slipgen.jac(up, y)
    c.close(np.r_[A, at.reshape(1, 4)], J, "liftoff_to_apex_gradient",
            "gradient of the ascent", tol=1e-6)
    y[3] = -y[3] - .01
    c.require(all(v is None for v in s.liftoff_to_apex_gradient(y)),
              "liftoff_none", "no ascent with downward velocity")
    # stance
    post = s.touchdown_transition(pre, th)
    r = p.stance(post)
    if r.grazing:
        raise Skip("grazing")
    A, q, at, t = s.touchdown_to_liftoff_gradient(post)
    c.key("phases", p.desc, x, th)
    if not r.ok:
        c.require(A is None and q is None and at is None and t is None,
                  "stance_none", "no lift-off", why=r.why)
        c.ev("no lift-off: " + r.why)
        return
    sc = r.sens * (1 + np.abs(r.end).max())
    c.close(q, r.end, "stance_end", "state at lift-off", tol=3e-5, scale=sc)
    c.close(t, r.t, "stance_end", "duration of stance", tol=3e-5, scale=sc)
    c.close(q[0], p.l0, "liftoff_guard_zero", "leg length at lift-off",
            tol=1e-7)

    def f(z):
        w = p.stance(z)
        if not w.ok:
            raise Skip("edge of the domain")
        return np.r_[w.end, w.t]
    J, err = slipgen.jac2(f, post, 1e-5 * np.array([1, 1, 1, 1, 1]),
                          cols=[1, 2, 3, 4])
    if err > 1e-4 * (1 + np.abs(J).max()):
        raise Skip("finite differences do not settle")
    got = np.r_[A, np.reshape(at, (1, 5))][:, 1:]
    c.close(got, J, "stance_gradient", "gradient of stance", tol=1e-3,
            scale=1 + np.abs(J).max(), x=x, angle=th, par=p.desc)
    c.ev("gradients of stance")


@chk.section(quick=304, thorough=3000, floor=.6)
def simulate(c, rng, i):
    p = slipgen.pendulum(rng)
    s = p.repo
    n = int(rng.integers(1, 6))
    x, th = slipgen.apex_state(rng, p)
    x0 = np.array([x[0], x[1], x[2], 0.])
    if x[1] <= p.l0 * np.cos(th):
        raise Skip("starts on the ground")
    if rng.random() < .5:  # not at the apex
        x0[3] = rng.normal() * .5 * p.v
    if i % 4 == 1:  # end with a fall
        for _ in range(12):
            t2 = (np.sign(x[2]) or 1.) * rng.uniform(-.9, 1.3)
            if x0[1] - p.l0 * np.cos(t2) > .02 * p.l0:
                q = p.step(x0, t2)
                if q.why == "fall" and not q.grazing:
                    th = t2
                    break
    angles, refs = [], []
    y, t0 = x0, 0.
    for j in range(n):
        r = p.step(y, th)
        if r.grazing or r.t_td > 9 or (r.stance and r.stance.t > 9):
            break
        angles.append(th)
        refs.append((t0, r))
        if r.why == "downward lift-off" and rng.random() < .9:
            # the flight goes on along the parabola through the lift-off,
            # whose apex lies in the past, once the leg is swung forward
            z = r.post_lo
            th = np.sign(z[2]) * rng.uniform(.5, 1.2)
            if z[1] - p.l0 * np.cos(th) < .02 * p.l0:
                break
            ta = z[3] / p.g
            y = np.array([z[0] + z[2] * ta, z[1] + z[3] * ta / 2, z[2], 0.])
            t0 += r.t_td + r.stance.t + ta
            c.ev("flights after a downward lift-off")
            continue
        if not r.ok:
            break
        y = np.r_[r.apex, 0.]
        t0 += r.t
        for _ in range(6):
            th = np.sign(y[2]) * rng.uniform(0, .6)
            if y[1] - p.l0 * np.cos(th) > .02 * p.l0:
                break
        else:
            break
    if not angles:
        raise Skip("grazing")
    # nothing follows a fall or an apex too low for the next leg angle
    r, extra = refs[-1][1], []
    if r.why == "fall":
        extra = [float(rng.choice([-1., 1.]) * rng.uniform(1.3, 1.56)), 0.]
    elif r.ok and r.apex[1] < .98 * p.l0:
        extra = [0., .7]
    if extra:
        c.ev("runs ending early")
    sol = s.simulate(x0, np.array(angles + extra))
    c.require(len(sol) == 2 * len(angles), "phases", "number of phases",
              got=len(sol), want=2 * len(angles))
    c.key("simulate", p.desc, x0, angles)
    last = None
    for j, (t0, planned) in enumerate(refs):
        f, w = sol[2 * j], sol[2 * j + 1]
        if last is None:
            c.close(np.r_[f.y[:, 0], f.t[0]], np.r_[x0, 0.], "start",
                    "initial state", tol=1e-12)
        else:  # the flight continues from the apex after the lift-off
            z, tl = r.post_lo, r.t_td + r.stance.t
            ta = z[3] / p.g
            apex = np.array([z[0] + z[2] * ta, z[1] + z[3] * ta / 2, z[2],
                             0., t1 + tl + ta])
            c.close(np.r_[f.y[:, 0], f.t[0]], apex, "next_apex",
                    "apex of the parabola through the lift-off", tol=3e-5,
                    scale=r.sens * (1 + np.abs(apex[:4]).max() + tl))
        # judged from the state the simulation itself reached
        r, t1 = p.step(f.y[:, 0], angles[j]), f.t[0]
        if r.grazing or r.why != planned.why:
            c.ev("grazing after error growth")
            break
        sc = r.sens * (1 + np.abs(r.pre_td).max())
        E = np.array([s.flight_phase_energy(v) for v in f.y.T]) / p.m
        c.close(E, np.full(E.shape, E[0]), "flight_conservation",
                "energy along a flight", tol=1e-6)
        c.close(f.y, p.fly(r.x0, f.t - f.t[0]), "flight", "flight",
                tol=3e-5, scale=sc)
        c.close(s.touchdown_guard(f.y[:, -1], angles[j]), 0.,
                "touchdown_guard_zero", "guard at touch-down", tol=1e-7)
        c.require(np.all([s.touchdown_guard(v, angles[j]) > -1e-7
                          for v in f.y.T]), "flight_above",
                  "the foot stays above the ground in flight")
        if last is not None:
            c.close(E[0], last, "liftoff_energy", "energy across lift-off",
                    tol=1e-6)
        E2 = np.array([s.stance_phase_energy(v) for v in w.y.T]) / p.m
        c.close(E2[0], E[-1], "touchdown_energy", "energy across touch-down",
                tol=1e-6)
        c.close(E2, np.full(E2.shape, E2[0]), "stance_conservation",
                "energy along a stance", tol=1e-4)
        c.close(w.t[0], f.t[-1], "phase_time", "stance follows flight",
                tol=1e-9)
        c.close(w.y[4], np.full(w.t.shape, w.y[4, 0]), "foot",
                "the foot does not slip", tol=1e-9)
        want = p.stance_path(r.stance, w.t - w.t[0])
        got = np.array([np.r_[p.stance_to_cartesian(v)] for v in w.y.T]).T
        c.close(got, want, "stance", "stance trajectory", tol=3e-5,
                scale=sc * 3, par=p.desc)
        if r.why is None or r.why == "downward lift-off":
            c.close(w.y[0, -1], p.l0, "liftoff_guard_zero",
                    "leg length at lift-off", tol=1e-7)
        else:
            c.close(abs(w.y[1, -1]), np.pi / 2, "ground",
                    "the mass reaches the ground", tol=1e-5)
            c.ev("falls")
        last = E2[-1]
        c.ev("steps")
    c.note(par=p.desc, x0=x0, angles=angles)


if __name__ == "__main__":
    chk.main()

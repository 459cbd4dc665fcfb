"""P25: the held-control integrator is the classical RK4 scheme."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import neural_network_lyapunov.integrator as integrator  # noqa: E402
from gen import T, N  # noqa: E402

chk = Check("P25", rule="random smooth dynamics (polynomial/trigonometric/"
            "linear), container (float, numpy vector, numpy matrix, torch, "
            "torch batch), controller, signed step size and 0-40 steps; "
            "non-trivial: the state moved and at least one step was taken",
            assumptions=["numpy/torch double arithmetic"])

A = np.array([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1., 0]])
B = np.array([1., 2., 2., 1.]) / 6


def reference(f, x, u, dt, n):
    """Explicit Runge-Kutta from its Butcher tableau."""
    x = np.array(x, dtype=float)
    for _ in range(n):
        k = []
        for s in range(4):
            k.append(f(x + dt * sum((A[s, j] * k[j] for j in range(s)),
                                    np.zeros_like(x)), u))
        x = x + dt * sum(B[s] * k[s] for s in range(4))
    return x


def make(rng, shape, nu):
    kind = int(rng.integers(3))
    d = shape[-1] if shape else 1
    M = rng.normal(size=(d, d))
    M2 = rng.normal(size=(d, d))
    Bu = rng.normal(size=(d, nu))
    c = rng.normal(size=d)

    def f(x, u, lib):
        xs = x if shape else lib.reshape(x, (1, ))
        m, m2, bu, cc = ((M, M2, Bu, c) if lib is np else
                         (T(M), T(M2), T(Bu), T(c)))
        lin = xs @ m.T + u @ bu.T + cc
        if kind == 1:
            lin = lin + .5 * lib.sin(xs @ m2.T) * lib.cos(xs)
        elif kind == 2:
            lin = lin - .1 * (xs @ m2.T) * xs
        return lin if shape else lin[0]

    return kind, f


@chk.section(quick=2000, thorough=60000)
def rk4(c, rng, i):
    backend = ["numpy", "torch"][int(rng.integers(2))]
    shape = [(), (1, ), (3, ), (2, 2), (5, 3), (2, )][int(rng.integers(6))]
    nu = int(rng.integers(1, 4))
    kind, f = make(rng, shape, nu)
    x0 = rng.normal(size=shape) * rng.choice([.1, 1., 2.])
    K = rng.normal(size=((shape[-1] if shape else 1), nu))
    dt = float(rng.choice([.001, .01, .05, .1, .2, -.03]))
    n = int(rng.choice([0, 1, 1, 2, 3, 5, 10, 40]))
    log = []
    nctrl = [0]
    lib = np if backend == "numpy" else torch

    def ctrl_np(x):
        return np.sin(np.reshape(x, shape or (1, )) @ K)

    def controller(x):
        nctrl[0] += 1
        log.append(("ctrl", N(x).copy()))
        if backend == "numpy":
            return ctrl_np(x)
        return torch.sin(torch.reshape(x, shape or (1, )) @ T(K))

    def dyn(x, u):
        log.append(("dyn", N(x).copy(), N(u).copy()))
        c.ev("dynamics_calls")
        return f(x, u, lib)

    xin = (np.array(x0) if backend == "numpy" else T(x0))
    keep = np.array(x0)
    with np.errstate(all="ignore"):
        x, u = integrator.rk4_constant_control(dyn, controller, xin, dt, n)
        u0 = ctrl_np(keep)
        ref = reference(lambda a, b: np.asarray(f(a, b, np)), keep, u0, dt, n)
    if not np.all(np.isfinite(ref)):
        from vlib import Skip
        raise Skip("diverged")
    c.close(N(xin), keep, "initial_state_modified", tol=0)
    c.close(N(u), u0, "control", "returned control", tol=1e-12)
    c.require(nctrl[0] == 1, "controller_once", calls=nctrl[0])
    for e in log:
        if e[0] == "dyn":
            c.close(e[2], u0, "held_control", "control seen by dynamics",
                    tol=1e-12)
        else:
            c.close(e[1], keep, "control_at_x0", tol=0)
    c.close(N(x), ref, "rk4_value", tol=1e-9, n=n, dt=dt, kind=kind)
    if n == 0:
        c.close(N(x), keep, "zero_steps", tol=0)
    else:
        c.key(backend, shape, kind, n, x0)
        c.note(backend=backend, shape=shape, dt=dt, n=n, x0=x0, x=x)
    # earlier calls leave no trace
    with np.errstate(all="ignore"):
        x2, _ = integrator.rk4_constant_control(dyn, controller, xin, dt, n)
    c.close(N(x2), N(x), "repeatable", tol=0)


@chk.section(quick=200, thorough=4000)
def order(c, rng, i):
    """Global error against a fine reference shrinks with the fourth power."""
    d = int(rng.integers(1, 4))
    M = rng.normal(size=(d, d))
    w = rng.normal(size=d)

    def f(x, u):
        return np.sin(M @ x) + w * u[0] - .3 * x

    x0 = rng.normal(size=d)

    def ctrl(x):
        return np.array([np.tanh(x[0])])

    def run(n):
        return integrator.rk4_constant_control(f, ctrl, x0, 1. / n, n)[0]

    ref = reference(f, x0, ctrl(x0), 1. / 2000, 2000)
    e1, e2 = (np.max(np.abs(run(n) - ref)) for n in (10, 20))
    if e1 < 1e-9:
        from vlib import Skip
        raise Skip("error at rounding level")
    c.key(M, x0)
    c.note(e10=e1, e20=e2)
    c.require(e2 <= e1 / 6. and e1 < .1, "fourth_order", e10=e1, e20=e2)


@chk.section(quick=200, thorough=4000)
def linear_exact_to_fourth_order(c, rng, i):
    """For xdot = Ax + b one step is the 4th-degree Taylor polynomial."""
    d = int(rng.integers(1, 5))
    M = rng.normal(size=(d, d))
    b = rng.normal(size=d)
    x0 = rng.normal(size=d)
    dt = float(rng.uniform(.01, .5))
    G = np.zeros((d + 1, d + 1))
    G[:d, :d], G[:d, d] = M * dt, b * dt
    P = np.eye(d + 1)
    term = np.eye(d + 1)
    for k in range(1, 5):
        term = term @ G / k
        P = P + term
    x, u = integrator.rk4_constant_control(lambda x, u: M @ x + u,
                                           lambda x: b, x0, dt, 1)
    c.key(M, dt)
    c.note(dt=dt, x0=x0)
    c.close(x, (P @ np.append(x0, 1.))[:d], "taylor4", tol=1e-11)


if __name__ == "__main__":
    chk.main()

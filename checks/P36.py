"""P36: the example plants describe one physics in every representation."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
from gen import T, N  # noqa: E402
import scipy.linalg  # noqa: E402
import scipy.integrate  # noqa: E402
import neural_network_lyapunov.examples.pendulum.pendulum as pendulum  # noqa
import neural_network_lyapunov.examples.rocket.rocket as rocket  # noqa: E402
import neural_network_lyapunov.examples.quadrotor2d.quadrotor_2d as q2d  # noqa
import neural_network_lyapunov.examples.quadrotor3d.quadrotor as q3d  # noqa
import neural_network_lyapunov.examples.car.unicycle as unicycle  # noqa: E402
import neural_network_lyapunov.examples.car.acceleration_car as acar  # noqa
import neural_network_lyapunov.examples.car.utils_simulation as usim  # noqa
import neural_network_lyapunov.examples.pole.pole as pole  # noqa: E402

chk = Check("P36", rule="random states (zero, small, large, gimbal-adjacent "
            "angles), inputs and physical parameters; non-trivial: distinct "
            "(plant, state, input) with nonzero velocity and input",
            assumptions=["independent Newton-Euler / constraint-force "
                         "equations of motion, central differences and "
                         "Runge-Kutta integration as references"])


def fd(f, z, h=1e-5):
    """Fourth-order central difference Jacobian."""
    z = np.asarray(z, dtype=float)
    cols = []
    for k in range(z.size):
        e = np.zeros(z.size)
        e[k] = h
        cols.append((8 * (f(z + e) - f(z - e)) -
                     (f(z + 2 * e) - f(z - 2 * e))) / (12 * h))
    return np.array(cols).T


def state(rng, n, ang=(), lim=None):
    kind = int(rng.integers(5))
    x = rng.normal(size=n) * [1., .1, 5., 1., 1.][kind]
    if kind == 3:
        x = x * (rng.random(n) < .5)
    for k in ang:
        if kind == 4:
            x[k] = rng.choice([0., np.pi, np.pi / 2, -np.pi / 2, .3])
    if lim is not None:
        for k, m in lim.items():
            x[k] = np.clip(x[k], -m, m)
    return x


def both(c, plant, x, u, ref, mech, tol=1e-9, use_torch=True):
    """numpy and torch versions against the reference and unmodified args."""
    x0, u0 = x.copy(), u.copy()
    d = plant.dynamics(x, u)
    c.require(isinstance(d, np.ndarray), mech + "_type", "numpy in, numpy out")
    c.close(d, ref, mech + "_numpy", "numpy dynamics", tol, x=x, u=u)
    if not use_torch:
        return d, None, None
    tx, tu = T(x), T(u)
    dt = plant.dynamics(tx, tu)
    c.require(isinstance(dt, torch.Tensor) and dt.dtype == torch.float64,
              mech + "_type", "torch in, torch out")
    c.close(dt, ref, mech + "_torch", "torch dynamics", tol, x=x, u=u)
    c.require(np.array_equal(x, x0) and np.array_equal(u, u0) and
              np.array_equal(N(tx), x0) and np.array_equal(N(tu), u0),
              mech + "_args", "arguments modified")
    # torch dynamics are differentiable, with the true derivative
    J = torch.autograd.functional.jacobian(plant.dynamics, (tx, tu))
    f = (lambda z: ref_of(plant, z[:len(x)], z[len(x):]))
    Jr = fd(f, np.concatenate((x, u)))
    c.close(torch.cat(J, dim=1), Jr, mech + "_autograd",
            "autograd of the torch dynamics", 1e-5, x=x, u=u)
    return d, Jr[:, :len(x)], Jr[:, len(x):]


REF = {}


def ref_of(plant, x, u):
    return REF[type(plant).__name__](plant, x, u)


def _pend(p, x, u):
    inertia = p.mass * p.length**2
    torque = u[0] - p.damping * x[1] - \
        p.mass * p.gravity * p.length * np.sin(x[0])
    return np.array([x[1], torque / inertia])


def rot2(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def _rocket(p, x, u):
    R = rot2(x[2])
    F = R @ u
    acc = F / p.mass - np.array([0, p.gravity])
    nozzle = R @ np.array([0, -p.length / 2])
    return np.concatenate((x[3:], acc, [cross2(nozzle, F) / p.inertia]))


def _rocket2(p, x, u):
    d = _rocket(p, x, u)
    # bottom = centre + R r; a_bottom = a_centre + alpha x Rr - w^2 Rr
    r = rot2(x[2]) @ np.array([0, -p.length / 2])
    al, w = d[5], x[5]
    d[3:5] += al * np.array([-r[1], r[0]]) - w**2 * r
    return d


def _q2d(p, x, u):
    up = rot2(x[2]) @ np.array([0, 1.])
    acc = up * (u[0] + u[1]) / p.mass - np.array([0, p.gravity])
    return np.concatenate((x[3:], acc, [p.length * (u[0] - u[1]) /
                                        p.inertia]))


def R3(rpy):
    r, q, y = rpy
    Rx = np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)],
                   [0, np.sin(r), np.cos(r)]])
    Ry = np.array([[np.cos(q), 0, np.sin(q)], [0, 1, 0],
                   [-np.sin(q), 0, np.cos(q)]])
    Rz = np.array([[np.cos(y), -np.sin(y), 0], [np.sin(y), np.cos(y), 0],
                   [0, 0, 1]])
    return Rz @ Ry @ Rx


def dR3(rpy, k, h=1e-20):
    z = np.asarray(rpy, dtype=complex)
    z[k] += 1j * h
    return R3(z).imag / h if True else None


def R3c(rpy):
    return R3(rpy)


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def _q3d(p, x, u):
    R = R3(x[3:6])
    w = x[9:12]
    # Euler rates from the kinematics dR/dt = R [w]x
    M = np.array([dR3(x[3:6], k).reshape(-1) for k in range(3)]).T
    rates = np.linalg.lstsq(M, (R @ skew(w)).reshape(-1), rcond=None)[0]
    acc = R[:, 2] * u.sum() / p.mass - np.array([0, 0, p.gravity])
    # rotors at +x, +y, -x, -y
    arms = p.arm_length * np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0],
                                    [0, -1, 0.]])
    tau = sum(np.cross(arms[k], [0, 0, u[k]]) for k in range(4))
    tau = tau + np.array([0, 0, p.z_torque_to_force_factor *
                          (u[0] - u[1] + u[2] - u[3])])
    inertia = np.diag(p.inertia)
    wd = np.linalg.solve(inertia, tau - np.cross(w, inertia @ w))
    return np.concatenate((x[6:9], rates, acc, wd))


def _uni(p, x, u):
    return np.concatenate((rot2(x[2]) @ np.array([u[0], 0.]), [u[1]]))


def _acar(p, x, u):
    return np.concatenate((rot2(x[2]) @ np.array([x[3], 0.]), u))


def _pole(p, x, u):
    r2 = x[:2]
    z = np.sqrt(p.length**2 - r2 @ r2)
    r = np.array([x[0], x[1], z])
    zd = -(r2 @ x[5:7]) / z
    rd = np.array([x[5], x[6], zd])
    g = np.array([0, 0, -p.gravity])
    # unknowns: a_A, a_B, tension
    A = np.zeros((7, 7))
    b = np.zeros(7)
    A[:3, :3] = p.m_ee * np.eye(3)
    A[:3, 6] = -r
    b[:3] = u + p.m_ee * g
    A[3:6, 3:6] = p.m_sphere * np.eye(3)
    A[3:6, 6] = r
    b[3:6] = p.m_sphere * g
    A[6, :3], A[6, 3:6] = -r, r
    b[6] = -rd @ rd
    s = np.linalg.solve(A, b)
    return np.concatenate((x[5:7], s[:3], (s[3:6] - s[:3])[:2]))


def _pole_known(p, x, u):
    """
    The documented finding: the vertical force balance carries the velocity
    cross term with the opposite sign, as if u_z were reduced accordingly.
    """
    z = np.sqrt(p.length**2 - x[0]**2 - x[1]**2)
    e = 4 * p.m_sphere * x[0] * x[1] * x[5] * x[6] / z**3
    return _pole(p, x, u - np.array([0, 0, e]))


def _pole_ref(p, x, u):
    return (_pole_known if pole_finding() else _pole)(p, x, u)


_FINDING = []


def pole_finding():
    """Does the tree have the listed pole finding (and nothing else)?"""
    if not _FINDING:
        p = pole.Pole(.7, .4, 1.1)
        x = np.array([.3, -.4, .1, .2, .3, .8, .6])
        u = np.array([.3, -.2, 5.])
        d = p.dynamics(x, u)
        _FINDING.append(
            np.max(np.abs(d - _pole(p, x, u))) > 1e-6 and
            np.max(np.abs(d - _pole_known(p, x, u))) < 1e-9)
    return _FINDING[0]


REF.update(Pendulum=_pend, Rocket=_rocket, Rocket2=_rocket2, Quadrotor2D=_q2d,
           Quadrotor=_q3d, Unicycle=_uni, AccelerationCar=_acar, Pole=_pole_ref)


def lqr_ok(c, A, B, Q, R, K, S=None):
    A, B, Q, R, K = map(N, (A, B, Q, R, K))
    Ac = A + B @ K
    ev = np.linalg.eigvals(Ac)
    c.require(np.all(ev.real < 0), "lqr_stable", "closed loop eigenvalues",
              ev=ev.real, K=K)
    P = scipy.linalg.solve_continuous_lyapunov(Ac.T, -(Q + K.T @ R @ K))
    c.close(R @ K, -B.T @ P, "lqr_optimal", "stationarity of the LQR gain",
            1e-5)
    if S is not None:
        c.close(S, P, "lqr_cost", "cost-to-go matrix", 1e-5)


def weights(rng, n, m):
    Q = rng.normal(size=(n, n))
    Q = Q @ Q.T + .3 * np.eye(n)
    R = rng.normal(size=(m, m))
    return Q, R @ R.T + .5 * np.eye(m)


@chk.section(quick=60, thorough=1500)
def sec_pendulum(c, rng, i):
    p = pendulum.Pendulum(torch.float64)
    if i % 2:
        p.mass, p.length = rng.uniform(.3, 3, 2)
        p.damping = float(rng.choice([0., .1, .7]))
        p.gravity = rng.uniform(1., 10.)
    x, u = state(rng, 2, ang=(0, )), rng.normal(size=1) * 3
    d, Jx, Ju = both(c, p, x, u, _pend(p, x, u), "pendulum")
    A, B = p.dynamics_gradient(T(x))
    c.close(A, Jx, "pendulum_A", "df/dx", 1e-5, x=x)
    c.close(B, Ju, "pendulum_B", "df/du", 1e-5)
    # energy
    for xx in (x, T(x)):
        c.close(p.kinetic_energy(xx), .5 * p.mass * (p.length * x[1])**2,
                "pendulum_kinetic", "kinetic energy")
        c.close(p.potential_energy(xx), -p.mass * p.gravity * p.length *
                np.cos(x[0]), "pendulum_potential", "potential energy")
    g = fd(lambda z: np.array([p.kinetic_energy(z) + p.potential_energy(z)]),
           x)[0]
    c.close(g @ d, u[0] * x[1] - p.damping * x[1]**2, "pendulum_power",
            "energy balance", 1e-6, x=x, u=u)
    for eq in ([np.pi, 0.], [0., 0.]):
        c.close(p.dynamics(np.array(eq), np.zeros(1)), np.zeros(2),
                "pendulum_equilibrium", "equilibrium")
    Q, R = weights(rng, 2, 1)
    K = p.lqr_control(Q, R)
    f = (lambda z: _pend(p, z[:2], z[2:]))
    J = fd(f, np.array([np.pi, 0, 0]))
    lqr_ok(c, J[:, :2], J[:, 2:], Q, R, K)
    gain = rng.uniform(.1, 3)
    xd = np.array([np.pi, 0.])
    us = N(p.energy_shaping_control(x, xd, gain))
    c.require(us.shape == (1, ) and np.isfinite(us).all(),
              "pendulum_shaping_shape", "control shape", us=us)
    if x[1] != 0:
        E = p.kinetic_energy(x) + p.potential_energy(x)
        Ed = p.mass * p.gravity * p.length
        c.close(us, [-gain * x[1] * (E - Ed)], "pendulum_shaping",
                "energy shaping control", 1e-9, x=x)
        c.require((E - Ed) * us[0] * x[1] <= 1e-9, "pendulum_shaping_power",
                  "control power reduces the energy error")
        c.key("pendulum", x, u)
    c.note(x=x, u=u, dynamics=d)


@chk.section(quick=80, thorough=2000)
def sec_rocket(c, rng, i):
    p = (rocket.Rocket, rocket.Rocket2)[i % 2]()
    if i % 4 >= 2:
        p.length, p.mass, p.inertia = rng.uniform(.2, 2, 3)
    x, u = state(rng, 6, ang=(2, )), rng.normal(size=2) * 3
    d, Jx, Ju = both(c, p, x, u, ref_of(p, x, u), "rocket")
    A, B = p.linearized_dynamics(x, u)
    c.close(A, Jx, "rocket_A", "df/dx", 1e-5, x=x, u=u, kind=i % 2)
    c.close(B, Ju, "rocket_B", "df/du", 1e-5, x=x, u=u, kind=i % 2)
    c.close(p.hover_thrust, p.mass * p.gravity, "rocket_hover", "hover")
    xe = np.zeros(6)
    xe[:2] = rng.normal(size=2)
    c.close(p.dynamics(xe, np.array([0, p.hover_thrust])), np.zeros(6),
            "rocket_equilibrium", "hover is an equilibrium")
    # the two parametrizations describe one rocket
    a, b = rocket.Rocket(), rocket.Rocket2()
    r = rot2(x[2]) @ np.array([0, -a.length / 2])
    xb = x.copy()
    xb[:2] += r
    xb[3:5] += x[5] * np.array([-r[1], r[0]])
    da, db = a.dynamics(x, u), b.dynamics(xb, u)
    al = da[5]
    c.close(db[3:5], da[3:5] + al * np.array([-r[1], r[0]]) - x[5]**2 * r,
            "rocket_same_body", "centre and bottom descriptions agree", 1e-9)
    c.close(db[5], da[5], "rocket_same_body", "angular acceleration", 1e-9)
    c.key("rocket", i % 2, x, u)


@chk.section(quick=50, thorough=1200)
def sec_quadrotor2d(c, rng, i):
    p = q2d.Quadrotor2D(torch.float64)
    if i % 2:
        p.length, p.mass, p.inertia = rng.uniform(.2, 2, 3)
    x, u = state(rng, 6, ang=(2, )), rng.normal(size=2) * 3
    d, Jx, Ju = both(c, p, x, u, _q2d(p, x, u), "quadrotor2d")
    for A, B in (p.linearized_dynamics(x, u),
                 p.linearized_dynamics(T(x), T(u))):
        c.close(A, Jx, "quadrotor2d_A", "df/dx", 1e-5, x=x, u=u)
        c.close(B, Ju, "quadrotor2d_B", "df/du", 1e-5, x=x, u=u)
    ue = N(p.u_equilibrium)
    xe = np.zeros(6)
    xe[:2] = rng.normal(size=2)
    c.close(p.dynamics(xe, ue), np.zeros(6), "quadrotor2d_equilibrium",
            "hover")
    Q, R = weights(rng, 6, 2)
    args = [(np.zeros(6), ue), (T(np.zeros(6)), T(ue))][i % 2]
    K, S = p.lqr_control(Q, R, *args)
    J = fd(lambda z: _q2d(p, z[:6], z[6:]), np.concatenate((np.zeros(6), ue)))
    lqr_ok(c, J[:, :6], J[:, 6:], Q, R, K, S)
    dt = float(rng.choice([.01, .05]))
    up = np.abs(u)
    ref = scipy.integrate.solve_ivp(lambda t, z: _q2d(p, z, up), [0, dt], x,
                                    rtol=1e-10, atol=1e-12).y[:, -1]
    for args in ((x, up), (T(x), T(up))):
        c.close(p.next_pose(*args, dt), ref, "quadrotor2d_next_pose",
                "pose after dt", 3e-3, x=x, u=up, dt=dt)
    c.key("quadrotor2d", x, u)


@chk.section(quick=80, thorough=2000)
def sec_quadrotor3d(c, rng, i):
    p = q3d.Quadrotor(torch.float64)
    x = state(rng, 12)
    x[4] = rng.uniform(-1.3, 1.3)
    u = rng.uniform(0, 3, 4)
    if i % 3 == 0:
        p.inertia = rng.uniform(1e-2, 1., 3)
    d, Jx, Ju = both(c, p, x, u, _q3d(p, x, u), "quadrotor3d", 1e-8)
    A, B = p.dynamics_gradient(x, u)
    c.close(A, Jx, "quadrotor3d_A", "df/dx", 1e-5, x=x, u=u)
    c.close(B, Ju, "quadrotor3d_B", "df/du", 1e-5, x=x, u=u)
    xe = np.zeros(12)
    xe[:3] = rng.normal(size=3)
    xe[5] = rng.normal()
    c.close(p.dynamics(xe, np.full(4, p.hover_thrust)), np.zeros(12),
            "quadrotor3d_equilibrium", "hover")
    # energy balance: thrust along body z and torques are the only power
    E_dot = p.mass * d[6:9] @ x[6:9] + p.mass * p.gravity * x[8] + \
        (np.asarray(p.inertia) * d[9:12]) @ x[9:12]
    R = R3(x[3:6])
    tau = np.array([p.arm_length * (u[1] - u[3]),
                    p.arm_length * (u[2] - u[0]),
                    p.z_torque_to_force_factor * (u[0] - u[1] + u[2] - u[3])])
    c.close(E_dot, u.sum() * R[:, 2] @ x[6:9] + tau @ x[9:12],
            "quadrotor3d_power", "energy balance", 1e-8)
    c.key("quadrotor3d", x, u)


@chk.section(quick=50, thorough=1200)
def sec_cars(c, rng, i):
    p = unicycle.Unicycle(torch.float64)
    x, u = state(rng, 3, ang=(2, )), rng.normal(size=2) * 2
    if i % 5 == 0:
        u[1] = 0.
    d, Jx, Ju = both(c, p, x, u, _uni(p, x, u), "unicycle")
    for A, B in (p.dynamics_gradient(x, u), p.dynamics_gradient(T(x), T(u))):
        c.close(A, Jx, "unicycle_A", "df/dx", 1e-5, x=x, u=u)
        c.close(B, Ju, "unicycle_B", "df/du", 1e-5, x=x, u=u)
    dt = float(rng.choice([.01, .1, .5]))
    # closed-form circular arc
    a = u[1] * dt
    chord = u[0] * dt * np.sinc(a / 2 / np.pi)
    ref = np.array([x[0] + chord * np.cos(x[2] + a / 2),
                    x[1] + chord * np.sin(x[2] + a / 2), x[2] + a])
    for args in ((x, u), (T(x), T(u))):
        c.close(p.next_pose(*args, dt), ref, "unicycle_next_pose",
                "pose after dt", 3e-3, x=x, u=u, dt=dt)
    a = u[1] * .01
    chord = u[0] * .01 * np.sinc(a / 2 / np.pi)
    c.close(usim.robot_update_state(x, u, p),
            [x[0] + chord * np.cos(x[2] + a / 2),
             x[1] + chord * np.sin(x[2] + a / 2), x[2] + a],
            "robot_update_state", "simulation step of 0.01 s", 1e-4)
    c.key("unicycle", x, u)
    p = acar.AccelerationCar(torch.float64)
    x = state(rng, 4, ang=(2, ))
    try:
        p.dynamics(T(x), T(u))
        use_torch = True
    except RuntimeError as e:  # judged in sec_acceleration_car_torch
        use_torch = "zero-dimensional" not in str(e)
    both(c, p, x, u, _acar(p, x, u), "acceleration_car", use_torch=use_torch)
    c.close(p.dynamics(np.array([x[0], x[1], x[2], 0.]), np.zeros(2)),
            np.zeros(4), "acceleration_car_equilibrium", "rest")
    ref = scipy.integrate.solve_ivp(lambda t, z: _acar(p, z, u), [0, dt], x,
                                    rtol=1e-10, atol=1e-12).y[:3, -1]
    c.close(p.next_pose(x, u, dt), ref, "acceleration_car_next_pose",
            "pose after dt", 3e-3, x=x, u=u, dt=dt)
    c.key("acceleration_car", x, u)


@chk.section(quick=60, thorough=1500)
def sec_pole(c, rng, i):
    p = pole.Pole(*rng.uniform(.2, 2., 2), rng.uniform(.5, 2.))
    x = rng.normal(size=7)
    if i % 4 == 0:
        x[5:] = 0
    a = rng.uniform(0, 2 * np.pi)
    s = float(rng.choice([0., .05, .5, .9])) * p.length
    x[:2] = s * np.cos(a), s * np.sin(a)
    if i % 5 == 1:
        x[int(rng.integers(2))] = 0.
    u = rng.normal(size=3) * 4
    d, Jx, Ju = both(c, p, x, u, _pole_ref(p, x, u), "pole", 1e-8)
    if x[0] * x[1] * x[5] * x[6] == 0:  # not touched by the listed finding
        c.close(d, _pole(p, x, u), "pole_numpy", "dynamics", 1e-8)
    tx, tu = T(x), T(u)
    A, B = p.gradient(tx, tu)
    c.close(A, Jx, "pole_A", "df/dx", 1e-4, x=x, u=u)
    c.close(B, Ju, "pole_B", "df/du", 1e-5, x=x, u=u)
    c.require(not tx.requires_grad and not tu.requires_grad, "pole_flags",
              "requires_grad of the arguments changed")
    ue = np.array([0, 0, (p.m_sphere + p.m_ee) * p.gravity])
    c.close(p.dynamics(np.zeros(7), ue), np.zeros(7), "pole_equilibrium",
            "upright equilibrium")
    # horizontal momentum changes only by the applied force
    c.close(p.m_ee * d[2:4] + p.m_sphere * (d[2:4] + d[5:7]), u[:2],
            "pole_momentum", "horizontal momentum balance", 1e-8)
    c.key("pole", x, u, p.length)


@chk.section(quick=6, thorough=30)
def sec_acceleration_car_torch(c, rng, i):
    p = acar.AccelerationCar(torch.float64)
    x, u = state(rng, 4, ang=(2, )), rng.normal(size=2) * 2
    c.key("acceleration_car_torch", x, u)
    try:
        d = p.dynamics(T(x), T(u))
    except RuntimeError as e:
        c.require("zero-dimensional" not in str(e), "acceleration_car_torch",
                  "AccelerationCar.dynamics raises for torch input: %s" % e,
                  x=x, u=u)
        raise
    c.close(d, _acar(p, x, u), "acceleration_car_torch_value", "dynamics")


@chk.section(quick=6, thorough=30)
def sec_pole_cross_term(c, rng, i):
    """States with all of x_AB, y_AB and their rates non-zero."""
    p = pole.Pole(*rng.uniform(.2, 2., 2), rng.uniform(.5, 2.))
    x = rng.normal(size=7)
    x[:2] = rng.uniform(.2, .5, 2) * p.length * rng.choice([-1, 1], 2)
    x[5:] = rng.uniform(.5, 2., 2) * rng.choice([-1, 1], 2)
    u = rng.normal(size=3) * 4
    c.key("pole_cross_term", x, u)
    for d in (p.dynamics(x, u), N(p.dynamics(T(x), T(u)))):
        if np.max(np.abs(d - _pole(p, x, u))) > 1e-8 * (1 + np.abs(d).max()):
            c.close(d, _pole_known(p, x, u), "pole_numpy", "dynamics", 1e-8)
            c.require(False, "pole_cross_term", "the vertical force balance "
                      "has the velocity cross term with the opposite sign",
                      x=x, u=u)


if __name__ == "__main__":
    chk.main()

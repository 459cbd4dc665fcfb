"""P37: simulated data sets."""
import gc
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import pybullet as pb  # noqa: E402
import neural_network_lyapunov.pybullet_data_generation as pdg  # noqa: E402
import neural_network_lyapunov.worlds as worlds  # noqa: E402
from gen import T, N  # noqa: E402

chk = Check("P37", rule="pendulum, cart-pole and a generated three-joint arm "
            "in joint space, falling cubes in base space; random start "
            "states, steps, square image sizes, colour modes, cameras, "
            "horizons and data-set boxes, interleaved histories of requests; "
            "non-trivial: distinct (world, start, step) whose state moved",
            assumptions=["a second, independently driven pybullet client is "
                         "the reference engine"])

ARM = """<?xml version="1.0"?><robot name="arm">
<link name="base"><inertial><mass value="0"/><inertia ixx="1" ixy="0" ixz="0"
 iyy="1" iyz="0" izz="1"/></inertial></link>%s</robot>"""
LINK = """<link name="l%d"><visual><geometry><box size="0.1 0.1 0.4"/>
</geometry><origin xyz="0 0 0.2"/></visual><inertial><origin xyz="0 0 0.2"/>
<mass value="%g"/><inertia ixx="0.02" ixy="0" ixz="0" iyy="0.02" iyz="0"
 izz="0.002"/></inertial></link><joint name="j%d" type="%s"><axis xyz="0 1 0"/>
<origin xyz="0 0 %g"/><parent link="%s"/><child link="l%d"/>
<limit lower="-5" upper="5" effort="1" velocity="100"/>
<dynamics damping="0.1"/></joint>"""


def fresh():
    gc.collect()
    for k in range(16):
        try:
            if pb.isConnected(k):
                pb.disconnect(k)
        except pb.error:
            pass


class World:
    """A world, and a reference engine driven independently of the code."""
    def __init__(self, c, rng, kind=None):
        self.kind = kind or ["pendulum", "cartpole", "arm",
                             "cubes"][int(rng.integers(4))]
        self.joint = self.kind != "cubes"
        if self.kind == "arm":
            s = ""
            for k in range(3):
                s += LINK % (k, rng.uniform(.5, 2.), k, "revolute",
                             0 if k == 0 else .4,
                             "base" if k == 0 else "l%d" % (k - 1), k)
            path = os.path.join(c.scratch(), "arm.urdf")
            with open(path, "w") as f:
                f.write(ARM % s)
        else:
            path = worlds.urdf_path(self.kind + ".urdf")
        self.path = path
        self.nj = dict(pendulum=1, cartpole=2, arm=3).get(self.kind)
        self.x_dim = 2 * self.nj if self.joint else 12
        self.cb = (worlds.get_load_urdf_callback(path) if self.joint else
                   worlds.get_load_falling_cubes_callback())
        self.size = int(rng.integers(8, 40))
        self.gray = bool(rng.random() < .5)
        self.cam = dict(camera_eye_position=[0, -3, 0],
                        camera_target_position=[0, 0, 0],
                        camera_up_vector=[0, 0, 1])
        if rng.random() < .5:
            a = rng.uniform(0, 2 * np.pi)
            self.cam["camera_eye_position"] = [
                float(2 * np.cos(a)), float(2 * np.sin(a)), .5]
            self.cam["camera_target_position"] = [0, 0, .1]

    def generator(self, dtype=torch.float64):
        return pdg.PybulletSampleGenerator(
            self.cb, self.joint, image_width=self.size,
            image_height=self.size, grayscale=self.gray, dtype=dtype,
            **self.cam)

    def start(self, rng):
        if self.kind == "pendulum":
            return T([rng.uniform(0, 2 * np.pi), rng.normal()])
        if self.joint:
            return T(np.concatenate((rng.uniform(-1, 1, self.nj),
                                     rng.normal(size=self.nj))))
        x = np.concatenate((rng.uniform(-.3, .3, 2), rng.uniform(.3, 2., 1),
                            rng.uniform(-1., 1., 3), rng.normal(size=6)))
        if rng.random() < .4:
            x[2] = rng.uniform(.06, .3)
        return T(x)

    def reference(self):
        cid = pb.connect(pb.DIRECT)
        pb.setGravity(0, 0, -9.8, physicsClientId=cid)
        pb.setTimeStep(1. / 240., physicsClientId=cid)
        pb.setPhysicsEngineParameter(enableFileCaching=0, physicsClientId=cid)
        kw = dict(physicsClientId=cid)
        if self.joint:
            rid = pb.loadURDF(self.path, flags=pb.URDF_USE_SELF_COLLISION,
                              **kw)
            for k in range(self.nj):
                pb.setJointMotorControl2(rid, k, pb.VELOCITY_CONTROL, force=0,
                                         **kw)
        else:
            o = pb.getQuaternionFromEuler([0, 0, 0])
            pb.loadURDF(worlds.urdf_path("plane_white.urdf"), **kw)
            rid = pb.loadURDF(worlds.urdf_path("cube_blue.urdf"),
                              [0, 0, .25], o, **kw)
            for x in (.03, -.065):
                pb.loadURDF(worlds.urdf_path("cube_red.urdf"), [x, 0, .025],
                            o, **kw)
        for _ in range(120):
            pb.stepSimulation(**kw)
        self.cid, self.rid = cid, rid
        self.snap = pb.saveState(**kw)

    def same_state(self, c, got, want, *what, **kw):
        """Contacts remember the engine's past: single-precision noise that
        collisions amplify."""
        free = self.kind in ("pendulum", "cartpole")
        c.close(got, want, *what, tol=1e-7 if free else 1e-2, **kw)

    def same_frame(self, c, got, want, what, *more, **kw):
        got, want = np.asarray(N(got)), np.asarray(want)
        if self.kind in ("pendulum", "cartpole") or got.shape != want.shape:
            c.close(got, want, what, *more, tol=1e-3, **kw)
            return
        off = (np.abs(got - want) > 1e-2).mean()
        c.require(off < .02, what, " ".join(("pixels differ", ) + more),
                  fraction=off, **kw)

    def image(self):
        v = pb.computeViewMatrix(
            cameraEyePosition=self.cam["camera_eye_position"],
            cameraTargetPosition=self.cam["camera_target_position"],
            cameraUpVector=self.cam["camera_up_vector"])
        p = pb.computeProjectionMatrixFOV(fov=45., aspect=1., nearVal=.1,
                                          farVal=3.1)
        rgb = pb.getCameraImage(self.size, self.size, v, p,
                                physicsClientId=self.cid)[2]
        rgb = np.reshape(rgb, (self.size, self.size, 4))[:, :, :3]
        rgb = rgb.transpose(2, 0, 1).astype(float) / 255.
        if self.gray:
            rgb = np.tensordot([.2989, .5870, .1140], rgb, 1)[None]
        return rgb.clip(0, 1)

    def simulate(self, x0, half):
        kw = dict(physicsClientId=self.cid)
        x0 = N(x0)
        pb.restoreState(self.snap, **kw)
        if self.joint:
            for k in range(self.nj):
                pb.resetJointState(self.rid, k, x0[k], x0[self.nj + k], **kw)
        else:
            pb.resetBasePositionAndOrientation(
                self.rid, x0[:3].tolist(),
                pb.getQuaternionFromEuler(x0[3:6].tolist()), **kw)
            pb.resetBaseVelocity(self.rid, x0[6:9].tolist(),
                                 x0[9:12].tolist(), **kw)
        im = [self.image()]
        for _ in range(2):
            for _ in range(half):
                pb.stepSimulation(**kw)
            im.append(self.image())
        if self.joint:
            s = [pb.getJointState(self.rid, k, **kw) for k in range(self.nj)]
            x = np.array([v[0] for v in s] + [v[1] for v in s])
        else:
            p, q = pb.getBasePositionAndOrientation(self.rid, **kw)
            v, w = pb.getBaseVelocity(self.rid, **kw)
            x = np.concatenate((p, pb.getEulerFromQuaternion(q), v, w))
        return x, im


def dt_of(half):
    return half / 120. + 1e-4  # away from the truncation boundary


def judge_sample(c, w, x0, half, out, what):
    x1, X, Xn = out
    ref, im = w.simulate(x0, half)
    nc = 1 if w.gray else 3
    c.require(tuple(x1.shape) == (w.x_dim, ), "state_shape", what,
              shape=tuple(x1.shape))
    w.same_state(c, N(x1), ref, "next_state", what + " " + w.kind,
                 x0=x0, half=half)
    c.require(tuple(X.shape) == (2 * nc, w.size, w.size) and
              tuple(Xn.shape) == (nc, w.size, w.size), "image_shape", what)
    for a, n in ((X, "images"), (Xn, "next image")):
        c.require(bool(((a >= 0) & (a <= 1)).all()), "image_range", n)
    c.close(N(X[:nc]), im[0], "frame_at_start", what, tol=1e-3)
    w.same_frame(c, X[nc:], im[1], "frame_at_half_step", what)
    w.same_frame(c, Xn, im[2], "frame_at_end", what)
    c.ev("frames_compared", 3)
    if np.abs(ref - N(x0)).max() > 1e-6:
        c.key(w.kind, x0, half, w.size, w.gray)
    return ref


@chk.section(quick=200, thorough=500)
def sample(c, rng, i):
    fresh()
    w = World(c, rng, ["pendulum", "cartpole", "arm", "cubes"][i % 4])
    dtype = [torch.float64, torch.float64, torch.float32][int(rng.integers(3))]
    g = w.generator(dtype)
    c.require(g.x_dim == w.x_dim, "state_dimension", w.kind)
    w.reference()
    try:
        first = None
        for k in range(4):
            x0 = w.start(rng)
            half = int(rng.integers(1, 15))
            if w.kind in ("pendulum", "cartpole") and rng.random() < .2:
                half = int(rng.integers(15, 130))  # no contacts
            keep = x0.clone()
            out = g.generate_sample(x0, dt_of(half))
            c.require(torch.equal(x0, keep), "start_modified")
            for o in out:
                c.require(o.dtype == dtype, "dtype")
            if dtype == torch.float64:
                judge_sample(c, w, x0, half, out, "sample %d" % k)
            else:
                ref, _ = w.simulate(x0, half)
                c.close(N(out[0]), ref, "next_state", tol=1e-2 if w.kind in
                        ("arm", "cubes") else 1e-5)
            if first is None:
                first = (x0, half, out)
        again = g.generate_sample(first[0], dt_of(first[1]))
        for a, b in zip(again, first[2]):
            # contacts remember the engine's past at rounding level
            (w.same_frame if N(a).ndim > 1 else w.same_state)(
                c, N(a), N(b), "history_independence", w.kind)
        c.note(world=w.kind, size=w.size, gray=w.gray, x0=x0, half=half)
    finally:
        pb.disconnect(w.cid)
        del g


@chk.section(quick=120, thorough=240)
def rollout(c, rng, i):
    fresh()
    w = World(c, rng)
    g = w.generator()
    w.reference()
    try:
        nc = 1 if w.gray else 3
        n = int(rng.integers(1, 6))
        half = int(rng.integers(1, 9))
        x0 = w.start(rng)
        if rng.random() < .5:  # unrelated request before
            g.generate_sample(w.start(rng), dt_of(3))
        x, X = g.generate_rollout(x0, dt_of(half), n)
        c.require(tuple(x.shape) == (n + 1, w.x_dim), "rollout_states",
                  shape=tuple(x.shape))
        c.require(tuple(X.shape) == (n + 2, nc, w.size, w.size),
                  "rollout_images", shape=tuple(X.shape))
        c.close(N(x[0]), N(x0), "rollout_start", tol=0)
        for k in range(n):
            ref, im = w.simulate(x[k], half)
            w.same_state(c, N(x[k + 1]), ref, "rollout_step", w.kind, k=k)
            w.same_frame(c, X[k + 2], im[2], "rollout_frame", k=k)
            if k == 0:
                c.close(N(X[0]), im[0], "rollout_frame", "start", tol=1e-3)
                w.same_frame(c, X[1], im[1], "rollout_frame", "half")
        s = g.generate_sample(x0, dt_of(half))
        w.same_state(c, N(s[0]), N(x[1]), "one_step_equals_sample")
        xs, Xs = g.data_to_rollouts(torch.stack((x0, x[n])), dt_of(half), n)
        c.require(len(xs) == 2 and len(Xs) == 2, "rollout_list")
        c.require(xs[0].shape == x.shape and Xs[0].shape == X.shape,
                  "rollout_list", "shapes")
        c.close(N(xs[0][0]), N(x0), "rollout_list", "first start", tol=0)
        for k in range(n):
            ref, im = w.simulate(xs[0][k], half)
            w.same_state(c, N(xs[0][k + 1]), ref, "rollout_list", w.kind, k=k)
            w.same_frame(c, Xs[0][k + 2], im[2], "rollout_list", k=k)
        c.close(N(xs[1][0]), N(x[n]), "rollout_list", "second start", tol=0)
        w.same_state(c, N(xs[1][1]), w.simulate(x[n], half)[0],
                     "rollout_list")
        c.key(w.kind, x0, n, half)
        c.note(world=w.kind, n=n, half=half, x0=x0)
    finally:
        pb.disconnect(w.cid)
        del g


@chk.section(quick=120, thorough=240)
def dataset(c, rng, i):
    fresh()
    w = World(c, rng)
    g = w.generator()
    w.reference()
    try:
        nc = 1 if w.gray else 3
        n, m = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        half = int(rng.integers(1, 7))
        a, b = N(w.start(rng)), N(w.start(rng))
        lo, up = np.minimum(a, b), np.maximum(a, b)
        fix = rng.random(w.x_dim) < .2
        up = np.where(fix, lo, up)
        normal = rng.random() < .5
        kw = {}
        if normal:
            kw = dict(x_mean=T((lo + up) / 2), x_std=T((up - lo) * .8))
        x, xn, X, Xn = g.generate_dataset(T(lo), T(up), dt_of(half), n, m,
                                          **kw)
        c.require(tuple(x.shape) == (n * m, w.x_dim) == tuple(xn.shape),
                  "dataset_size", shape=tuple(x.shape))
        c.require(tuple(X.shape) == (n * m, 2 * nc, w.size, w.size) and
                  tuple(Xn.shape) == (n * m, nc, w.size, w.size),
                  "dataset_image_shape")
        x, xn, X, Xn = N(x), N(xn), N(X), N(Xn)
        for k in range(n * m):
            ref, im = w.simulate(x[k], half)
            w.same_state(c, xn[k], ref, "dataset_transition", w.kind, k=k)
            w.same_frame(c, Xn[k], im[2], "dataset_next_frame")
            if k % n == 0:
                c.require(np.all(x[k] >= lo - 1e-6) and
                          np.all(x[k] <= up + 1e-6), "start_in_box",
                          x=x[k], lo=lo, up=up)
                c.close(X[k][:nc], im[0], "dataset_frame", "start", tol=1e-3)
                w.same_frame(c, X[k][nc:], im[1], "dataset_frame", "half")
            else:
                c.close(x[k], xn[k - 1], "rollout_chain", tol=0)
                c.close(X[k][:nc], X[k - 1][nc:], "frame_chain", tol=0)
                c.close(X[k][nc:], Xn[k - 1], "frame_chain", tol=0)
        st = x[::n]
        if m > 1 and np.any((up - lo > 1e-3)) and not normal:
            c.require(len({tuple(s) for s in st}) == m, "distinct_starts")
        c.key(w.kind, lo, up, n, m, normal)
        c.note(world=w.kind, n=n, rollouts=m, normal=normal)
    finally:
        pb.disconnect(w.cid)
        del g


@chk.section(quick=10, thorough=6)
def start_distribution(c, rng, i):
    """Starts cover the requested box / follow the requested normal law."""
    fresh()
    w = World(c, rng, "pendulum")
    w.size = 8
    g = w.generator()
    try:
        lo, up = np.array([.5, -2.]), np.array([2.5, 1.])
        m = 120
        if i % 2 == 0:
            x = N(g.generate_dataset(T(lo), T(up), dt_of(1), 1, m)[0])
            u = (x - lo) / (up - lo)
            for k in range(2):
                h = np.histogram(u[:, k], bins=4, range=(0, 1))[0]
                c.require(h.min() >= 8 and h.sum() == m, "uniform_cover",
                          hist=h)
        else:
            mu, sd = np.array([1.5, -.5]), np.array([.1, .2])
            x = N(g.generate_dataset(T(lo), T(up), dt_of(1), 1, m,
                                     x_mean=T(mu), x_std=T(sd))[0])
            c.require(np.all(np.abs(x.mean(0) - mu) < 5 * sd / m**.5),
                      "normal_mean", mean=x.mean(0))
            c.require(np.all(np.abs(x.std(0) / sd - 1) < .35), "normal_std",
                      std=x.std(0))
        c.require(abs(np.corrcoef(x.T)[0, 1]) < .5, "independent_coordinates")
        c.key("dist", i)
        c.note(starts=m)
    finally:
        del g


@chk.section(quick=30, thorough=30, floor=0.)
def nonsquare_images(c, rng, i):
    fresh()
    w = World(c, rng, "pendulum")
    wd, ht = 12, 20
    g = pdg.PybulletSampleGenerator(w.cb, True, image_width=wd,
                                    image_height=ht, grayscale=w.gray)
    c.key("nonsquare", i)
    try:
        try:
            x, X, Xn = g.generate_sample(w.start(rng), .1)
            shape = tuple(X.shape[1:])
        except ValueError as e:
            shape = str(e)
        c.require(shape == (wd, ht), "nonsquare_image",
                  "images of declared width 12 and height 20", got=shape)
    finally:
        del g


@chk.section(quick=300, thorough=600)
def loader_and_noise(c, rng, i):
    n = int(rng.integers(1, 30))
    bs = int(rng.integers(1, 12))
    shape = [(3, ), (2, 4, 4)][i % 2]
    x = torch.randn((n, ) + shape, dtype=torch.float64)
    y = torch.randn((n, 2), dtype=torch.float64)
    dl = pdg.get_dataloader(x, y, bs)
    for epoch in range(2):
        seen = []
        for a, b in dl:
            c.require(0 < len(a) <= bs and len(a) == len(b), "batch_size")
            for u, v in zip(a, b):
                k = [j for j in range(n) if torch.equal(x[j], u)]
                c.require(len(k) == 1 and torch.equal(y[k[0]], v),
                          "pairing")
                seen.append(k[0])
        c.require(sorted(seen) == list(range(n)), "exactly_once",
                  seen=sorted(seen))
        c.ev("samples_delivered", n)
    keep = x.clone()
    z = pdg.add_noise(x, torch.zeros(shape, dtype=torch.float64))
    c.require(torch.equal(z, keep), "zero_noise")
    z = pdg.add_noise(x, .1 * torch.ones(shape, dtype=torch.float64))
    c.require(torch.equal(x, keep), "noise_modifies_data")
    c.require(z.shape == x.shape and z.dtype == x.dtype, "noise_shape")
    big = torch.cat([T(rng.normal(size=(1, 3)) * [1., 5., .2] + [1, 0, 3])
                     for _ in range(1)] * 1)
    big = T(rng.normal(size=(3000, 3)) * [1., 5., .2] + [1., 0., 3.])
    lvl = np.array([.1, .02, 0.])
    d = N(pdg.add_noise(big, T(lvl)) - big)
    want = lvl * np.abs(N(big)).mean(0)
    c.require(np.all(np.abs(d.std(0) - want) <= .1 * want + 1e-12),
              "noise_level", got=d.std(0), want=want)
    c.require(np.all(np.abs(d.mean(0)) <= 6 * want / 3000**.5 + 1e-12),
              "noise_mean")
    c.key(n, bs, shape, i)
    c.note(n=n, batch=bs)


@chk.section(quick=15, thorough=3)
def world_callbacks(c, rng, i):
    fresh()
    cid = pb.connect(pb.DIRECT)
    try:
        c.key("world", i)
        if i == 0:
            p = worlds.urdf_path("pendulum.urdf")
            c.require(os.path.isfile(p), "urdf_path", p)
            rid = worlds.get_load_urdf_callback(p)(pb)
            c.require(pb.getNumBodies() == 1 and
                      pb.getBodyInfo(rid)[1] == b"pendulum", "robot_id")
            return
        if i == 1:
            rid = worlds.get_load_falling_cubes_callback()(pb)
            want = sorted([(0., 0., .25), (.03, 0., .025), (-.065, 0., .025)])
            table, movable = (0, 0, .25), 3
        else:
            rid = worlds.get_load_cluttered_table_callback()(pb)
            table, movable = (1, 1, .875), None
        pos, orn = pb.getBasePositionAndOrientation(rid)
        c.close(pos, table, "tracked_body", "pose of the returned body",
                tol=1e-6)
        c.close(orn, (0, 0, 0, 1), "tracked_body", tol=1e-6)
        dyn = [k for k in range(pb.getNumBodies())
               if pb.getDynamicsInfo(k, -1)[0] > 0]
        c.require(rid in dyn, "tracked_body_moves")
        if movable:
            got = sorted(tuple(np.round(
                pb.getBasePositionAndOrientation(k)[0], 6)) for k in dyn)
            c.close(got, want, "cube_layout", tol=1e-6)
        else:
            c.require(pb.getNumBodies() == 5, "body_count",
                      n=pb.getNumBodies())
    finally:
        pb.disconnect(cid)


if __name__ == "__main__":
    chk.main()

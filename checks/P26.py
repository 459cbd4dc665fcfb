"""P26: roll-pitch-yaw conversions."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import neural_network_lyapunov.geometry_transform as gt  # noqa: E402
from gen import T, N  # noqa: E402

chk = Check("P26", rule="angle triples: uniform, multiples of pi/4 (gimbal "
            "lock), zeros in any position, large multiples of 2 pi, tiny; "
            "numpy and torch (float64/float32), with and without gradient; "
            "non-trivial: distinct triples with a non-identity rotation",
            assumptions=["double/float arithmetic"])


def ref(r, p, y):
    """Rodrigues' formula about the fixed axes, complex-step safe."""
    def rod(axis, a):
        K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]],
                      [-axis[1], axis[0], 0]])
        return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * (K @ K)

    e = np.eye(3)
    return rod(e[2], y) @ rod(e[1], p) @ rod(e[0], r)


def angles(rng):
    k = int(rng.integers(6))
    if k == 0:
        return rng.uniform(-np.pi, np.pi, 3)
    if k == 1:
        return rng.integers(-8, 9, 3) * np.pi / 4
    if k == 2:
        return rng.uniform(-np.pi, np.pi, 3) * (rng.random(3) < .5)
    if k == 3:
        return rng.uniform(-50, 50, 3)
    if k == 4:
        return rng.normal(size=3) * 1e-7
    a = rng.uniform(-np.pi, np.pi, 3)
    a[1] = rng.choice([-1, 1]) * np.pi / 2 + rng.choice([0, 1e-9])
    return a


@chk.section(quick=6000, thorough=200000)
def rotation(c, rng, i):
    a = angles(rng)
    R = ref(*a)
    dR = [np.imag(ref(*(a + 1e-30j * np.eye(3)[k]))) / 1e-30
          for k in range(3)]
    keep = a.copy()
    if np.abs(a).max() > 0:
        c.key(a)
    c.note(rpy=a)
    for name, inp, tol in (("numpy", a.copy(), 1e-11), ("torch", T(a), 1e-11),
                           ("torch32", torch.tensor(a, dtype=torch.float32),
                            2e-5)):
        out = gt.rpy2rotmat(inp)
        c.require(isinstance(out, np.ndarray if name == "numpy" else
                             torch.Tensor), "type", name)
        if name != "numpy":
            c.require(out.dtype == inp.dtype, "dtype", name)
        o = N(out)
        c.close(o, R, "rotation", name, tol=tol, rpy=a)
        c.close(o @ o.T, np.eye(3), "orthogonal", name, tol=tol)
        c.close(np.linalg.det(o), 1., "determinant", name, tol=tol)
        g = gt.rpy2rotmat_gradient(inp)
        c.require(len(g) == 3, "gradient_count")
        for k in range(3):
            c.close(N(g[k]), dR[k], "gradient",
                    name + " wrt angle %d" % k, tol=tol, rpy=a)
        c.close(N(inp), keep if name != "torch32" else
                keep.astype(np.float32), "input_modified", tol=0)
        c.ev("matrices_checked", 4)
    # autodiff flows through the torch version
    t = T(a).requires_grad_(True)
    W = rng.normal(size=(3, 3))
    (gt.rpy2rotmat(t) * T(W)).sum().backward()
    c.close(N(t.grad), np.array([(W * dR[k]).sum() for k in range(3)]),
            "autograd", tol=1e-10, rpy=a)
    # second derivative: the gradient function is differentiable too
    t = T(a).requires_grad_(True)
    k = int(rng.integers(3))
    (gt.rpy2rotmat_gradient(t)[k] * T(W)).sum().backward()
    h = 1e-5
    fd = np.array([((np.imag(ref(*(a + h * np.eye(3)[j] + 1e-30j *
                                   np.eye(3)[k]))) -
                     np.imag(ref(*(a - h * np.eye(3)[j] + 1e-30j *
                                   np.eye(3)[k])))) / 1e-30 / (2 * h) * W
                    ).sum() for j in range(3)])
    c.close(N(t.grad), fd, "autograd_of_gradient", tol=1e-6, rpy=a)


if __name__ == "__main__":
    chk.main()

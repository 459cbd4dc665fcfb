"""P31: samplers and geometric helpers."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip  # noqa: E402
import numpy as np  # noqa: E402
import scipy.optimize  # noqa: E402
import torch  # noqa: E402
import cvxpy_redirect  # noqa: E402,F401
from gen import T, N, box  # noqa: E402
import neural_network_lyapunov.utils as utils  # noqa: E402
cvxpy_redirect.install()

chk = Check(
    "P31", "non-trivial: a sampled box/dtype/count, a hostile random stream, "
    "a grid, a polyhedron and point, or a pair of point sets",
    ["coverage of a face or cell is judged with margins whose false-alarm "
     "probability is below 1e-9 per case"])

DT = [torch.float64, torch.float32]


class Rand:
    """Replaces torch.rand by a stream of extreme values in [0, 1)."""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.calls = 0

    def __enter__(self):
        self.real = torch.rand
        torch.rand = self
        return self

    def __exit__(self, *a):
        torch.rand = self.real

    def __call__(self, *size, dtype=None, **kw):
        self.calls += 1
        dtype = dtype or torch.get_default_dtype()
        r = self.real(*size, dtype=dtype)
        top = float(np.nextafter(np.float32(1), np.float32(0))) \
            if dtype == torch.float32 else float(np.nextafter(1., 0.))
        if self.mode == "zero":
            return torch.zeros_like(r)
        if self.mode == "top":
            return torch.full_like(r, top)
        if self.mode == "half":
            return torch.full_like(r, .5)
        pool = torch.tensor([0., top, .5, .25, .75], dtype=dtype)
        k = torch.from_numpy(self.rng.integers(5, size=tuple(r.shape)))
        return pool[k]


def in_box(c, S, lo, up, mech, **d):
    s = 1e-6 if S.dtype == torch.float32 else 1e-12
    w = 1. + np.maximum(np.abs(lo), np.abs(up))
    Sn = N(S)
    ok = np.all(Sn >= lo - s * w) and np.all(Sn <= up + s * w)
    c.require(ok, mech, "sample outside the box", lo=lo, up=up, **d)


def on_face(S, lo, up):
    """(n, d) sign matrix: -1 on the lower, +1 on the upper face."""
    s = 1e-5 if S.dtype == torch.float32 else 1e-10
    w = 1. + np.maximum(np.abs(lo), np.abs(up))
    Sn = N(S)
    return np.abs(Sn - lo) <= s * w, np.abs(Sn - up) <= s * w


@chk.section(quick=320, thorough=3000)
def sample_box(c, rng, i):
    n = int(rng.integers(1, 7))
    lo, up = box(rng, n)
    dt = DT[i % 2]
    num = [0, 1, 2, 700][int(rng.integers(4))] if i % 3 else 800
    lt, ut = T(lo).to(dt), T(up).to(dt)
    l0, u0 = lt.clone(), ut.clone()
    S = utils.uniform_sample_in_box(lt, ut, num)
    c.require(tuple(S.shape) == (num, n), "count", "shape", got=S.shape,
              num=num, n=n)
    c.require(S.dtype == dt, "dtype", "dtype", got=S.dtype, want=dt)
    c.require(torch.equal(lt, l0) and torch.equal(ut, u0), "aliasing",
              "the bounds were modified")
    in_box(c, S, lo, up, "in_box")
    if num >= 700:
        # every eighth of every side and every orthant of the box is reached
        w = np.where(up > lo, up - lo, 1.)
        U = (N(S) - lo) / w
        for k in range(n):
            if up[k] <= lo[k]:
                continue
            h = np.histogram(U[:, k], bins=8, range=(0, 1 + 1e-6))[0]
            # binomial(num, 1/8): far outside 7 sigma
            sg = np.sqrt(num / 8. * 7 / 8)
            c.require(np.all(np.abs(h - num / 8.) < 7.5 * sg), "uniform",
                      "a part of the box is not covered uniformly", hist=h,
                      coordinate=k)
            for j in range(k):
                if up[j] > lo[j]:
                    r = np.corrcoef(U[:, k], U[:, j])[0, 1]
                    c.require(abs(r) < 7.5 / np.sqrt(num), "independent",
                              "coordinates are correlated", r=r, j=j, k=k)
    c.ev("samples", num)
    c.key("box", lo, up, num, dt)
    c.note(n=n, num=num, dtype=str(dt))


@chk.section(quick=240, thorough=2500)
def sample_boundary(c, rng, i):
    n = int(rng.integers(1, 7))
    lo, up = box(rng, n, kind=[0, 1, 2, 4, 5][int(rng.integers(5))])
    dt = DT[i % 2]
    num = [0, 1, 3][int(rng.integers(3))] if i % 3 == 0 else 200 * n
    S = utils.uniform_sample_on_box_boundary(T(lo).to(dt), T(up).to(dt), num)
    c.require(tuple(S.shape) == (num, n), "count", "shape", got=S.shape,
              num=num, n=n)
    c.require(S.dtype == dt, "dtype", "dtype", got=S.dtype, want=dt)
    in_box(c, S, lo, up, "boundary_in_box")
    fl, fu = on_face(S, lo, up)
    c.require(np.all(np.any(fl | fu, axis=1)), "on_face",
              "a sample is in no face of the box", lo=lo, up=up)
    if num >= 200:
        p = 1. / (2 * n)
        sg = np.sqrt(num * p * (1 - p))
        for k in range(n):
            for nm, h in (("lower", fl[:, k].sum()), ("upper",
                                                      fu[:, k].sum())):
                c.require(h > 0 and abs(h - num * p) < 8 * sg + 1,
                          "faces_covered", "a face is not sampled uniformly",
                          face=nm, coordinate=k, hits=h, expected=num * p)
                c.ev("face hits", int(h))
            # within the other faces coordinate k covers its side
            rest = ~(fl[:, k] | fu[:, k])
            m = int(rest.sum())
            if n > 1 and m > 100:
                U = (N(S)[rest, k] - lo[k]) / (up[k] - lo[k])
                h = np.histogram(U, bins=4, range=(0, 1))[0]
                c.require(np.all(np.abs(h - m / 4.) < 7.5 *
                                 np.sqrt(m * 3. / 16) + 1), "face_uniform",
                          "part of a face is not covered", hist=h,
                          coordinate=k)
    c.key("boundary", lo, up, num, dt)
    c.note(n=n, num=num, dtype=str(dt))


@chk.section(quick=240, thorough=2000)
def hostile_random(c, rng, i):
    """Random streams with the extreme values the generator may produce."""
    n = int(rng.integers(1, 6))
    lo, up = box(rng, n)
    dt = DT[i % 2]
    num = int(rng.integers(1, 12))
    mode = ["zero", "top", "half", "mix", "mix"][int(rng.integers(5))]
    with Rand(rng, mode) as r:
        S = utils.uniform_sample_in_box(T(lo).to(dt), T(up).to(dt), num)
        B = utils.uniform_sample_on_box_boundary(T(lo).to(dt), T(up).to(dt),
                                                 num)
    for X, mech in ((S, "in_box"), (B, "boundary_in_box")):
        c.require(tuple(X.shape) == (num, n) and X.dtype == dt, "count",
                  "shape/dtype", got=X.shape)
        in_box(c, X, lo, up, mech, mode=mode)
    fl, fu = on_face(B, lo, up)
    c.require(np.all(np.any(fl | fu, axis=1)), "on_face",
              "a sample is in no face of the box", lo=lo, up=up, mode=mode)
    c.ev("random draws intercepted", r.calls)
    c.key("hostile", lo, up, mode, num)


@chk.section(quick=300, thorough=2500)
def meshgrid(c, rng, i):
    n = int(rng.integers(1, 5))
    lo, up = box(rng, n)
    size = tuple(int(v) for v in rng.integers(1, 5, size=n))
    dt = DT[i % 2]
    form = i % 3
    a = [lo, T(lo).to(dt), list(lo)][form]
    b = [up, T(up).to(dt), list(up)][form]
    S = utils.get_meshgrid_samples(a, b, size, dt)
    c.require(tuple(S.shape) == (int(np.prod(size)), n), "grid_count",
              "shape", got=S.shape, size=size)
    c.require(S.dtype == dt, "dtype", "dtype", got=S.dtype)
    axes = [np.linspace(lo[k], up[k], size[k]) for k in range(n)]
    want = np.array([[axes[k][idx[k]] for k in range(n)]
                     for idx in np.ndindex(*size)])
    tol = 1e-6 if dt == torch.float32 else 1e-12

    def order(X):
        return X[np.lexsort(np.round(X, 4).T[::-1])]
    c.close(order(N(S)), order(want), "grid", "grid points", tol=tol, lo=lo,
            up=up, size=size)
    c.ev("grid points", len(want))
    c.key("mesh", lo, up, size)
    c.note(size=size)


def polyhedron(rng, n):
    """A non-empty polyhedron A y <= b with a known interior-ish point."""
    m = int(rng.integers(1, 2 * n + 4))
    A = rng.normal(size=(m, n))
    if rng.random() < .4:
        A = rng.integers(-2, 3, size=(m, n)).astype(float)
        A[np.all(A == 0, axis=1)] = 1.
    p = rng.normal(size=n)
    b = A @ p + rng.random(m) * (rng.random(m) < .8)
    if rng.random() < .3:
        A = np.vstack((A, np.eye(n), -np.eye(n)))
        b = np.concatenate((b, p + 1, 1 - p))
    return A, b, p


@chk.section(quick=500, thorough=4000)
def projection(c, rng, i):
    n = int(rng.integers(1, 5))
    A, b, p = polyhedron(rng, n)
    kind = i % 4
    if kind == 0:
        x = p.copy()
    elif kind == 1:
        x = p + rng.normal(size=n) * .2
    else:
        x = p + rng.normal(size=n) * [1., 5.][kind % 2]
    xt = T(x)
    x0 = xt.clone()
    y = utils.project_to_polyhedron(T(A), T(b), xt)
    c.require(torch.equal(xt, x0), "aliasing", "x was modified")
    c.require(tuple(y.shape) == (n, ) and y.dtype == xt.dtype, "count",
              "shape/dtype", got=y.shape)
    y = N(y)
    gap = float(np.min(b - A @ x))
    if gap > -1e-9:
        tol = 1e-12 if gap > 1e-9 else 1e-4  # on the boundary: rounding
        c.close(y, x, "projection_inside", "a contained point moves",
                tol=tol, A=A, bvec=b)
        c.key("proj-in", A, x)
        return
    rt = 1e-5 * (1 + np.abs(b).max() + np.abs(x).max())
    c.require(np.all(A @ y <= b + rt), "projection_feasible",
              "the projection is outside the polyhedron", A=A, bvec=b, x=x,
              y=y)
    # variational inequality (x - y)'(z - y) <= 0 for feasible z
    d = x - y
    r = scipy.optimize.linprog(-d, A_ub=A, b_ub=b, bounds=(None, None))
    if r.status == 0:
        gap = float(d @ (r.x - y))
        c.require(gap <= 1e-4 * (1 + np.linalg.norm(d)**2 +
                                 np.abs(r.x).max()), "projection_nearest",
                  "a feasible point is nearer", gap=gap, A=A, bvec=b, x=x,
                  y=y)
    elif r.status == 3:
        # unbounded along d is a descent direction, unless d is nearly 0
        c.require(np.linalg.norm(d) < 1e-3, "projection_nearest",
                  "unbounded descent direction", A=A, bvec=b, x=x, y=y)
    # nearer than the known feasible point
    c.require(np.linalg.norm(d) <= np.linalg.norm(x - p) + 1e-5,
              "projection_nearest", "the known point is nearer", A=A, bvec=b,
              x=x, y=y, p=p)
    c.ev("projections of outside points")
    c.key("proj", A, x)
    c.note(n=n, distance=float(np.linalg.norm(d)))


@chk.section(quick=300, thorough=2500)
def boundedness(c, rng, i):
    n = int(rng.integers(1, 5))
    kind = i % 4
    if kind == 0:
        m = int(rng.integers(1, 2 * n + 4))
        P = rng.normal(size=(m, n))
    elif kind == 1:  # bounded: simplex / box mapped by an invertible matrix
        M = rng.normal(size=(n, n)) + 2 * np.eye(n)
        base = (np.vstack((np.eye(n), -np.ones((1, n))))
                if rng.random() < .5 else np.vstack((np.eye(n), -np.eye(n))))
        P = base @ M
        P = P[rng.permutation(len(P))]
    elif kind == 2:  # box with one facet missing
        P = np.vstack((np.eye(n), -np.eye(n)))
        P = np.delete(P, int(rng.integers(2 * n)), axis=0)
        M = np.round(rng.normal(size=(n, n)), 1) + 3 * np.eye(n)
        P = P @ M
    else:  # a whole line is feasible
        P = rng.normal(size=(int(rng.integers(1, 6)), n))
        v = rng.normal(size=n)
        v /= np.linalg.norm(v)
        P = P - (P @ v)[:, None] * v
    got = utils.is_polyhedron_bounded(T(P))
    # reference: the recession cone {P x <= 0} is {0}: maximize |x_i| in it
    m = 0.
    for k in range(n):
        for s in (1., -1.):
            e = np.zeros(n)
            e[k] = -s
            r = scipy.optimize.linprog(e, A_ub=P, b_ub=np.zeros(len(P)),
                                       bounds=(-1, 1))
            if r.status != 0:
                raise Skip("reference LP")
            m = max(m, -r.fun)
    if 1e-7 < m < 1 - 1e-6:
        raise Skip("the recession cone is numerically ambiguous")
    if m <= 1e-7:
        # margin: 0 in the interior of conv(rows)
        r = scipy.optimize.linprog(
            np.zeros(len(P)), A_eq=P.T, b_eq=np.zeros(n),
            bounds=(1e-4, 1.))
        if r.status != 0 or np.linalg.matrix_rank(P, tol=1e-3) < n:
            raise Skip("nearly unbounded")
    if kind == 3:
        m = 1.
    c.require(bool(got) == (m <= 1e-7), "bounded",
              "boundedness of {P x <= q}", got=got, P=P, recession=m)
    c.ev("bounded" if m <= 1e-7 else "unbounded")
    c.key("bounded", P)


@chk.section(quick=240, thorough=2000)
def minkowski(c, rng, i):
    nd = int(rng.integers(1, 4))
    tail = tuple(int(v) for v in rng.integers(1, 4, size=nd - 1))
    nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    x, y = rng.normal(size=(nx, ) + tail), rng.normal(size=(ny, ) + tail)
    xt, yt = T(x).requires_grad_(), T(y).requires_grad_()
    s = utils.minkowski_sum(xt, yt)
    want = np.array([x[a] + y[b] for a in range(nx) for b in range(ny)])
    c.close(s, want, "minkowski", "pairwise sums", tol=1e-12, nx=nx, ny=ny)
    s.sum().backward()
    c.close(xt.grad, np.full(x.shape, float(ny)), "minkowski_gradient",
            "gradient with respect to x", tol=1e-12)
    c.close(yt.grad, np.full(y.shape, float(nx)), "minkowski_gradient",
            "gradient with respect to y", tol=1e-12)
    c.ev("sums", nx * ny)
    c.key("mink", x, y)
    c.note(nx=nx, ny=ny, tail=tail)


if __name__ == "__main__":
    chk.main()

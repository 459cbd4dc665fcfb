"""P29: the hybrid linear approximation of the pendulum is its linearization."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, Skip, np  # noqa: E402
import slipgen  # noqa: E402
import neural_network_lyapunov.slip_hybrid_linear_system as sh  # noqa: E402
import neural_network_lyapunov.spring_loaded_inverted_pendulum as sl  # noqa

chk = Check("P29", rule="pendulums as in P28, apex states and leg angles "
            "inside and outside the domain of the step, stones bounded, half "
            "bounded and unbounded at any height, reachable or not; "
            "non-trivial: distinct linearizations judged",
            assumptions=["reference: the independent pendulum of P28, "
                         "differentiated by central differences whose two "
                         "step sizes agree to 1e-4",
                         "polyhedra are compared as sets of half-spaces "
                         "(order and positive scale of the rows are free)"])


@chk.section(quick=400, thorough=6000, floor=.5)
def linearization(c, rng, i):
    p = slipgen.pendulum(rng)
    S = sh.SlipHybridLinearSystem(p.m, p.l0, p.k, p.g)
    h = float(rng.normal() * .5)
    x, th = slipgen.apex_state(rng, p, hard=i % 5 == 0)
    r = p.apex_map(x, th)
    if r.grazing:
        raise Skip("grazing")
    w = np.array([x[0], x[1] + h, x[2]])  # height above ground zero
    le, ri = -np.inf, np.inf
    gap = x[1] - p.l0 * np.cos(th)
    foot = None
    if gap >= 0:
        foot = x[0] + x[2] * np.sqrt(2 * gap / p.g) + p.l0 * np.sin(th)
        a, b = rng.uniform(.02, 2, size=2)
        le, ri = foot - a, foot + b
        if i % 7 == 0:  # beside the stone
            le, ri = (foot + a, foot + a + b) if rng.random() < .5 else \
                (foot - a - b, foot - a)
    if rng.random() < .25:
        le = -np.inf
    if rng.random() < .25:
        ri = np.inf
    stone = sl.SteppingStone(le, ri, h)
    S.add_stepping_stone(le, ri, h)
    c.require([(q.left, q.right, q.height) for q in S.stepping_stones] ==
              [(le, ri, h)], "stones", "added stones are kept")
    out = S.apex_map_linear_approximation(w, stone, th)
    c.key(p.desc, x, th, le, ri, h)
    c.require(len(out) == 8, "result", "eight parts", got=len(out))
    hit = foot is not None and le <= foot <= ri
    if not hit or not r.ok:
        c.require(all(v is None for v in out), "no_mode",
                  "an unreachable stone gives no mode", x=w, angle=th,
                  stone=(le, ri, h), why=r.why or "beside the stone")
        c.ev("no mode: " + ("stone" if not hit else r.why))
        return
    c.require(all(v is not None for v in out), "mode", "there is a mode",
              x=w, angle=th, stone=(le, ri, h))
    A, B, cc, at, bt, ct, P, q = (np.asarray(v, dtype=float) for v in out)
    ctx = dict(par=p.desc, x=w, angle=th, stone=(le, ri, h))
    c.require(A.shape == (3, 3) and B.size == 3 and cc.size == 3 and
              at.size == 3 and bt.size == 1 and ct.size == 1, "result",
              "shapes of the maps", A=A.shape, B=B.shape, c=cc.shape)
    B, cc, at = B.ravel(), cc.ravel(), at.ravel()
    bt, ct = float(bt.ravel()[0]), float(ct.ravel()[0])
    rows = 2 + np.isfinite(le) + np.isfinite(ri)
    c.require(P.shape == (rows, 4) and q.size == rows, "result",
              "one row per constraint", P=P.shape, q=q.shape, rows=rows)
    q = q.ravel()

    def f(z):
        y = np.array([z[0], z[1] - h, z[2]])
        v = p.apex_map(y, z[3])
        if not v.ok:
            raise Skip("edge of the domain")
        return np.r_[v.apex[0], v.apex[1] + h, v.apex[2], v.t,
                     y[1] - p.l0 * np.cos(z[3]), v.post_lo[3],
                     v.pre_td[0] + p.l0 * np.sin(z[3])]
    z = np.r_[w, th]
    v = f(z)
    sc = r.sens * (1 + np.abs(v).max())
    c.close(A @ w + B * th + cc, v[:3], "map_value",
            "the map at its linearization point", tol=3e-5, scale=sc, **ctx)
    c.close(at @ w + bt * th + ct, v[3], "time_value",
            "the travel time at the linearization point", tol=3e-5, scale=sc,
            **ctx)
    # margins at the linearization point are exact: value, then slope
    J, err = slipgen.jac2(f, z, 2e-5 * np.array([1, 1, 1, .3]))
    D = 1 + np.abs(J).max()
    settled = err < 1e-4 * D
    if settled:
        c.close(np.c_[A, B], J[:3], "map_slope", "slope of the map",
                tol=1e-3, scale=D, **ctx)
        c.close(np.r_[at, bt], J[3], "time_slope", "slope of the time",
                tol=1e-3, scale=D, **ctx)
    want = [(v[4], J[4]), (v[5], J[5])]
    if np.isfinite(le):
        want.append((v[6] - le, J[6]))
    if np.isfinite(ri):
        want.append((ri - v[6], -J[6]))
    # margin m(z) ~ m0 + g (z - z0) >= 0   <=>   P = -g, q = m0 - g z0
    W = np.array([np.r_[-g, m0 - g @ z] for m0, g in want])
    G = np.c_[P, q]
    n = np.linalg.norm(G[:, :4], axis=1)
    c.require(np.all(n > 0), "polyhedron", "a trivial row", P=P, **ctx)
    G = G / n[:, None]
    W = W / np.linalg.norm(W[:, :4], axis=1)[:, None]
    if not settled:
        raise Skip("finite differences do not settle")
    best = min(max(np.abs(G[k] - W[j]).max() for j, k in enumerate(o))
               for o in itertools.permutations(range(rows)))
    c.close(best, 0., "polyhedron", "half-spaces of the mode", tol=2e-3,
            scale=r.sens * (1 + np.abs(W).max()), P=P, q=q, want=W, **ctx)
    c.require(np.all(P @ z <= q + 1e-6 * sc), "inside",
              "the linearization point satisfies its constraints", **ctx)
    c.ev("modes")


if __name__ == "__main__":
    chk.main()

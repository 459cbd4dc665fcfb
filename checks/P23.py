"""P23: options for the norm transformation R."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import neural_network_lyapunov.r_options as ro  # noqa: E402
from gen import T, N  # noqa: E402

chk = Check("P23", rule="sizes 1-5 (tall, square; wide for SVD/free), "
            "margins, matrices that satisfy the option's precondition "
            "(including ones exactly at the margin), followed by random "
            "histories of set / set-directly / gradient updates; non-trivial: "
            "distinct (option, size, value)",
            assumptions=["numpy eigenvalue/SVD routines"])


def spd_matrix(rng, m, n, eps):
    M = rng.normal(size=(n, n))
    top = M @ M.T * rng.choice([.01, 1., 10.]) + (eps * 1.001) * np.eye(n)
    if rng.random() < .3:
        top += np.diag(rng.uniform(0, 5, n))
    return np.vstack([top, rng.normal(size=(m - n, n))])


def judge_spd(c, opt, n, eps):
    R = N(opt.R())
    top = R[:n]
    c.close(top, top.T, "symmetric", tol=1e-12)
    ev = np.linalg.eigvalsh((top + top.T) / 2)
    c.require(ev.min() >= eps - 1e-9 * (1 + abs(ev).max()), "margin",
              ev=ev, eps=eps)
    s = np.linalg.svd(R, compute_uv=False)
    c.require(s.min() >= eps - 1e-9 * (1 + s.max()), "full_column_rank", s=s)


@chk.section(quick=2000, thorough=60000)
def spd(c, rng, i):
    n = int(rng.integers(1, 5))
    m = n + int(rng.integers(0, 4))
    eps = float(rng.choice([1e-3, .1, 1., 3.]))
    opt = ro.SearchRwithSPDOptions((m, n), eps)
    c.require(not opt.fixed_R, "fixed_flag")
    for s in range(4):
        k = int(rng.integers(3)) if s else 0
        if k == 0:
            R = spd_matrix(rng, m, n, eps)
            keep = R.copy()
            opt.set_variable_value(R)
            c.close(N(opt.R()), keep, "round_trip", tol=1e-8)
            c.close(R, keep, "argument_modified", tol=0)
        elif k == 1:
            nv = sum(v.numel() for v in opt.variables())
            v = rng.normal(size=nv) * rng.choice([0., .1, 3.])
            opt.set_variable_value_directly(v.copy())
            c.close(N(torch.cat([w.reshape(-1) for w in opt.variables()])),
                    v, "variables_set", tol=0)
        else:
            update(c, opt, rng)
        judge_spd(c, opt, n, eps)
        c.ev("states_judged")
        roundtrip_directly(c, opt, ro.SearchRwithSPDOptions((m, n), eps))
        c.key("spd", m, n, eps, N(opt.R()))
    nv = sum(v.numel() for v in opt.variables())
    c.require(nv == n * (n + 1) // 2 + (m - n) * n, "variable_count", nv=nv)
    grads(c, opt, rng)
    p = opt.extract_params()
    c.require(tuple(p["R_size"]) == (m, n), "params_size")
    c.close(p["R_epsilon"], eps, "params_epsilon", tol=0)
    c.close(N(p["R_variables"][0]), N(opt.variables()[0]), "params_variables",
            tol=0)
    c.note(option="spd", size=(m, n), eps=eps, R=opt.R())
    c.require(isinstance(str(opt), str), "printable")


def roundtrip_directly(c, opt, fresh):
    """The variables determine the matrix."""
    v = opt.variables()
    c.require(isinstance(v, list) and len(v) == 1 and v[0].requires_grad and
              v[0].is_leaf and v[0].dtype == torch.float64,
              "trainable_variables")
    if isinstance(fresh, ro.SearchRwithSVDOptions):
        fresh.U, fresh.V = opt.U, opt.V
    fresh.set_variable_value_directly(N(v[0]).copy())
    c.close(N(fresh.R()), N(opt.R()), "variables_determine_matrix", tol=0)


def update(c, opt, rng):
    """One gradient step on the variables, as an optimizer takes it."""
    before = N(opt.R()).copy()
    vs = opt.variables()
    W = T(rng.normal(size=before.shape))
    loss = (opt.R() * W).sum() + (opt.R()**2).sum()
    g = torch.autograd.grad(loss, vs)
    with torch.no_grad():
        for v, d in zip(vs, g):
            v -= .3 * d / (1. + d.norm())
    if any(bool((d != 0).any()) for d in g):
        c.require(np.abs(N(opt.R()) - before).max() > 0, "update_ignored")
    c.ev("gradient_updates")


def grads(c, opt, rng):
    """dR/dvariables by autograd equals finite differences."""
    vs = opt.variables()
    W = rng.normal(size=N(opt.R()).shape)
    g = torch.autograd.grad((opt.R() * T(W)).sum(), vs)[0]
    v0 = N(vs[0]).copy()
    fd = np.zeros(v0.size)
    h = 1e-5
    for k in range(v0.size):
        d = np.zeros(v0.size)
        d[k] = h
        vals = []
        for s in (1, -1):
            with torch.no_grad():
                vs[0].copy_(T(v0 + s * d.reshape(v0.shape)))
            vals.append((N(opt.R()) * W).sum())
        fd[k] = (vals[0] - vals[1]) / (2 * h)
    with torch.no_grad():
        vs[0].copy_(T(v0))
    c.close(N(g).reshape(-1), fd, "gradient", tol=1e-6)


@chk.section(quick=2000, thorough=60000)
def svd(c, rng, i):
    m, n = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    k = min(m, n)
    a = rng.uniform(.05, 1., k) if rng.random() < .7 else np.full(k, .3)
    opt = ro.SearchRwithSVDOptions((m, n), a)
    c.require(not opt.fixed_R, "fixed_flag")
    for s in range(4):
        op = int(rng.integers(3)) if s else 0
        if op == 0:
            U, _ = np.linalg.qr(rng.normal(size=(m, m)))
            V, _ = np.linalg.qr(rng.normal(size=(n, n)))
            S = np.zeros((m, n))
            sv = np.sort(a.max() + rng.uniform(1e-6, 3., k))[::-1]
            S[np.arange(k), np.arange(k)] = sv
            R = U @ S @ V
            keep = R.copy()
            opt.set_variable_value(R)
            c.close(N(opt.R()), keep, "round_trip", tol=1e-8)
            c.close(R, keep, "argument_modified", tol=0)
        elif op == 1:
            v = rng.normal(size=k) * rng.choice([0., .1, 3.])
            opt.set_variable_value_directly(v.copy())
            c.close(N(opt.variables()[0]), v, "variables_set", tol=0)
        else:
            update(c, opt, rng)
        R = N(opt.R())
        c.require(R.shape == (m, n), "shape")
        want = np.sort(a + N(opt.variables()[0])**2)[::-1]
        c.close(np.linalg.svd(R, compute_uv=False), want, "singular_values",
                tol=1e-9)
        c.require(np.linalg.svd(R, compute_uv=False).min() >=
                  a.min() - 1e-9, "singular_value_bound")
        c.ev("states_judged")
        roundtrip_directly(c, opt, ro.SearchRwithSVDOptions((m, n), a))
        c.key("svd", m, n, R)
    grads(c, opt, rng)
    p = opt.extract_params()
    c.require(tuple(p["R_size"]) == (m, n), "params_size")
    c.close(p["R_a"], a, "params", tol=0)
    S = np.zeros((m, n))
    S[np.arange(k), np.arange(k)] = a + N(opt.variables()[0])**2
    c.close(p["R_U"] @ S @ p["R_V"], N(opt.R()), "params", tol=1e-10)
    c.note(option="svd", size=(m, n), a=a, R=opt.R())


@chk.section(quick=1000, thorough=30000)
def free(c, rng, i):
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    opt = ro.SearchRfreeOptions((m, n))
    c.require(not opt.fixed_R, "fixed_flag")
    for s in range(3):
        R = rng.normal(size=(m, n))
        keep = R.copy()
        if rng.random() < .5:
            opt.set_variable_value(R)
        else:
            opt.set_variable_value_directly(R)
        c.close(N(opt.R()), keep, "round_trip", tol=0)
        c.close(R, keep, "argument_modified", tol=0)
        roundtrip_directly(c, opt, ro.SearchRfreeOptions((m, n)))
        update(c, opt, rng)
        c.close(N(opt.R()), N(opt.variables()[0]), "free_matrix", tol=0)
        c.key("free", m, n, R)
        c.ev("states_judged")
    grads(c, opt, rng)
    c.require(tuple(opt.extract_params()["R_size"]) == (m, n), "params_size")
    c.note(option="free", size=(m, n))


@chk.section(quick=500, thorough=10000)
def fixed(c, rng, i):
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    R = T(rng.normal(size=(m, n)))
    keep = N(R).copy()
    opt = ro.FixedROptions(R)
    c.require(opt.fixed_R and list(opt.variables()) == [], "fixed_flag")
    c.close(N(opt.R()), keep, "fixed_value", tol=0)
    opt.set_variable_value(rng.normal(size=(m, n)))
    c.close(N(opt.R()), keep, "fixed_value", "after a set", tol=0)
    c.require(not opt.R().requires_grad, "fixed_gradient")
    c.require(isinstance(opt.extract_params(), dict), "params")
    c.key("fixed", m, n, keep)
    c.note(option="fixed", size=(m, n))
    c.ev("states_judged")


if __name__ == "__main__":
    chk.main()

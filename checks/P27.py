"""P27: encoders and decoders."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import Check, np, torch  # noqa: E402
import neural_network_lyapunov.encoders as enc  # noqa: E402

chk = Check("P27", rule="each of the three encoder and three decoder kinds "
            "with width/height multiples of four (independent, also non "
            "square), latent size 1-8, grey/RGB, batch 1-6, float32/float64, "
            "inputs in and out of [0,1]; non-trivial: distinct "
            "(kind, size, latent, colour, batch, dtype) configurations",
            assumptions=["torch.nn.functional layers as reference"])
F = torch.nn.functional
KINDS = ["Linear1", "CNN1", "CNN2"]


def sizes(rng, kind):
    lo = 40 if kind == "CNN2" else 4
    hi = 64 if kind == "CNN2" else 44
    return (int(rng.integers(lo // 4, hi // 4 + 1)) * 4,
            int(rng.integers(lo // 4, hi // 4 + 1)) * 4)


def config(rng, i):
    kind = KINDS[i % 3]
    w, h = sizes(rng, kind)
    z = int(rng.integers(1, 9))
    gray = bool(rng.random() < .5)
    batch = int(rng.integers(1, 7))
    dt = [torch.float32, torch.float64][int(rng.integers(2))]
    return kind, w, h, z, gray, batch, dt


def hostile_weights(mod, rng):
    """Spread the weights so that saturation and dead units are exercised."""
    s = float(rng.choice([1., 1., 3.]))
    with torch.no_grad():
        for p in mod.parameters():
            p.mul_(s)


def lin_stack(mod, x, final):
    ls = list(mod.linear)
    for k, lay in enumerate(ls):
        x = x @ lay.weight.t() + lay.bias
        if k < len(ls) - 1 or not final:
            x = x.clamp(min=0)
    return x


@chk.section(quick=450, thorough=900)
def encoder(c, rng, i):
    kind, w, h, z, gray, batch, dt = config(rng, i)
    cls = getattr(enc, {"Linear1": "LinearEncoder1", "CNN1": "CNNEncoder1",
                        "CNN2": "CNNEncoder2"}[kind])
    m = cls(z, w, h, gray).to(dt)
    hostile_weights(m, rng)
    m.train(bool(rng.random() < .5))
    ch = 2 if gray else 6
    x = torch.rand((batch, ch, w, h), dtype=dt)
    if rng.random() < .3:
        x = torch.randn((batch, ch, w, h), dtype=dt) * 3
    keep = x.clone()
    out = m(x)
    c.key(kind, w, h, z, gray, batch, str(dt))
    c.note(kind=kind, w=w, h=h, z=z, gray=gray, batch=batch)
    c.require(isinstance(out, tuple) and len(out) == 2, "two_outputs")
    mu, lv = out
    for o, n in ((mu, "mean"), (lv, "log variance")):
        c.require(tuple(o.shape) == (batch, z), "latent_shape", n,
                  shape=tuple(o.shape))
        c.require(o.dtype == dt and bool(torch.isfinite(o).all()),
                  "latent_value", n)
    c.require(torch.equal(x, keep), "input_modified")
    # independent evaluation from the module's own parameters
    with torch.no_grad():
        y = x
        if kind == "CNN1":
            k = [lay for lay in m.conv if isinstance(lay, torch.nn.Conv2d)]
            for lay in k:
                y = F.conv2d(y, lay.weight, lay.bias, padding=1).clamp(min=0)
                y = F.max_pool2d(y, 2)
        elif kind == "CNN2":
            for s, lay in zip((1, 2, 2, 2), m.conv):
                y = F.conv2d(y, lay.weight, lay.bias, stride=s).clamp(min=0)
        y = lin_stack(m, y.reshape((batch, -1)), True)
    tol = 1e-3 if dt == torch.float32 else 1e-9
    c.close(mu, y[:, :z], "encoder_value", "mean", tol=tol)
    c.close(lv, y[:, z:], "encoder_value", "log variance", tol=tol)
    # batch independence and permutation
    perm = torch.randperm(batch)
    mu2, lv2 = m(x[perm])
    c.close(mu2, mu[perm], "batch_independence", tol=tol)
    c.close(lv2, lv[perm], "batch_independence", tol=tol)
    j = int(rng.integers(batch))
    mu1, lv1 = m(x[j:j + 1])
    c.close(mu1[0], mu[j], "batch_independence", "single", tol=tol)
    c.close(lv1[0], lv[j], "batch_independence", "single", tol=tol)
    a = m(x)
    c.require(torch.equal(a[0], mu) and torch.equal(a[1], lv),
              "deterministic")
    # every parameter takes part
    seen = gradients(m, lambda: m(torch.rand((4, ch, w, h), dtype=dt)), rng)
    for n, g in seen.items():
        c.require(g, "parameter_unused", n)
    c.ev("parameters_checked", len(seen))


def gradients(m, run, rng):
    """name -> does any of several probes give it a non-zero gradient?"""
    seen = {n: False for n, _ in m.named_parameters()}
    state = {n: p.detach().clone() for n, p in m.named_parameters()}
    for t in range(6):
        with torch.no_grad():
            for n, p in m.named_parameters():
                p.copy_(torch.randn_like(p) * (.3 if p.dim() == 1 else
                                               2. / p[0].numel()**.5))
        m.zero_grad()
        out = run()
        out = out if isinstance(out, tuple) else (out, )
        sum((o * torch.randn_like(o)).sum() for o in out).backward()
        for n, p in m.named_parameters():
            if p.grad is not None and bool((p.grad != 0).any()):
                seen[n] = True
        if all(seen.values()):
            break
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(state[n])
    m.zero_grad()
    return seen


@chk.section(quick=450, thorough=900)
def decoder(c, rng, i):
    kind, w, h, z, gray, batch, dt = config(rng, i)
    cls = getattr(enc, {"Linear1": "LinearDecoder1", "CNN1": "CNNDecoder1",
                        "CNN2": "CNNDecoder2"}[kind])
    m = cls(z, w, h, gray).to(dt)
    hostile_weights(m, rng)
    m.train(bool(rng.random() < .5))
    ch = 2 if gray else 6
    x = torch.randn((batch, z), dtype=dt) * float(rng.choice([.1, 1., 30.]))
    keep = x.clone()
    o = m(x)
    c.key(kind, w, h, z, gray, batch, str(dt))
    c.note(kind=kind, w=w, h=h, z=z, gray=gray, batch=batch)
    c.require(tuple(o.shape) == (batch, ch, w, h), "image_shape",
              shape=tuple(o.shape), expected=(batch, ch, w, h))
    c.require(o.dtype == dt and bool(((o >= 0) & (o <= 1)).all()),
              "pixel_range", lo=o.min(), hi=o.max())
    c.require(torch.equal(x, keep), "input_modified")
    with torch.no_grad():
        y = lin_stack(m, x, True)
        if kind == "CNN1":
            y = y.reshape((batch, 1, w // 4, h // 4))
            a, b = m.conv
            y = F.conv_transpose2d(y, a.weight, a.bias, stride=2)
            y = F.conv_transpose2d(y.clamp(min=0), b.weight, b.bias, stride=2)
        elif kind == "CNN2":
            a, b, d = [lay for lay in m.conv
                       if isinstance(lay, torch.nn.ConvTranspose2d)]
            ws, hs = (((v - 4) // 2 - 4) // 2 - 4 for v in (w, h))
            y = y.reshape((batch, 1, ws, hs))
            for lay in (a, b):
                y = F.conv_transpose2d(y, lay.weight, lay.bias).clamp(min=0)
                y = y.repeat_interleave(2, 2).repeat_interleave(2, 3)
            y = F.conv_transpose2d(y, d.weight, d.bias)
        y = 1. / (1. + torch.exp(-y.reshape((batch, ch, w, h))))
    tol = 1e-4 if dt == torch.float32 else 1e-9
    c.close(o, y, "decoder_value", tol=tol)
    perm = torch.randperm(batch)
    c.close(m(x[perm]), o[perm], "batch_independence", tol=tol)
    j = int(rng.integers(batch))
    c.close(m(x[j:j + 1])[0], o[j], "batch_independence", "single", tol=tol)
    c.require(torch.equal(m(x), o), "deterministic")
    seen = gradients(m, lambda: m(torch.randn((4, z), dtype=dt)), rng)
    for n, g in seen.items():
        c.require(g, "parameter_unused", n)
    c.ev("parameters_checked", len(seen))


@chk.section(quick=225, thorough=450)
def pair(c, rng, i):
    """A decoder accepts its encoder's latent and gradients flow end to end."""
    kind, w, h, z, gray, batch, dt = config(rng, i)
    e = getattr(enc, {"Linear1": "LinearEncoder1", "CNN1": "CNNEncoder1",
                      "CNN2": "CNNEncoder2"}[kind])(z, w, h, gray).to(dt)
    dec = KINDS[int(rng.integers(3))]
    if dec == "CNN2" and min(w, h) < 40:
        dec = kind
    d = getattr(enc, {"Linear1": "LinearDecoder1", "CNN1": "CNNDecoder1",
                      "CNN2": "CNNDecoder2"}[dec])(z, w, h, gray).to(dt)
    x = torch.rand((batch, 2 if gray else 6, w, h), dtype=dt)
    mu, lv = e(x)
    y = d(mu + torch.exp(.5 * lv) * torch.randn_like(mu))
    c.require(y.shape == x.shape, "pair_shape", shape=tuple(y.shape))
    ((y - x)**2).mean().backward()
    g = [p.grad for p in list(e.parameters()) + list(d.parameters())]
    c.require(all(v is not None and bool(torch.isfinite(v).all())
                  for v in g), "pair_gradient")
    for m in (e, d):
        sd = m.state_dict()
        n = type(m)(z, w, h, gray).to(dt)
        n.load_state_dict(sd)
        v = x if m is e else mu.detach()
        a, b = m(v), n(v)
        a, b = (a, b) if isinstance(a, tuple) else ((a, ), (b, ))
        c.require(all(torch.equal(p, q) for p, q in zip(a, b)),
                  "checkpoint_round_trip")
    c.key(kind, dec, w, h, z, gray, batch)
    c.note(kind=kind, decoder=dec, w=w, h=h, z=z)


if __name__ == "__main__":
    chk.main()

"""C28 gradients used by the fit."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C28"
RULE = "non-trivial: derivative along the tested direction is above 1e-3 of the size of the spectra and the two difference quotients agree"

TRAIN = ["CONST", "TWOTHIRD", "MANN_APPROX", "TAUNET"]
CASE = st.fixed_dictionaries(dict(
    type=st.sampled_from(TRAIN), L=logf(0.05, 50), Gamma=logf(0.1, 5), sigma=logf(0.05, 20), n=st.integers(1, 4), learn=st.booleans(), p=unif(2.5, 5.0), q=unif(2.3, 3.5), learn_nu=st.booleans(), net=logf(0.02, 0.5),
    nlayers=st.integers(1, 3), width=st.integers(2, 6), seed=seeds, tseed=st.integers(0, 99), hist=st.sampled_from(["fresh", "moved", "evaluated", "stepped"]), lo=unif(-1.5, -0.5), dec=unif(1.5, 3.0)))


def named(ops):
    return [(n, p) for n, p in ops.named_parameters() if p.requires_grad]


def fd(f, ps, dirs, h):
    """central difference of f along dirs"""
    old = [p.detach().clone() for p in ps]
    out = []
    with torch.no_grad():
        for s in (h, -h):
            for p, o, d in zip(ps, old, dirs):
                p.copy_(o + s * d)
            out.append(f().detach().clone())
        for p, o in zip(ps, old):
            p.copy_(o)
    return (out[0] - out[1]) / (2 * h)


def run(c, ctx):
    with default_dtype("float64"):
        return _run(c, ctx)


def _run(c, ctx):
    r = rng(c["seed"])
    kw = dict(use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"]) if c["learn"] else {}
    k1 = torch.tensor(np.exp(r.uniform(-2, 2, size=c["n"])) / c["L"])
    sigma = c["sigma"]
    for _ in range(2):
        pb = make_problem(dict(c, sigma=sigma, grid=(c["lo"], c["lo"] + c["dec"], 7)), ctx.tmpdir(), **kw)
        ops = pb.OPS
        if c["type"] == "TAUNET":
            scramble_net(ops.tauNet, c["seed"], c["net"])
        # lift the spectra far above the floor of the tensor (1e-12), which is not differentiable
        sigma = c["sigma"] * max(1.0, 1e3 / float(np.abs(pb.eval(k1)[:4]).mean(axis=1).min()))
    if c["hist"] in ("moved", "stepped"):
        v = pb.parameters.copy()
        v[:3] += r.uniform(-0.5, 0.5, size=3)
        if c["hist"] == "stepped":  # a state in the middle of a fit
            pb.OPS(k1)[:4].sum().backward()
        pb.parameters = v
    if c["hist"] in ("evaluated", "stepped"):
        pb.OPS(k1 * 1.7)
        pb.eval(k1)
    ops.zero_grad()
    ps = named(ops)
    names = [n for n, _ in ps]
    want = 3 + (2 if c["learn"] else 0) + (0 if c["type"] != "TAUNET" else c["nlayers"] + 1 + (1 if c["learn_nu"] else 0))
    need(len(ps) >= 3, lambda: f"trainable parameters {names}")
    _ = want
    # random functional of the four spectra that do not vanish by symmetry
    Y0 = ops(k1)[:4].detach()
    W = torch.tensor(r.normal(size=tuple(Y0.shape))) / Y0.abs().mean(dim=1, keepdim=True)

    def f():
        return (W * ops(k1)[:4]).sum()

    val = f()
    val.backward()
    grads = []
    for n, p in ps:
        need(p.grad is not None, lambda: f"{n} has no gradient: the spectra do not depend on it")
        g = p.grad.detach().clone()
        need(bool(torch.isfinite(g).all()), lambda: f"gradient of {n} is not finite")
        grads.append(g)
    size = float((W * Y0).abs().sum())
    nontrivial = False
    tests = [(n, [i]) for i, n in enumerate(names)] + [("all parameters", list(range(len(ps))))]
    for what, idx in tests:
        dirs = [torch.tensor(np.atleast_1d(r.normal(size=tuple(ps[i][1].shape))).reshape(tuple(ps[i][1].shape))) if ps[i][1].numel() > 1 else torch.ones_like(ps[i][1]) for i in idx]
        sub = [ps[i][1] for i in idx]
        a = float(sum((grads[i] * d).sum() for i, d in zip(idx, dirs)))
        d1, d2 = float(fd(f, sub, dirs, 1e-5)), float(fd(f, sub, dirs, 3e-6))
        tol = 1e-5 * size + 1e-4 * abs(d1)
        if abs(d1 - d2) > 0.3 * tol:  # a kink of the activation or of the floor lies inside the step
            ctx.label("kink")
            continue
        need(abs(a - d1) <= tol, lambda: f"{c['type']}: derivative of the spectra with respect to {what} is {d1}, gradient says {a} (size {size:.3g})")
        nontrivial = nontrivial or abs(d1) > 1e-3 * size
    # every exposed scale and exponent acts on the spectra
    for (n, p) in ps:
        if p.numel() == 1:
            J = fd(lambda: ops(k1)[:4], [p], [torch.ones_like(p)], 1e-5)
            rel = float((J.abs() / Y0.abs().amax(dim=1, keepdim=True)).max())
            need(rel > 1e-6, lambda: f"{c['type']}: the spectra do not react to {n}")
    ctx.label(c["type"], "learnable" if c["learn"] else "vk", c["hist"], "learn_nu" if c["learn_nu"] else "")
    return nontrivial


LOSS = st.fixed_dictionaries(dict(nc=st.sampled_from([1, 3, 4, 6]), n=st.integers(4, 9), a1=st.sampled_from([0.0, 0.3, 2.0]), a2=st.sampled_from([0.0, 0.5, 3.0]), b=st.sampled_from([0.0, 0.1, 4.0]), seed=seeds, amp=logf(0.1, 2), coh=st.booleans()))


def run_loss(c, ctx):
    from drdmannturb import LossParameters
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    with default_dtype("float64"):
        r = rng(c["seed"])
        k1 = torch.tensor(np.cumprod(np.exp(r.uniform(0.2, 0.8, size=c["n"]))))
        agg = LossAggregator(params=LossParameters(alpha_pen1=c["a1"], alpha_pen2=c["a2"], beta_reg=c["b"], gamma_coherence=1.5 if c["coh"] else 0.0), k1space=k1, zref=1.0, tb_log_dir=ctx.tmpdir())
        try:
            y = torch.tensor(np.exp(c["amp"] * r.normal(size=(c["nc"], c["n"]))), requires_grad=True)
            t = torch.tensor(np.exp(c["amp"] * r.normal(size=(c["nc"], c["n"]))))
            th = torch.tensor(r.normal(size=5), requires_grad=True)
            m = torch.tensor(r.uniform(0.1, 0.9, size=(3, 2, 3)), requires_grad=True)
            dat = torch.tensor(r.uniform(0.1, 0.9, size=(3, 2, 3)))

            def f():
                coh = None
                if c["coh"]:
                    coh = {f"model_{x}": m[i] for i, x in enumerate("uvw")} | {f"data_{x}": dat[i] for i, x in enumerate("uvw")}
                return agg.eval(y, t, th, 0, coherence_data=coh)

            f().backward()
            for n, p, on in (("spectra", y, True), ("network weights", th, c["b"] > 0), ("coherence", m, c["coh"])):
                if not on:
                    continue
                need(p.grad is not None, f"the loss has no gradient with respect to the {n}")
                d = torch.tensor(r.normal(size=tuple(p.shape)))
                a = float((p.grad * d).sum())
                d1, d2 = float(fd(f, [p], [d * p.detach().abs()], 1e-5)) if n == "spectra" else float(fd(f, [p], [d], 1e-5)), 0.0
                if n == "spectra":
                    a = float((p.grad * d * p.detach().abs()).sum())
                    d2 = float(fd(f, [p], [d * p.detach().abs()], 3e-6))
                else:
                    d2 = float(fd(f, [p], [d], 3e-6))
                scale = float(f().detach()) + abs(d1)
                if abs(d1 - d2) > 1e-5 * scale:
                    ctx.label("kink")
                    continue
                need(abs(a - d1) <= 1e-4 * scale, lambda: f"derivative of the loss with respect to the {n} is {d1}, gradient says {a}")
        finally:
            agg.writer.close()
        ctx.label(f"pen1={c['a1'] > 0}", f"pen2={c['a2'] > 0}", f"reg={c['b'] > 0}")
        return c["a1"] > 0 or c["a2"] > 0


COH = st.fixed_dictionaries(dict(
    type=st.sampled_from(TRAIN), L=wide(0.1, 20, 10), Gamma=logf(0.1, 5), sigma=wide(0.1, 20, 30), n=st.integers(1, 3), learn=st.booleans(), p=unif(2.5, 5.0), q=unif(2.3, 3.5), learn_nu=st.booleans(), net=logf(0.02, 0.5),
    seed=seeds, tseed=st.integers(0, 99), cgrid=st.tuples(unif(-2.5, -1), unif(0.5, 2), st.integers(4, 9)), lazy=st.booleans(), seps=st.lists(st.one_of(st.just(0.0), unif(-3, 3)), min_size=1, max_size=3), times=st.integers(1, 3),
    hist=st.sampled_from(["fresh", "moved", "evaluated"])))


def run_coh(c, ctx):
    """the coherence can be differentiated as often as it is evaluated, and its gradients are right"""
    with default_dtype("float64"):
        r = rng(c["seed"])
        kw = dict(use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"]) if c["learn"] else {}
        m = make_ops(c, **kw, **({} if c["lazy"] else dict(use_coherence=True)))
        if c["type"] == "TAUNET":
            scramble_net(m.tauNet, c["seed"], c["net"])
        k1 = torch.tensor(np.exp(r.uniform(-2, 1, size=c["n"])) / c["L"])
        sep = torch.tensor(np.array(c["seps"]) * c["L"])
        W = torch.tensor(r.normal(size=(3, len(c["seps"]), c["n"])))
        if c["hist"] == "evaluated":
            m(k1 * 1.3)
        f = lambda: (m.SpectralCoherence(k1, sep) * W).sum()  # noqa: E731
        good = False
        for t in range(c["times"]):
            m.zero_grad()
            f().backward()
            if c["hist"] == "moved" and t == 0:
                with torch.no_grad():
                    for p in (m.logLengthScale, m.logTimeScale):
                        p += float(r.uniform(-0.3, 0.3))
                m.zero_grad()
                f().backward()
            for name, p in named(m):
                d = torch.tensor(r.normal(size=tuple(p.shape))) if p.dim() else torch.tensor(1.0)
                a = 0.0 if p.grad is None else float((p.grad * d).sum())
                d1, d2 = float(fd(f, [p], [d], 1e-5)), float(fd(f, [p], [d], 3e-6))
                if abs(d1 - d2) > 1e-5 * (1 + abs(d1)):
                    ctx.label("kink")
                    continue
                need(abs(a - d1) <= 1e-4 * (1 + abs(d1)) * 0.1 + 1e-7, lambda: f"{c['type']}: derivative of the coherence with respect to {name} is {d1}, gradient says {a} (evaluation {t})")
                good = good or abs(d1) > 1e-3
        ctx.label(c["type"], f"lazy={c['lazy']}", c["hist"])
        return good


SUBS = [Sub(f"{t}_{'learn' if ln else 'vk'}", strat(CASE, type=t, learn=ln), run, 60, 2000) for t in TRAIN for ln in (False, True)] + [Sub("loss", LOSS, run_loss, 150, 5000)] + [
    Sub("coherence_" + t, strat(COH, type=t), run_coh, 25, 1000) for t in TRAIN]

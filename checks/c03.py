"""C03 energy spectra."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C03"
RULE = "non-trivial: at least one wave number in the energy-containing range 0.05 < kL < 20, exponents not all zero"

PTS = st.fixed_dictionaries(dict(seed=seeds, shape=st.lists(st.integers(1, 6), min_size=0, max_size=3), lo=wide(1e-4, 1e2),
                                 dec=unif(0, 5), dt=dtypes, p=unif(-2, 8), q=unif(-1, 8)))


def points(c):
    r = rng(c["seed"])
    x = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=tuple(c["shape"])))
    t = torch.tensor(x, dtype=getattr(torch, c["dt"]))
    return t, t.numpy().astype(float)


def run_vk(c, ctx):
    from drdmannturb import common as d

    t, x = points(c)
    keep = t.clone()
    tol = 1e-11 if c["dt"] == "float64" else 2e-5
    e = ref.vk_energy(x)
    # small float32 results underflow
    inr = (x < 1e6) if c["dt"] == "float32" else np.full(x.shape, True)
    sel = (e > (1e-300 if c["dt"] == "float64" else 1e-30)) & inr
    for f in (d.VKEnergySpectrum, d.VKLike_EnergySpectrum):
        y = f(t).numpy()
        need(y.shape == x.shape, "shape")
        need(close(y[sel], e[sel], tol), lambda: "von Karman energy: " + relerr(y[sel], e[sel]))
    p, q = torch.tensor(c["p"], dtype=t.dtype), torch.tensor(c["q"], dtype=t.dtype)
    y = d.Learnable_EnergySpectrum(t, p, q).numpy()
    e2 = ref.learnable_energy(x, float(p), float(q))
    with np.errstate(over="ignore"):
        parts = [e2, x ** float(p), (1 + x**2) ** float(q)]
    lim = 1e290 if c["dt"] == "float64" else 1e30
    sel = np.all([(v > 1 / lim) & (v < lim) for v in parts], axis=0)
    need(close(y[sel], e2[sel], tol), lambda: "learnable energy: " + relerr(y[sel], e2[sel]))
    y = d.Learnable_EnergySpectrum(t, torch.tensor(4.0, dtype=t.dtype), torch.tensor(17 / 6, dtype=t.dtype)).numpy()
    sel = (e > (1e-300 if c["dt"] == "float64" else 1e-30)) & inr
    need(close(y[sel], e[sel], tol * 10), lambda: "learnable(4,17/6): " + relerr(y[sel], e[sel]))
    need(torch.equal(keep, t), "input modified")
    ctx.label(c["dt"], f"ndim={len(c['shape'])}")
    return bool(np.any((x > 0.05) & (x < 20)))


MOD = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=wide(0.05, 20, 100), Gamma=wide(0.1, 5, 10), sigma=wide(0.1, 10, 100), seed=seeds,
    n=st.integers(1, 5), lo=logf(0.02, 10), grid=st.tuples(unif(-3, -1), unif(0.5, 2.5), st.integers(4, 14)),
    via=st.sampled_from(["ops", "problem"]), explicit=st.booleans(), coh=st.booleans(), tseed=st.integers(0, 99),
))


def run_mod(c, ctx):
    with default_dtype("float64"):
        pq = dict(p_exponent=4.0, q_exponent=17.0 / 6.0) if c["explicit"] else {}
        if c["via"] == "ops":
            a = make_ops(c)
            b = make_ops(c, use_learnable_spectrum=True, **pq)
        else:
            d1, d2 = ctx.tmpdir(), ctx.tmpdir()
            pb = make_problem(c, d2, use_learnable_spectrum=True, **dict(p_exponent=4.0, q_exponent=17.0 / 6.0))
            a, b = make_problem(c, d1).OPS, pb.OPS
        if c["type"] == "TAUNET":
            scramble_net(a.tauNet, c["seed"], 0.3)
            scramble_net(b.tauNet, c["seed"], 0.3)
        r = rng(c["seed"])
        k1 = torch.tensor(logvec(r, c["lo"], c["lo"] * 50, c["n"]) / c["L"])
        with torch.no_grad():
            ya, yb = a(k1).numpy(), b(k1).numpy()
            scale = np.abs(ya).max(axis=0, keepdims=True)
            need(bool(np.all(np.abs(ya - yb) <= 1e-9 * scale + 1e-13)),
                 lambda: "learnable spectrum with p=4, q=17/6 differs from von Karman: " + relerr(yb, ya))
            if c["coh"]:
                sep = torch.tensor([0.3 * c["L"], 2 * c["L"]])
                ca, cb = a.SpectralCoherence(k1[:2], sep).numpy(), b.SpectralCoherence(k1[:2], sep).numpy()
                need(bool(np.all(np.abs(ca - cb) <= 1e-8)), "coherence differs between the two forms")
        ctx.label(c["type"], c["via"])
        return True


EXP = st.fixed_dictionaries(dict(
    type=st.sampled_from(["CONST", "TWOTHIRD"]), L=wide(0.1, 10, 100), Gamma=wide(0.1, 5, 10), sigma=wide(0.1, 10, 100), seed=seeds,
    n=st.integers(1, 4), p=unif(0, 6.5), q=unif(1, 6), grid=st.tuples(unif(-3, -1), unif(0.5, 2.0), st.integers(4, 14)),
))


def run_exp(c, ctx):
    """sigma and exponents enter multiplicatively: spectra with energy e1 vs reference with e1."""
    with default_dtype("float64"):
        o = make_ops(c, use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"])
        k1 = logvec(rng(c["seed"]), 0.05, 20, c["n"]) / c["L"]
        with torch.no_grad():
            y = o(torch.tensor(k1)).numpy()
        need(abs(float(o.p_exponent) - c["p"]) < 1e-12 and abs(float(o.q_exponent) - c["q"]) < 1e-12, "exponents stored wrongly")
        e = lambda x: ref.learnable_energy(x, c["p"], c["q"])  # noqa: E731
        F, A, fl = ref.one_point(k1, c["grid"], lambda k: tau_ref(c["type"], k, c["L"], c["Gamma"]), c["sigma"], c["L"], e)
        for i in range(4):
            need(bool(np.all(np.abs(y[i] - F[i]) <= 1e-6 * A[i] + fl[i])),
                 lambda: f"component {i} with p={c['p']}, q={c['q']}: " + relerr(y[i], F[i]))
        ctx.label(c["type"])
        return c["p"] != 4


SUBS = [
    Sub("forms", PTS, run_vk, 300, 8000),
    Sub("reduction", MOD, run_mod, 80, 2500),
    Sub("exponents", EXP, run_exp, 80, 2500),
]

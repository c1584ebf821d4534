"""C07 spectral coherence."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C07"
RULE = "non-trivial: some coherence value lies strictly between 0.001 and 0.999"

CASE = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=wide(0.05, 50, 100), Gamma=wide(0.1, 5, 10), sigma=wide(0.1, 20), seed=seeds,
    cgrid=st.tuples(unif(-3, -1), unif(0.5, 2.5), st.integers(4, 16)), n=st.integers(1, 5), lo=logf(0.05, 10), dec=unif(0, 1.5),
    seps=st.lists(st.one_of(st.just(0.0), unif(-5, 5), wide(1e-2, 10, 100)), min_size=1, max_size=5),
    learn=st.booleans(), p=unif(2, 5), q=unif(2.2, 4), net=logf(0.02, 0.5), tseed=st.integers(0, 99),
    default=st.sampled_from([False, False, False, True]), lazy=st.booleans(), f=logf(0.05, 20), dt=st.sampled_from(["float64", "float64", "float32"]),
))


def build(c, **over):
    c = dict(c, **over)
    kw = dict(use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"]) if c["learn"] else {}
    if not c["lazy"]:
        kw["use_coherence"] = True
    m = make_ops(dict(c, cgrid=None) if c["default"] else c, **kw)
    if c["type"] == "TAUNET":
        scramble_net(m.tauNet, c["seed"], c["net"])
    return m


def coh(m, k1, sep):
    dt = torch.get_default_dtype()
    with torch.no_grad():
        return m.SpectralCoherence(torch.tensor(k1, dtype=dt), torch.tensor(sep, dtype=dt)).numpy().astype(float)


def run(c, ctx):
    with default_dtype(c["dt"]):
        m = build(c)
        r = rng(c["seed"])
        k1 = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"])) / c["L"]
        sep = np.array(c["seps"]) * c["L"]
        y = coh(m, k1, sep)
        need(y.shape == (3, len(sep), c["n"]), lambda: f"shape {y.shape}")
        f64 = c["dt"] == "float64"
        tol = 1e-6 if f64 else 5e-3
        need(bool(np.all(np.isfinite(y))), "non-finite coherence")
        need(bool(np.all(y >= -tol) and np.all(y <= 1 + tol)), lambda: f"coherence outside [0,1]: {y.min()}, {y.max()}")
        z = np.abs(sep) == 0
        need(bool(np.all(np.abs(y[:, z] - 1) <= (1e-12 if f64 else 1e-5))), lambda: f"coherence at zero separation {y[:, z]}")
        # same-grid reference
        grid = (-3.0, 3.0, 100) if c["default"] else c["cgrid"]
        g = ref.log_grid(*grid) / c["L"]
        e_ = (lambda x: ref.learnable_energy(x, c["p"], c["q"])) if c["learn"] else None
        exp = np.zeros_like(y)
        err = np.zeros_like(y)
        for b, k in enumerate(k1):
            kv = ref.grid_vectors([k], g, g)
            beta = tau_ref(c["type"], kv, c["L"], c["Gamma"], net=getattr(m, "tauNet", None))
            P = ref.sheared_tensor(kv, beta, c["sigma"], c["L"], e_)[0]
            for i in range(3):
                f2 = np.trapezoid(P[..., i, i], g, axis=-1)
                S0 = np.trapezoid(f2, g)
                for a, s in enumerate(sep):
                    exp[i, a, b] = np.abs(np.trapezoid(f2 * np.exp(1j * g * s), g)) ** 2 / S0**2
        need(bool(np.all(np.abs(y - exp) <= tol * 10 if not f64 else np.abs(y - exp) <= 1e-6)),
             lambda: f"{c['type']} coherence: max deviation {np.abs(y - exp).max():.3g} at {np.unravel_index(np.argmax(np.abs(y-exp)), y.shape)}: " + relerr(y, exp))
        ctx.label(c["type"], c["dt"], f"default={c['default']}", f"lazy={c['lazy']}")
        if f64:
            y2 = coh(m, k1, -sep)
            need(close(y2, y, 0, 1e-10), "coherence is not even in the separation")
            y3 = coh(build(c, sigma=c["sigma"] * c["f"]), k1, sep)
            need(close(y3, y, 0, 1e-8), "coherence depends on the spectrum amplitude")
            p1, p2 = r.permutation(len(sep)), r.permutation(c["n"])
            p1, p2 = p1[: max(1, len(p1) - 1)], p2[: max(1, len(p2) - 1)]
            y4 = coh(m, k1[p2], sep[p1])
            need(close(y4, y[:, p1][:, :, p2], 0, 1e-10), "values depend on the other separations or wave numbers")
            k5, s5 = k1 * np.exp(0.5 * r.normal(size=c["n"])), sep + 0.3 * c["L"]  # other points, as many as before
            need(close(coh(m, k5, s5), coh(build(c), k5, s5), 0, 1e-10), "a second evaluation of the same shape differs from a fresh model's")
            need(close(coh(m, k1, sep), y, 0, 1e-10), "coming back to the first points gives other values")
        return bool(np.any((y > 1e-3) & (y < 0.999)))


SUBS = [Sub("coherence_" + t, strat(CASE, type=t), run, 40, 1500) for t in LIFETIMES]

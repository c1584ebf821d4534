"""C24 low-frequency spectra."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.lowfreq import PHYS, config, norm_c, phi

ID = "C24"
RULE = "non-trivial: some k1 within two decades of the spectral peak"

CASE = st.fixed_dictionaries(dict(
    PHYS, L=logf(100.0, 2e5), zi=logf(10.0, 3000.0), seed=seeds, n=st.integers(1, 6), lo=logf(1e-2, 100), dec=unif(0, 1.5), lim=st.one_of(st.none(), logf(1e-2, 50)), fs=logf(0.01, 100), warn=st.booleans()))


def make(c, **over):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    c = dict(dict(c, f1=5.0, f2=5.0, e1=2, e2=2), **over)
    return LowFreqGenerator(config(c))


def reference(c, k1, limit):
    """(F11, F22) by Simpson's rule in t, k2 = k1 sinh(t)"""
    C = norm_c(c["sigma2"], c["L"], c["zi"])
    k1 = abs(k1)
    t = np.linspace(0.0, np.arcsinh(limit / k1), 20001)
    k2 = k1 * np.sinh(t)
    w = k1 * np.cosh(t)
    h = t[1] - t[0]
    out = []
    for p in phi(k1, k2, C, c["L"], c["psi"], c["zi"]):
        y = p * w
        out.append(2 * h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-2:2].sum()))
    return out


def run(c, ctx):
    g = make(c)
    e = norm_c(c["sigma2"], c["L"], c["zi"])
    need(abs(g.c / e - 1) < 1e-4, lambda: f"amplitude c = {g.c}, normalization requires {e} (L={c['L']}, z_i={c['zi']})")
    r = rng(c["seed"])
    k1 = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"])) / c["L"]
    k1 *= np.where(r.uniform(size=c["n"]) < 0.3, -1.0, 1.0)
    kw = {} if c["lim"] is None else dict(k2_limit=c["lim"] * 10 / c["L"])
    lim = 5.0 if c["lim"] is None else c["lim"] * 10 / c["L"]
    keep = k1.copy()
    F = g.analytical_spectrum(k1, warn=c["warn"], **kw)
    need(np.array_equal(k1, keep), "wave numbers modified")
    R = np.array([reference(c, k, lim) for k in k1]).T
    for i in range(2):
        need(np.shape(F[i]) == k1.shape, "shape")
        need(close(F[i], R[i], 1e-4), lambda: f"F{i+1}{i+1}(k1) for k1 L = {k1*c['L']}, limit {lim}: " + relerr(F[i], R[i]))
    # even, zero at zero, proportional to sigma^2
    G = g.analytical_spectrum(np.concatenate([-k1, [0.0]]), **kw)
    h = make(c, sigma2=c["sigma2"] * c["fs"])
    H = h.analytical_spectrum(k1, **kw)
    for i in range(2):
        need(close(G[i][:-1], F[i], 1e-9), "spectrum is not even in k1")
        need(G[i][-1] == 0.0, lambda: f"spectrum at k1 = 0 is {G[i][-1]}")
        need(close(H[i], c["fs"] * np.asarray(F[i]), 1e-6), "spectrum is not proportional to sigma^2")
    if c["lim"] is not None:
        N = g.analytical_spectrum(k1, k2_limit=-lim)
        need(all(close(N[i], F[i], 1e-9) for i in range(2)), "a negative limit is not the same symmetric interval")
    ctx.label("default-limit" if c["lim"] is None else "limit")
    x = np.abs(k1) * c["L"]
    return bool(np.any((x > 0.01) & (x < 100)))


TOTAL = st.fixed_dictionaries(dict(PHYS, L=logf(200.0, 5e4), psi=st.just(float(np.pi / 4))))


def run_total(c, ctx):
    """isotropic case: the two one-dimensional spectra together integrate to sigma^2"""
    g = make(c)
    t = np.linspace(np.log(1e-5 / c["L"]), np.log(300.0 / min(c["zi"], c["L"])), 121)
    F11, F22 = g.analytical_spectrum(np.exp(t), k2_limit=3e4 / min(c["zi"], c["L"]))
    y = (F11 + F22) * np.exp(t)
    h = t[1] - t[0]
    tot = 2 * h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-2:2].sum())
    # each component carries half of the total 2 * integral(E) = sigma^2 ... integral over the plane of (Phi11+Phi22) is 2 int E dk
    need(abs(tot / c["sigma2"] - 1) < 2e-2, lambda: f"the spectra integrate to {tot}, sigma^2 = {c['sigma2']}")
    ctx.label("total")
    return True


SUBS = [Sub("spectra_a", CASE, run, 60, 2500), Sub("spectra_b", CASE, run, 60, 2500), Sub("spectra_c", strat(CASE, lim=None), run, 60, 2500), Sub("total", TOTAL, run_total, 15, 300)]

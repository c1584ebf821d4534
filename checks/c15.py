"""C15 von Karman and Mann kernels."""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.fields import AXES, freq_axes, root_invariants
from vlib.harness import Sub

ID = "C15"
RULE = "non-trivial: the grid contains wave vectors with all three components nonzero"

CASE = dict(AXES, L=logf(1e-2, 200), E0=logf(1e-3, 1e3), Gamma=logf(0.02, 10))


def kern(c, model, **over):
    from drdmannturb.fluctuation_generation import MannCovariance, VonKarmanCovariance

    c = dict(c, **over)
    kw = dict(ndim=3, length_scale=c["L"], E0=c["E0"])
    return VonKarmanCovariance(**kw) if model == "VK" else MannCovariance(Gamma=c["Gamma"], **kw)


def tensor(c, model, fr):
    K = np.stack(np.meshgrid(*fr, indexing="ij"), axis=-1)
    if model == "VK":
        return ref.vk_tensor(K, c["E0"], c["L"])
    n = np.linalg.norm(K, axis=-1)
    beta = np.where(n > 0, c["Gamma"] * ref.mann_tau(np.where(n > 0, n, 1.0) * c["L"]), 0.0)
    return ref.sheared_tensor(K, beta, c["E0"], c["L"])


def run(model):
    def f(c, ctx):
        fr = freq_axes(c)
        keep = [a.copy() for a in fr]
        k = kern(c, model)
        G = np.asarray(k.precompute_Spectrum(fr))
        need(all(np.array_equal(a, b) for a, b in zip(fr, keep)), "the frequencies were modified")
        root_invariants(G, fr, tensor(c, model, fr), 1e-6, need, model)
        need(np.array_equal(np.asarray(k.precompute_Spectrum(fr)), G), "a second evaluation differs")
        # k1 = 0 is the limit of k1 -> 0
        eps = 1e-6 * min([abs(v) for a in fr[1:] for v in a if v != 0] or [1.0 / c["L"]])
        if model == "Mann":
            G0 = np.asarray(k.precompute_Spectrum([np.array([0.0]), fr[1], fr[2]]))
            s = np.abs(G0).max(axis=(0, 1))
            for sgn in (1.0, -1.0):
                Ge = np.asarray(k.precompute_Spectrum([np.array([sgn * eps]), fr[1], fr[2]]))
                near = np.abs(Ge - G0).max(axis=(0, 1)) <= 1e-3 * s
                # excluded: k2 = k3 = 0, where the limit depends on the direction; and strong shear at k2 = 0
                y, z = np.meshgrid(fr[1], fr[2], indexing="ij")
                n = np.hypot(y, z)
                b = c["Gamma"] * ref.mann_tau(np.where(n > 0, n, 1.0) * c["L"])
                excl = (n == 0) | (y == 0) | (b * eps > 1e-4 * n) | (b * b * eps > 1e-5 * n)
                need(bool(np.all(near[0] | excl)), lambda: f"the kernel at k1 = 0 is not the limit of k1 = {sgn*eps:.3g}: max rel {np.max(np.where(excl, 0, (np.abs(Ge-G0).max(axis=(0,1))/(s+1e-300))[0])):.3g}")
        ctx.label(model, "fft" if c["fft"] else "free")
        return all(np.any(a != 0) for a in fr)

    return f


LIMIT = st.fixed_dictionaries(dict(CASE, big=logf(1.0, 1e4)))


def run_limit(c, ctx):
    """no shear: the sheared kernel is the isotropic one; amplitude and unit scaling"""
    fr = freq_axes(c)
    a = np.asarray(kern(c, "VK").precompute_Spectrum(fr))
    b = np.asarray(kern(c, "Mann", Gamma=1e-13).precompute_Spectrum(fr))
    s = np.abs(a).max(axis=(0, 1))
    K = np.linalg.norm(np.stack(np.meshgrid(*fr, indexing="ij"), axis=-1), axis=-1)
    tiny = 1e-13 * ref.mann_tau(np.where(K > 0, K, 1.0) * c["L"]) < 1e-7
    Pa, Pb = (np.einsum("ij...,kj...->ik...", g, g.conj()) for g in (a, b))
    need(bool(np.all((np.abs(Pa - Pb).max(axis=(0, 1)) <= 1e-5 * s**2 + 1e-300)[tiny])), "without shear the Mann tensor is not the von Karman tensor")
    for model in ("VK", "Mann"):
        g = np.asarray(kern(c, model).precompute_Spectrum(fr))
        h = np.asarray(kern(c, model, E0=c["E0"] * c["big"]).precompute_Spectrum(fr))
        P, Q = (np.einsum("ij...,kj...->ik...", x, x.conj()) for x in (g, h))
        need(close(Q.real, c["big"] * P.real, 1e-9, 1e-12 * np.abs(Q).max()), f"{model}: tensor is not proportional to the amplitude")
        u = c["big"]
        h = np.asarray(kern(c, model, L=c["L"] * u).precompute_Spectrum([f / u for f in fr]))
        Q = np.einsum("ij...,kj...->ik...", h, h.conj())
        need(close(Q.real, P.real * u ** (11 / 3), 1e-8, 1e-12 * np.abs(Q).max()), f"{model}: tensor does not scale with the unit of length")
    ctx.label("scaling")
    return True


def run_ndim(c, ctx):
    from drdmannturb.fluctuation_generation import MannCovariance, VonKarmanCovariance

    for C in (VonKarmanCovariance, MannCovariance):
        expect_raises((ValueError,), lambda: C(ndim=c["nd"], length_scale=c["L"], E0=1.0), f"{C.__name__} with ndim={c['nd']}")
    ctx.label(f"ndim={c['nd']}")
    return True


D = st.fixed_dictionaries(CASE)
SUBS = [Sub("vk", D, run("VK"), 400, 20000), Sub("mann", D, run("Mann"), 500, 20000), Sub("mann_fft", strat(D, fft=True), run("Mann"), 300, 12000), Sub("scaling", LIMIT, run_limit, 200, 8000),
        Sub("ndim", st.fixed_dictionaries(dict(nd=st.sampled_from([1, 2, 4, 5]), L=logf(0.1, 10))), run_ndim, 8, 20)]

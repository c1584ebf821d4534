"""C16 the DRD kernel."""
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.fields import AXES, freq_axes, root_invariants, saved
from vlib.harness import Sub, Violation

ID = "C16"
RULE = "non-trivial: learned lifetime with random weights on a grid with all three wave-vector components nonzero"

CASE = dict(
    AXES, L=logf(0.05, 20), Gamma=logf(0.05, 8), sigma=logf(0.05, 20), z=logf(0.2, 200), us=logf(0.1, 5), nlayers=st.integers(1, 3), acts=st.lists(st.sampled_from(["ReLU", "ReLU", "Tanh"]), min_size=1, max_size=2), width=st.integers(1, 6), tseed=st.integers(0, 999),
    dt=dtypes, net=logf(0.02, 0.6), learn_nu=st.booleans(), nu=unif(-0.6, 0.2), start=st.booleans(), u2=logf(0.1, 10), s2=logf(0.1, 10), path=st.booleans(), fseed=st.integers(0, 10**6),
)


def kernel(c, f, ctx, **over):
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

    c = dict(c, **over)
    os.chdir(ctx.tmpdir())
    L = c["L"] * c["z"]
    # a coarse box: the kernel itself is what is examined
    return FluctuationFieldGenerator(friction_velocity=c["us"], reference_height=c["z"], grid_dimensions=np.array([12.0, 4.0, 4.0]) * L * max(1.0, c["Gamma"]), grid_levels=np.array([1, 1, 1]),
                                     model="DRD", path_to_parameters=Path(f) if c["path"] else f, seed=c["fseed"], blend_num=0)


def tensor(fr, z, L, T, net, acts, energy=None):
    K = np.stack(np.meshgrid(*fr, indexing="ij"), axis=-1)
    n = np.linalg.norm(K, axis=-1)
    mats, nu = net_weights(net)
    beta = T * taunet_ref(mats, -1.0 / 3.0 if nu is None else nu, np.where(n[..., None] > 0, K, 1.0) * (z * L), acts)
    beta = np.where(n > 0, beta, 0.0)
    return ref.sheared_tensor(K, beta, 1.0, L * z, energy), beta


def run(c, ctx):
    with default_dtype(c["dt"]):
        f, (L, T, S), pb = saved(c, ctx)
        g = kernel(c, f, ctx)
        fr = freq_axes(dict(c, L=L * c["z"]))
        G = np.asarray(g.Covariance.precompute_Spectrum(fr), complex)
        Phi, beta = tensor(fr, c["z"], L, T, pb.OPS.tauNet, c["acts"])
        f64 = c["dt"] == "float64"
        if not f64:
            # single-precision lifetime: the error of the tensor grows with the shear
            rt = 2e-4 * (1 + beta.max()) ** 2
            if rt > 0.05:
                ctx.label("strong-shear-f32")
                need(bool(np.all(np.isfinite(G))), "non-finite kernel")
                return False
        else:
            rt = 1e-6
        ratio = root_invariants(G, fr, Phi, rt, need, "DRD", scale_free=True)
        # the constant: proportional to u*^2 and to the fitted amplitude
        if all(np.any(a != 0) for a in fr):
            r2 = root_invariants(np.asarray(kernel(c, f, ctx, us=c["us"] * c["u2"]).Covariance.precompute_Spectrum(fr), complex), fr, Phi, rt, need, "DRD", scale_free=True)
            need(abs(r2 / ratio / c["u2"] ** 2 - 1) < 1e-3, lambda: f"tensor grows by {r2/ratio} for a friction velocity times {c['u2']}")
            f3, _, pb3 = saved(c, ctx, sigma=c["sigma"] * c["s2"])
            r3 = root_invariants(np.asarray(kernel(c, f3, ctx).Covariance.precompute_Spectrum(fr), complex), fr, Phi, rt, need, "DRD", scale_free=True)
            need(abs(r3 / ratio / c["s2"] - 1) < 1e-3, lambda: f"tensor grows by {r3/ratio} for a fitted amplitude times {c['s2']}")
        ctx.label(c["dt"], "fft" if c["fft"] else "free", "refit" if c["start"] else "start")
        return all(np.any(a != 0) for a in fr)


def run_direct(c, ctx):
    """the kernel class itself, with scales of its own: its tensor carries exactly the given energy constant"""
    from drdmannturb.fluctuation_generation import NNCovariance

    with default_dtype("float64"):
        c = dict(c, start=False)
        f, (L, T, S), pb = saved(c, ctx)
        Ld, E0 = L * c["z"], c["E0"]
        ker = NNCovariance(ndim=3, length_scale=Ld, E0=E0, Gamma=T * c["s2"], ops=pb.OPS, h_ref=c["z"])
        fr = freq_axes(dict(c, L=Ld))
        keep = [a.copy() for a in fr]
        G = np.asarray(ker.precompute_Spectrum(fr), complex)
        need(all(np.array_equal(a, b) for a, b in zip(fr, keep)), "the frequencies were changed")
        Phi, beta = tensor(fr, c["z"], L, T * c["s2"], pb.OPS.tauNet, c["acts"])
        root_invariants(G, fr, E0 * Phi, 1e-6, need, "DRD kernel")
        expect_raises((ValueError,), lambda: NNCovariance(ndim=2, length_scale=Ld, E0=E0, Gamma=T, ops=pb.OPS, h_ref=c["z"]), "two dimensions")
        ctx.label("fft" if c["fft"] else "free")
        return all(np.any(a != 0) for a in fr)


DIRECT = st.fixed_dictionaries(dict(CASE, E0=wide(1e-2, 1e2)))
LEARN = st.fixed_dictionaries(dict(CASE, p=unif(2.5, 5.5), q=unif(2.3, 4.0)))


def run_learn(c, ctx):
    """models fitted with a learnable spectrum"""
    c = dict(c, learn=True)
    with default_dtype("float64"):
        f, (L, T, S), pb = saved(c, ctx)
        g = kernel(c, f, ctx)
        fr = freq_axes(dict(c, L=L * c["z"]))
        G = np.asarray(g.Covariance.precompute_Spectrum(fr), complex)
        p, q = pb.parameters[3:5]
        Phi, _ = tensor(fr, c["z"], L, T, pb.OPS.tauNet, c["acts"], energy=lambda x: ref.learnable_energy(x, p, q))
        try:
            root_invariants(G, fr, Phi, 1e-6, need, "DRD", scale_free=True)
            ctx.label("fitted-exponents")
        except Violation as e:
            Phi, _ = tensor(fr, c["z"], L, T, pb.OPS.tauNet, c["acts"])
            root_invariants(G, fr, Phi, 1e-6, need, "DRD", scale_free=True)
            ctx.known("learnable-spectrum", str(e))
        return True


D = st.fixed_dictionaries(CASE)
SUBS = [Sub("kernel64", strat(D, dt="float64"), run, 200, 8000), Sub("kernel64_fft", strat(D, dt="float64", fft=True), run, 200, 8000), Sub("kernel32", strat(D, dt="float32"), run, 150, 6000),
        Sub("direct", DIRECT, run_direct, 150, 6000), Sub("learnable", LEARN, run_learn, 25, 500)]

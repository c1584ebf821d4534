"""Helpers of the field-generation checks."""
import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from . import ref
from .common import *  # noqa: F403
from .common import logf, make_problem, rng, scramble_net, seeds, unif


def freq_axes(c):
    """three frequency axes: FFT grids or arbitrary increasing/shuffled sets, always including zero and a +- pair when possible"""
    r = rng(c["seed"])
    out = []
    for ax in range(3):
        n = int(c["n"][ax])
        if c["fft"]:
            L = c["L"] * float(np.exp(r.uniform(-1.5, 3)))
            out.append(2 * np.pi / L * (n * np.fft.fftfreq(n)))
        else:
            v = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + 2.3 * c["dec"], size=n)) / c["L"]
            v = np.concatenate([v, -v, [0.0]])
            out.append(v[r.permutation(len(v))])
    return out


AXES = dict(n=st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6)), fft=st.booleans(), lo=st.one_of(logf(1e-3, 30), logf(1e-3, 30), logf(30, 1e5)), dec=unif(0, 3), seed=seeds)


def root_invariants(G, fr, Phi, rt, need, what, scale_free=False):
    """G (3,3,nx,ny,nz) is a finite incompressible Hermitian root of Phi (nx,ny,nz,3,3)."""
    need(G.shape == (3, 3) + tuple(len(f) for f in fr), lambda: f"{what}: shape {G.shape}")
    need(bool(np.all(np.isfinite(G))), lambda: f"{what}: non-finite kernel values")
    K = np.stack(np.meshgrid(*fr, indexing="ij"), axis=-1)
    g = np.moveaxis(G, (0, 1), (-2, -1)).astype(complex)
    kn = np.linalg.norm(K, axis=-1)
    gn = np.sqrt(np.sum(np.abs(g) ** 2, axis=(-2, -1)))
    P = g @ np.conj(np.swapaxes(g, -1, -2))
    tr = np.trace(Phi, axis1=-2, axis2=-1)
    ratio = 1.0
    if scale_free:
        ratio = float(np.trace(P.real, axis1=-2, axis2=-1).sum() / tr.sum()) if tr.sum() > 0 else 1.0
        need(np.isfinite(ratio) and (ratio > 0 or tr.sum() == 0), lambda: f"{what}: kernel vanishes")
    dev = np.abs(P - ratio * Phi).max(axis=(-2, -1))
    bad = dev > rt * ratio * tr + 1e-300
    if bad.any():
        i = tuple(np.argwhere(bad)[np.argmax((dev / (ratio * tr + 1e-300))[bad])])
        need(False, lambda: f"{what}: G G* differs from the tensor at k={K[i]}: {P[i].real.tolist()} vs {(ratio*Phi[i]).tolist()} (rel {dev[i]/(ratio*tr[i]+1e-300):.3g})")
    div = np.abs(np.einsum("...i,...ij->...j", K, g)).max(axis=-1)
    need(bool(np.all(div <= 10 * rt * kn * gn + 1e-300)), lambda: f"{what}: kernel columns are not perpendicular to k: {np.max(div/(kn*gn+1e-300)):.3g}")
    z = kn == 0
    need(bool(np.all(gn[z] == 0)), lambda: f"{what}: kernel at k=0 is {g[z]}")
    # conjugate symmetry wherever -k is on the grid
    idx = []
    for f in fr:
        look = {v: i for i, v in enumerate(f)}
        idx.append(np.array([look.get(-v, look.get(0.0) if v == 0 else None) if True else None for v in f], dtype=object))
    ok = [np.array([i for i, v in enumerate(m) if v is not None], dtype=int) for m in idx]
    if all(len(o) for o in ok):
        a = g[np.ix_(*ok)]
        b = g[np.ix_(*[np.array([idx[d][i] for i in ok[d]], dtype=int) for d in range(3)])]
        s = np.abs(a).max(axis=(-2, -1)) + 1e-300
        need(bool(np.all(np.abs(b - a.conj()).max(axis=(-2, -1)) <= 1e-6 * s if rt < 1e-3 else True)), lambda: f"{what}: G(-k) is not the conjugate of G(k)")
    return ratio


# ------------------------------------------------------------------ generators
def make_gen(c, **over):
    """FluctuationFieldGenerator for VK/Mann from a case dict."""
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

    c = dict(c, **over)
    kw = dict(
        friction_velocity=c.get("us", 1.0), reference_height=c.get("zr", 1.0), grid_dimensions=np.array(c["dims"], float), grid_levels=np.array(c["lev"], dtype=int), model=c["model"],
        seed=c["fseed"], blend_num=c["blend"],
    )
    if c["model"] == "DRD":
        kw.update(path_to_parameters=c["path"])
    else:
        kw.update(length_scale=c["Ls"], time_scale=c["Ga"], energy_spectrum_scale=c.get("E0", 1.0))
    if c.get("conf2d") is not None:
        kw.update(config_2d_model=dict(c["conf2d"]))
    return FluctuationFieldGenerator(**kw)


def saved(c, ctx, **over):
    """(file, fitted scales, network) of a model as it comes out of a fit"""
    import torch

    c = dict(c, type="TAUNET", grid=(-2.0, 2.0, 6), **over)
    kw = dict(use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"]) if c.get("learn") else {}
    s = c
    if c["start"]:  # the fitted scales differ from the starting values
        s = dict(c, L=1.0, Gamma=1.0, sigma=1.0)
    pb = make_problem(s, ctx.tmpdir(), **kw)
    scramble_net(pb.OPS.tauNet, c["seed"], c["net"])
    if c["learn_nu"]:
        with torch.no_grad():
            for p in pb.OPS.tauNet.parameters():
                if p.numel() == 1 and p.dim() < 2:
                    p.fill_(c["nu"])
    v = pb.parameters.copy()
    v[:3] = np.log([c["L"], c["Gamma"], c["sigma"]])
    pb.parameters = v
    d = ctx.tmpdir()
    pb.save_model(d)
    f = [os.path.join(d, n) for n in os.listdir(d) if n.endswith(".pkl")][0]
    return f, np.exp(pb.parameters[:3]), pb


# box sizes are in units of the length scale so that buffers stay small
GENCASE = dict(
    model=st.sampled_from(["VK", "Mann"]), lev=st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)), box=st.tuples(unif(1.0, 6.0), unif(1.0, 4.0), unif(1.0, 4.0)),
    Ls=logf(0.1, 50), Ga=logf(0.1, 3.5), E0=logf(1e-2, 1e2), us=logf(0.1, 3), zr=logf(0.5, 100), fseed=st.integers(0, 2**31 - 1), blend=st.sampled_from([0, 1, 2, 3, 5, 10]), seed=seeds,
)


def with_box(c, ctx=None):
    c = dict(c)
    c["dims"] = [b * c["Ls"] for b in c["box"]]
    if c["model"] == "DRD":
        m = dict(L=c["Ls"] / c["zr"], Gamma=c["Ga"], sigma=c["E0"], seed=c["seed"], net=0.2, start=False, learn_nu=False, tseed=c["seed"] % 1000)
        c["path"], _sc, c["pb"] = saved(m, ctx)
        os.chdir(ctx.tmpdir())
    return c


def profile(kind, z, zref, uref, z0, a):
    if kind == "LOG":
        return uref * np.log(z / z0 + 1.0) / np.log(zref / z0)
    return uref * (z / zref) ** a


PROFILE = dict(prof=st.sampled_from(["LOG", "PL"]), zref=logf(1.0, 200), uref=logf(0.1, 40), z0=logf(1e-4, 0.5), plexp=st.one_of(unif(0.05, 1.5), st.just(0.0), st.just(1)))


def gen_args(p):
    """positional/keyword arguments of generate() after num_blocks"""
    return dict(zref=p["zref"], uref=p["uref"], z0=p["z0"], windprofiletype=p["prof"], plexp=p["plexp"] if p["prof"] == "PL" else None)


def strip_profile(field, dims, p):
    """field minus the mean profile"""
    nz = field.shape[2]
    z = np.linspace(0.0, dims[2], nz)
    out = np.array(field, dtype=float, copy=True)
    out[..., 0] -= profile(p["prof"], z, p["zref"], p["uref"], p["z0"], p["plexp"])[None, None, :]
    return out


@contextlib.contextmanager
def in_dir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


_ = ref

"""C20 second-order statistics and seams of the generated wind."""
import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.fields import GENCASE, gen_args, make_gen, strip_profile, with_box
from vlib.harness import Sub

ID = "C20"
RULE = ("non-trivial: exact covariance compared on a grid with at least 8 modes per component; ensemble/seam/independence statistics pooled over at least 40 generated fields each")

P = dict(prof="LOG", zref=10.0, uref=1.0, z0=0.1, plexp=0.2)


def tau_of(c, ctx_path=None):
    """numpy lifetime of the model of the case (physical wave vectors)"""
    L = c["Ls"]
    if c["model"] == "VK":
        return lambda K: np.zeros(K.shape[:-1])
    if c["model"] == "Mann":
        def f(K):
            n = np.linalg.norm(K, axis=-1)
            return np.where(n > 0, c["Ga"] * ref.mann_tau(np.where(n > 0, n, 1.0) * L), 0.0)
        return f
    pb = c["pb"]
    mats, nu = net_weights(pb.OPS.tauNet)
    Lf, Tf = np.exp(pb.parameters[:2])

    def f(K):
        n = np.linalg.norm(K, axis=-1)
        b = Tf * taunet_ref(mats, -1.0 / 3.0 if nu is None else nu, np.where(n[..., None] > 0, K, 1.0) * (Lf * c["zr"]))
        return np.where(n > 0, b, 0.0)
    return f


def spacing(c):
    return np.array(c["dims"]) / (2.0 ** np.array(c["lev"]) + 1)


def grid_tensor(c, N):
    h = spacing(c)
    K = np.stack(np.meshgrid(*[2 * np.pi * np.fft.fftfreq(N[j], h[j]) for j in range(3)], indexing="ij"), axis=-1)
    return K, ref.sheared_tensor(K, tau_of(c)(K), 1.0, c["Ls"])


CASE = st.fixed_dictionaries(GENCASE)


def run_cov(c, ctx):
    """exact covariance from impulse responses"""
    c = with_box(c, ctx)
    c["Ga"] = min(c["Ga"], 2.0)
    g = make_gen(c)
    N = tuple(int(v) for v in g.RF.grid_shape)
    if np.prod(N) > 60000:
        ctx.label("too-large")
        return False
    r = rng(c["seed"])
    pos = tuple(int(r.integers(0, n)) for n in N)
    H = []
    for l_ in range(3):
        e = np.zeros(N + (3,))
        e[pos + (l_,)] = 1.0
        H.append(np.fft.fftn(np.asarray(g.RF.sample(e), float), axes=(0, 1, 2)))
    C = sum(h[..., :, None] * np.conj(h[..., None, :]) for h in H)
    K, Phi = grid_tensor(c, N)
    ok = np.ones(N, dtype=bool)
    for ax in range(3):
        if N[ax] % 2 == 0:
            s = [slice(None)] * 3
            s[ax] = N[ax] // 2
            ok[tuple(s)] = False
    tr = np.trace(Phi, axis1=-2, axis2=-1)
    ratio = np.trace(C.real, axis1=-2, axis2=-1)[ok].sum() / tr[ok].sum()
    need(np.isfinite(ratio) and ratio > 0, "no field")
    dev = np.abs(C - ratio * Phi).max(axis=(-2, -1)) / ratio
    lim = 2e-3 * tr + 3e-5 * tr[ok].max()
    bad = (dev > lim) & ok
    if bad.any():
        i = tuple(np.argwhere(bad)[np.argmax((dev / lim)[bad])])
        fail(f"{c['model']}: spectral covariance of the field at k={K[i]} is {(C[i]/ratio).round(12).tolist()}, the model's tensor {Phi[i].tolist()}")
    kn = np.linalg.norm(K, axis=-1)
    for h in H:
        d = np.abs(np.einsum("...i,...i->...", K, h))
        s = np.linalg.norm(h, axis=-1)
        need(bool(np.all((d <= 1e-3 * kn * s + 2e-5 * kn * s[ok].max())[ok])), "Fourier modes of the field are not perpendicular to the wave vector")
    ctx.label(c["model"])
    return int(ok.sum()) >= 8


def stats(f):
    """products of components at lags 0 and one cell in each direction"""
    out = []
    for i in range(3):
        for j in range(i, 3):
            out.append(np.mean(f[..., i] * f[..., j]))
    for ax in range(3):
        if f.shape[ax] < 2:
            continue
        a = np.take(f, range(0, f.shape[ax] - 1), axis=ax)
        b = np.take(f, range(1, f.shape[ax]), axis=ax)
        for i in range(3):
            for j in range(3):
                out.append(np.mean(a[..., i] * b[..., j]))
    return np.array(out)


ENS = st.fixed_dictionaries(dict(GENCASE, lev=st.tuples(st.integers(3, 4), st.integers(2, 3), st.integers(2, 3)), box=st.tuples(unif(2.0, 6.0), unif(1.0, 3.0), unif(1.0, 3.0)), Ga=logf(0.5, 3)))


def run_ens(c, ctx):
    """generated blocks against an own simulation of the same model"""
    c = with_box(c, ctx)
    n = tuple(2 ** v + 1 for v in c["lev"])
    A, N = [], None
    M = 60
    for s in range(M):
        g = make_gen(c, fseed=(c["fseed"] + 7919 * s) % 2**31)
        N = tuple(int(v) for v in g.RF.grid_shape)
        f = strip_profile(g.generate(2, **gen_args(P)), c["dims"], P)
        A.append(0.5 * (stats(f[: n[0]]) + stats(f[n[0] :])))
    K, Phi = grid_tensor(c, N)
    # symmetric square root as independent factor
    w, V = np.linalg.eigh(Phi)
    G = V * np.sqrt(np.maximum(w, 0))[..., None, :]
    r = rng(c["seed"])
    B = []
    for s in range(3 * M):
        x = r.normal(size=N + (3,)) + 1j * r.normal(size=N + (3,))
        y = np.fft.ifftn(np.einsum("...ij,...j->...i", G, x), axes=(0, 1, 2))
        for part in (y.real, y.imag):
            blk = part[: n[0], : n[1], : n[2]]
            B.append(stats(blk / np.sqrt(np.mean(blk**2))))
    A, B = np.array(A), np.array(B)
    z = (A.mean(0) - B.mean(0)) / np.sqrt(A.var(0, ddof=1) / len(A) + B.var(0, ddof=1) / len(B) + 1e-12)
    i = int(np.argmax(np.abs(z)))
    need(abs(z[i]) < 7, lambda: f"{c['model']}: statistic {i} of {len(z)} of the generated wind is {A.mean(0)[i]:.4f}, the model gives {B.mean(0)[i]:.4f} (z={z[i]:.1f})")
    ctx.label(c["model"])
    return True


SEAM = st.fixed_dictionaries(dict(GENCASE, lev=st.tuples(st.integers(3, 4), st.integers(1, 3), st.integers(1, 3)), box=st.tuples(unif(1.0, 3.0), unif(1.0, 2.0), unif(1.0, 2.0)), Ga=logf(0.5, 2.5), split=st.booleans()))


def fields(c, seeds_, nb, split=False):
    for s in seeds_:
        g = make_gen(c, fseed=(c["fseed"] + 104729 * s) % 2**31)
        if split:
            for b in range(nb):
                f = g.generate(1, **gen_args(P))
        else:
            f = g.generate(nb, **gen_args(P))
        yield strip_profile(f, c["dims"], P)


def rho(a, b):
    return float(np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b)))


def run_seam(c, ctx):
    """decorrelation from plane to plane is the same across seams as inside blocks"""
    c = with_box(c, ctx)
    nx = 2 ** c["lev"][0] + 1
    nb = 5
    S, A = [], []
    for f in fields(c, range(40), nb, c["split"]):
        S += [rho(f[b * nx - 1], f[b * nx]) for b in range(1, nb)]
        A += [rho(f[b * nx + x], f[b * nx + x + 1]) for b in range(nb) for x in range(nx - 1)]
    s, a = 1 - np.mean(S), 1 - np.mean(A)
    need(0.55 < s / a < 1.6, lambda: f"{c['model']} blend={c['blend']} calls={'many' if c['split'] else 'one'}: decorrelation over one cell is {s:.4f} across the seams, {a:.4f} inside blocks")
    ctx.label(c["model"], f"blend={c['blend']}", "split" if c["split"] else "one-call")
    return True


FAR = st.fixed_dictionaries(dict(GENCASE, lev=st.tuples(st.integers(3, 4), st.integers(1, 2), st.integers(1, 2)), box=st.tuples(unif(3.0, 6.0), unif(1.0, 3.0), unif(1.0, 3.0)), Ga=logf(0.3, 1.2)))


def next_block(c, g):
    """covariance (per component, relative to the mean variance) at equal places of consecutive blocks, when the noise
    window moves by one block and receives new noise at its end"""
    N = tuple(int(v) for v in g.RF.grid_shape)
    nx = 2 ** c["lev"][0] + 1
    H = []
    for l_ in range(3):
        e = np.zeros(N + (3,))
        e[0, 0, 0, l_] = 1.0
        H.append(np.asarray(g.RF.sample(e), float))
    H = np.stack(H)
    b0 = (N[0] - nx - max(c["blend"] - 1, 0)) // 2
    rows = (b0 + np.arange(nx))[:, None] - np.arange(nx, N[0])[None, :]
    a = np.sum(H * np.roll(H, -nx, axis=1), axis=(0, 2, 3))
    return a[rows % N[0]].sum(axis=1).mean(axis=0) / (np.sum(H**2) / 3)


def run_far(c, ctx):
    """blocks further apart than the noise window are independent, and every block has new noise"""
    c = with_box(c, ctx)
    nx = 2 ** c["lev"][0] + 1
    nb = -(-int(make_gen(c).RF.grid_shape[0]) // nx) + 2
    nb = max(nb, 4)
    Q, X = [], []
    for f in fields(c, range(48), nb):
        b = [f[i * nx : (i + 1) * nx] for i in range(nb)]
        Q.append([np.mean(b[0] * b[-1]), np.mean(b[0] * np.flip(b[-1], 0))])
        need(abs(rho(b[0], b[-1])) < 0.995, "a block returns later")
        X.append(np.mean(b[-2] * b[-1], axis=(0, 1, 2)))
    X, e = np.array(X), next_block(c, make_gen(c))
    se = X.std(0, ddof=1) / np.sqrt(len(X))
    d = np.abs(X.mean(0) - e)
    need(bool(np.all(d <= 0.08 + 7 * se)), lambda: f"{c['model']} blend={c['blend']}: covariance of blocks {nb-2} and {nb-1} at equal places {X.mean(0).round(3)} (+-{se.round(3)}), expected {e.round(3)}")
    Q = np.array(Q)
    z = Q.mean(0) / (Q.std(0, ddof=1) / np.sqrt(len(Q)) + 1e-12)
    need(bool(np.all(np.abs(z) < 7)), lambda: f"{c['model']} blend={c['blend']}: blocks 0 and {nb-1} are correlated: {Q.mean(0)} (z={z})")
    ctx.label(c["model"], f"gap={nb-1}")
    return True


SUBS = [Sub("covariance_" + m, strat(CASE, model=m), run_cov, 40, 1500) for m in ("VK", "Mann", "DRD")] + [
    Sub("ensemble_" + m, strat(ENS, model=m), run_ens, 3, 60, budget=20.0) for m in ("VK", "Mann", "DRD")] + [
    Sub("seam_" + m, strat(SEAM, model=m), run_seam, 6, 150, budget=20.0) for m in ("VK", "Mann", "DRD")] + [
    Sub("distant_" + m, strat(FAR, model=m), run_far, 8, 160, budget=20.0) for m in ("VK", "Mann", "DRD")]

"""C23 low-frequency field."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.lowfreq import PHYS, comp_points, config, norm_c, phi, shrink_grid

ID = "C23"
RULE = "non-trivial: at least 100 independent modes away from zero and Nyquist wave numbers"

ALT = dict(sigma2=logf(0.05, 20), psi=unif(0.05, 1.52), zi=logf(20.0, 3000.0))
CASE = st.fixed_dictionaries(dict(
    PHYS, f1=logf(0.3, 12), r2=logf(0.2, 4), e1=st.integers(2, 6), e2=st.integers(2, 6), eq=st.booleans(), seed=st.integers(0, 2**31 - 1), alt=st.fixed_dictionaries(ALT), fL=logf(0.3, 1.0), viaseed=st.booleans()))


def make(conf, seed=None):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    return LowFreqGenerator(conf, seed=seed)


def full(g):
    return np.asarray(g.u1_full, float), np.asarray(g.u2_full, float)


def inner(N1, N2):
    """modes other than zero and Nyquist"""
    ok = np.ones((N1, N2), bool)
    ok[0, 0] = False
    if N1 % 2 == 0:
        ok[N1 // 2, :] = False
    if N2 % 2 == 0:
        ok[:, N2 // 2] = False
    return ok


def modes(g):
    return tuple(np.fft.fft2(u) for u in full(g))


def checked(g, c, ctx):
    """generate and check every invariant of a single realization; returns the modes"""
    a = g.generate()
    need(np.array_equal(a[0], g.u1) and np.array_equal(a[1], g.u2), "returned and stored fields differ")
    u, v = full(g)
    N1, N2 = u.shape
    need((N1, N2) == (g.comp_N1, g.comp_N2), "full field does not have the size of the computational grid")
    need(bool(np.all(np.isfinite(u)) and np.all(np.isfinite(v))), "non-finite field")
    rms = np.sqrt(np.mean(u**2 + v**2))
    need(rms > 0, "the field vanishes")
    for i, w in enumerate((u, v)):
        need(abs(w.mean()) <= 1e-9 * rms, lambda: f"component {i} has mean {w.mean()} (rms {rms})")
    U, V = modes(g)
    d = min(c["f1"] * c["L"] / 2 ** c["e1"], c["f2"] * c["L"] / 2 ** c["e2"])
    k1 = 2 * np.pi * np.fft.fftfreq(N1, d)[:, None]
    k2 = 2 * np.pi * np.fft.fftfreq(N2, d)[None, :]
    ok = inner(N1, N2)
    div = np.abs(k1 * U + k2 * V)
    lim = 1e-8 * np.hypot(k1, k2) * np.sqrt((np.abs(U) ** 2 + np.abs(V) ** 2)) + 1e-9 * np.hypot(k1, k2) * np.abs(U[ok]).max(initial=0)
    bad = (div > lim) & ok
    need(not bad.any(), lambda: f"mode {np.argwhere(bad)[0]} is not perpendicular to its wave vector")
    # the part handed to the user
    n1, n2 = 2 ** c["e1"], 2 ** c["e2"]
    need(np.shape(g.u1) == (n1, n2) == np.shape(g.u2), lambda: f"returned shape {np.shape(g.u1)}, requested {(n1, n2)}")
    d1, d2 = c["f1"] * c["L"] / n1, c["f2"] * c["L"] / n2
    s1, s2 = (N1 - n1) // 2, (N2 - n2) // 2
    dense = [w[s1 : s1 + n1, s2 : s2 + n2] for w in (u, v)]
    if abs(d1 / d2 - 1) < 1e-9:
        for i, (w, g_) in enumerate(zip((u, v), (g.u1, g.u2))):
            # centred: the margins on both sides differ by at most one cell
            hit = [(a_, b_) for a_ in {s1, s1 + (N1 - n1) % 2} for b_ in {s2, s2 + (N2 - n2) % 2} if np.array_equal(w[a_ : a_ + n1, b_ : b_ + n2], g_)]
            need(bool(hit), f"component {i}: the returned field is not the centred part of the full field")
        ctx.label("equal-spacing")
    else:
        same = all(np.array_equal(a_, b_) for a_, b_ in zip(dense, (g.u1, g.u2)))
        if same:
            ctx.known("spacing", f"spacings {d1} x {d2} requested, the returned points are {d} apart in both directions")
        else:
            # points at the requested spacing: linear interpolation of the full field around its centre reproduces them
            ok2 = False
            for o1 in (0.0, 0.5, -0.5, 1.0, -1.0):
                for o2 in (0.0, 0.5, -0.5, 1.0, -1.0):
                    x = (N1 * d - n1 * d1) / 2 + d * o1 + np.arange(n1) * d1
                    y = (N2 * d - n2 * d2) / 2 + d * o2 + np.arange(n2) * d2
                    from scipy.ndimage import map_coordinates

                    X, Y = np.meshgrid(x / d, y / d, indexing="ij")
                    e = map_coordinates(u, [X, Y], order=1, mode="grid-wrap")
                    ok2 |= bool(np.sqrt(np.mean((e - g.u1) ** 2)) < 0.3 * rms)
            need(ok2, "the returned field is neither the centred part nor a resampling of the full field")
        ctx.label("different-spacing")
    return U, V, k1, k2, ok


def prep(c):
    c = dict(c, f2=c["f1"] * c["r2"])
    if c["eq"]:
        c["f2"] = c["f1"] * 2.0 ** (c["e2"] - c["e1"])
    c = shrink_grid(c, 20000)
    if c["eq"]:
        c["f2"] = c["f1"] * 2.0 ** (c["e2"] - c["e1"])
    while comp_points(c) > 40000 and c["e1"] > 1 and c["e2"] > 1:
        c["e1"] -= 1
        c["e2"] -= 1
    return c


def run(c, ctx):
    c = prep(c)
    conf = config(c)
    if c["viaseed"]:
        g = make(conf, c["seed"])
    else:
        g = make(conf)
        np.random.seed(c["seed"])
    U, V, k1, k2, ok = checked(g, c, ctx)
    # absolute level, pooled over the modes
    C = norm_c(c["sigma2"], c["L"], c["zi"])
    p11, p22 = phi(k1, k2, C, c["L"], c["psi"], c["zi"])
    N = U.size
    d = min(c["f1"] * c["L"] / 2 ** c["e1"], c["f2"] * c["L"] / 2 ** c["e2"])
    area = N * d * d
    exp = (p11 + p22) * (2 * np.pi) ** 2 / area * N**2  # expected |FFT|^2
    q = ((np.abs(U) ** 2 + np.abs(V) ** 2) / np.where(exp > 0, exp, 1.0))[ok]
    m = q.size / 2
    if m >= 100:
        need(abs(q.mean() - 1) < 6.5 / np.sqrt(m) + 22.0 / m, lambda: f"mean mode energy is {q.mean():.4f} of the spectrum's (over {m:.0f} independent modes)")
        # the same separately along rays: small and large wave numbers, k1 and k2 dominated
        kk = np.hypot(k1, k2)[ok]
        ang = (np.abs(k1) > np.abs(k2))[ok] if N else None
        for sel in (kk < np.median(kk), kk >= np.median(kk), ang, ~ang):
            mm = sel.sum() / 2
            if mm >= 60:
                need(abs(q[sel].mean() - 1) < 6.5 / np.sqrt(mm) + 22.0 / mm, lambda: f"mode energies in a sector are {q[sel].mean():.4f} of the spectrum's ({mm:.0f} modes)")
    # same noise, other parameters: exact ratios
    alt = dict(c, **c["alt"])
    pairs = [("sigma2/psi/z_i", alt)]
    if c["f1"] >= 5 and c["f2"] >= 5:
        L2 = c["L"] * c["fL"]
        pairs.append(("L", dict(c, L=L2, f1=c["f1"] * c["L"] / L2, f2=c["f2"] * c["L"] / L2)))
    for what, a in pairs:
        if c["viaseed"]:
            h = make(config(a), c["seed"])
        else:
            h = make(config(a))
            np.random.seed(c["seed"])
        if (h.comp_N1, h.comp_N2) != (g.comp_N1, g.comp_N2):
            continue
        U2, V2, *_ = checked(h, a, ctx)
        C2 = norm_c(a["sigma2"], a["L"], a["zi"])
        q11, q22 = phi(k1, k2, C2, a["L"], a["psi"], a["zi"])
        with np.errstate(divide="ignore", invalid="ignore"):
            t = np.sqrt((q11 + q22) / (p11 + p22))
        for n_, A, B, P in (("u1", U, U2, p11), ("u2", V, V2, p22)):
            sel = ok & (P > 1e-12 * P[ok].max()) & (np.abs(A) > 1e-6 * np.abs(A).max())
            err = np.abs(B - t * A)[sel] / np.abs(t * A)[sel]
            need(err.size == 0 or err.max() < 1e-5, lambda: f"{n_}: with {what} changed and the same noise, mode amplitudes change by another factor than the spectrum (rel {err.max():.3g})")
        ctx.label("ratio:" + what)
    return m >= 100


REP = st.fixed_dictionaries(dict(PHYS, f1=logf(0.5, 8), r2=logf(0.3, 3), e1=st.integers(2, 5), e2=st.integers(2, 5), eq=st.booleans(), seed=st.integers(0, 2**31 - 1), n=st.integers(2, 4)))


def run_rep(c, ctx):
    """repeated generation and seeds"""
    c = prep(c)
    conf = config(c)
    g = make(conf, c["seed"])
    h = make(conf, c["seed"])
    F = []
    for i in range(c["n"]):
        U, V, *_ = checked(g, c, ctx)
        F.append(np.array(g.u1, copy=True))
    for i in range(c["n"]):
        np.random.seed(i)  # a seeded generator does not use the global stream
        h.generate()
        need(np.array_equal(h.u1, F[i]), "equal seeds give different sequences of fields")
    for i in range(c["n"]):
        for j in range(i):
            need(not np.allclose(F[i], F[j], atol=1e-6 * np.abs(F[i]).max()), "repeated generation returns the same field")
    k = make(conf, (c["seed"] + 1) % 2**31)
    k.generate()
    need(not np.allclose(k.u1, F[0], atol=1e-6 * np.abs(F[0]).max()), "another seed gives the same field")
    need(np.array_equal(np.asarray(g.u1), F[-1]), "a later generator changed the field of an earlier one")
    ctx.label("repeat")
    return True


VAR = st.fixed_dictionaries(dict(PHYS, e1=st.integers(5, 6), e2=st.integers(5, 6), fine=unif(0.5, 2.0), seed=st.integers(0, 2**31 - 1)))


def run_var(c, ctx):
    """summed mode energies: variance of the field over several realizations"""
    c = dict(c, f1=c["fine"] * 8, f2=c["fine"] * 8 * 2.0 ** (c["e2"] - c["e1"]))
    if min(c["f1"], c["f2"]) < 5:
        s = 5.0 / min(c["f1"], c["f2"])
        c["f1"] *= s
        c["f2"] *= s
    g = make(config(c), c["seed"])
    d = c["f1"] * c["L"] / 2 ** c["e1"]
    N1, N2 = g.comp_N1, g.comp_N2
    k1 = 2 * np.pi * np.fft.fftfreq(N1, d)[:, None]
    k2 = 2 * np.pi * np.fft.fftfreq(N2, d)[None, :]
    ok = inner(N1, N2)
    p = phi(k1, k2, norm_c(c["sigma2"], c["L"], c["zi"]), c["L"], c["psi"], c["zi"])
    R = 12
    got = np.zeros(2)
    for _ in range(R):
        g.generate()
        for i, w in enumerate(modes(g)):
            got[i] += (np.abs(w[ok]) ** 2).sum() / (N1 * N2) ** 2 / R
    for i in range(2):
        E = p[i][ok] * (2 * np.pi) ** 2 / (N1 * N2 * d * d)
        s = np.sqrt(2 * np.sum(E**2) / R)  # conjugate pairs
        need(abs(got[i] - E.sum()) < 7 * s, lambda: f"component {i}: variance {got[i]:.5g}, the spectrum gives {E.sum():.5g} +- {s:.2g}")
    ctx.label("variance")
    return True


PIN = dict(sigma2=0.6, L=15000.0, psi=0.75, zi=500.0, f1=8.0, r2=0.5, e1=5, e2=6, eq=False, seed=5, alt=dict(sigma2=1.0, psi=0.5, zi=300.0), fL=0.9, viaseed=True)
SUBS = [Sub("modes_a", strat(CASE, eq=True), run, 60, 2500), Sub("modes_b", strat(CASE, eq=True), run, 60, 2500), Sub("modes_c", strat(CASE, viaseed=True), run, 60, 2500, pinned=[PIN]), Sub("modes_d", CASE, run, 60, 2500),
        Sub("repeat", REP, run_rep, 60, 1500), Sub("variance", VAR, run_var, 25, 600)]

"""C25 interpolation and spectrum estimation."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.lowfreq import PHYS, bilinear, config

ID = "C25"
RULE = "non-trivial: targets both inside and outside the domain, off the grid points (interpolation); fields with at least four wave numbers (estimation)"

GRID = dict(PHYS, L=wide(200.0, 1e5, 1e2), f1=logf(0.2, 20), f2=logf(0.2, 20), e1=st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 8)), e2=st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 8)), seed=seeds, amp=wide(1e-3, 1e3))


def make(c):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    g = LowFreqGenerator(config(c))
    r = rng(c["seed"])
    n = (2 ** c["e1"], 2 ** c["e2"])
    g.u1, g.u2 = c["amp"] * r.normal(size=n), c["amp"] * (0.5 + r.normal(size=n))
    return g


def size_ok(c):
    from vlib.lowfreq import shrink_grid

    return shrink_grid(c, 1e5)


CASE = st.fixed_dictionaries(dict(GRID, n1=st.one_of(st.integers(1, 8), st.integers(9, 60)), n2=st.one_of(st.integers(1, 8), st.integers(9, 60)), kind=st.sampled_from(["random", "grid", "outside", "mixed"]), order=st.booleans()))


def run(c, ctx):
    c = size_ok(c)
    g = make(c)
    L = [c["f1"] * c["L"], c["f2"] * c["L"]]
    n = [2 ** c["e1"], 2 ** c["e2"]]
    ax = [np.arange(n[i]) * (L[i] / n[i]) for i in range(2)]
    r = rng(c["seed"] + 1)
    T = []
    for i, m in enumerate((c["n1"], c["n2"])):
        if c["kind"] == "grid":
            t = np.asarray((g.user_x_coords, g.user_y_coords)[i])[r.integers(0, n[i], size=m)]
        elif c["kind"] == "random":
            t = r.uniform(0, ax[i][-1], size=m)
        elif c["kind"] == "outside":
            t = np.where(r.uniform(size=m) < 0.5, -r.uniform(1e-3, 3, size=m) * L[i], L[i] * r.uniform(1, 4, size=m))
        else:
            t = r.uniform(-0.7, 1.7, size=m) * L[i]
        T.append(np.sort(t) if c["order"] else t)
    keep = [g.u1.copy(), g.u2.copy()]
    got = g.interp_slice(*T)
    need(np.array_equal(g.u1, keep[0]) and np.array_equal(g.u2, keep[1]), "the field was modified")
    for i, u in enumerate(keep):
        e, full, edge = bilinear(ax[0], ax[1], u, *T)
        need(np.shape(got[i]) == e.shape, lambda: f"shape {np.shape(got[i])}, targets {e.shape}")
        tol = 1e-9 * np.abs(u).max()
        bad = ~((np.abs(got[i] - e) <= tol) | (edge & ((np.abs(got[i] - full) <= tol) | (np.abs(got[i]) <= tol))))
        if c["kind"] == "grid":
            bad |= np.abs(got[i] - full) > tol
        if bad.any():
            q = tuple(np.argwhere(bad)[0])
            fail(f"component {i} at ({T[0][q[0]]:.6g}, {T[1][q[1]]:.6g}) of domain {L}: {got[i][q]:.6g}, bilinear {e[q]:.6g}")
    ctx.label(c["kind"])
    return c["kind"] in ("random", "mixed")


SPEC = st.fixed_dictionaries(dict(GRID, wave=st.booleans(), m1=st.integers(0, 16), m2=st.integers(0, 16)))


def run_spec(c, ctx):
    c = size_ok(c)
    g = make(c)
    n1, n2 = 2 ** c["e1"], 2 ** c["e2"]
    L1 = c["f1"] * c["L"]
    if c["wave"]:
        # a single plane wave carries its variance at its own wave number
        m1, m2 = c["m1"] % (n1 // 2 + 1), c["m2"] % n2
        x, y = np.arange(n1)[:, None] / n1, np.arange(n2)[None, :] / n2
        g.u1 = c["amp"] * np.cos(2 * np.pi * (m1 * x + m2 * y) + 0.7)
    keep = [g.u1.copy(), g.u2.copy()]
    k, F11, F22 = g.compute_spectrum()
    need(np.array_equal(g.u1, keep[0]) and np.array_equal(g.u2, keep[1]), "the field was modified")
    exp_k = 2 * np.pi / L1 * np.arange(1, n1 // 2 + 1)
    need(np.shape(k) == exp_k.shape and close(k, exp_k, 1e-9), lambda: f"wave numbers {k}, expected {exp_k}")
    for i, (u, F) in enumerate(zip(keep, (F11, F22))):
        P = np.abs(np.fft.fft2(u)) ** 2 / (n1 * n2) ** 2  # contribution of each mode to the variance
        row = P.sum(axis=1)
        e = row[1 : n1 // 2 + 1] * L1 / (2 * np.pi)
        tol = 1e-9 * (e.max() + P.sum() * L1 * 1e-6)
        need(np.shape(F) == e.shape and bool(np.all(np.isfinite(F))), "shape or values")
        bad = np.abs(F - e) > tol + 1e-7 * e
        if bad[:-1].any():
            q = int(np.argwhere(bad[:-1])[0][0])
            fail(f"F{i+1}{i+1} at wave number {q+1}: {F[q]:.8g}, periodogram {e[q]:.8g}")
        if bad[-1]:
            if F[-1] == 0.0:
                ctx.known("nyquist-zero", f"F{i+1}{i+1} at the Nyquist wave number is 0, periodogram {e[-1]:.6g}")
            else:
                fail(f"F{i+1}{i+1} at the Nyquist wave number: {F[-1]:.8g}, periodogram {e[-1]:.8g}")
        # Parseval: both signs of k1, the k1 = 0 line and the Nyquist line give the mean square
        dk = 2 * np.pi / L1
        tot = 2 * dk * np.sum(F[:-1]) + row[0] + row[n1 // 2]
        ms = np.mean(u**2)
        need(abs(tot - ms) <= 1e-6 * ms, lambda: f"component {i}: spectrum integrates to {tot}, mean square {ms}")
    ctx.label("wave" if c["wave"] else "random")
    return n1 >= 8


def run_early(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    g = LowFreqGenerator(config(size_ok(c)))
    expect_raises((RuntimeError,), g.compute_spectrum, "compute_spectrum before generate")
    expect_raises((RuntimeError,), lambda: g.interp_slice(np.zeros(1), np.zeros(1)), "interp_slice before generate")
    ctx.label("early")
    return False


REAL = st.fixed_dictionaries(dict(GRID, fseed=st.integers(0, 2**31 - 1)))


def run_real(c, ctx):
    """on generated fields"""
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    c = size_ok(c)
    g = LowFreqGenerator(config(c), seed=c["fseed"])
    g.generate()
    a = g.interp_slice(g.user_x_coords, g.user_y_coords)
    for i, u in enumerate((g.u1, g.u2)):
        need(np.shape(a[i]) == u.shape and bool(np.all(np.abs(a[i] - u) <= 1e-9 * np.abs(u).max())), "interpolation at the grid points does not reproduce the field")
    n1 = u.shape[0]
    k, F11, F22 = g.compute_spectrum()
    dk = 2 * np.pi / (c["f1"] * c["L"])
    for u, F in ((g.u1, F11), (g.u2, F22)):
        row = (np.abs(np.fft.fft2(u)) ** 2).sum(axis=1) / u.size**2
        tot = 2 * dk * np.sum(F[:-1]) + row[0] + row[n1 // 2]
        need(abs(tot - np.mean(u**2)) <= 1e-6 * np.mean(u**2), "Parseval on a generated field")
    ctx.label("generated")
    return True


SUBS = [Sub("interpolation", CASE, run, 400, 15000), Sub("estimation", SPEC, run_spec, 250, 8000), Sub("before_generation", st.fixed_dictionaries(GRID), run_early, 10, 50), Sub("generated", REAL, run_real, 60, 1500)]

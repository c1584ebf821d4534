"""C22 low-frequency grids."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.lowfreq import PHYS, config, shrink_grid

ID = "C22"
RULE = "non-trivial: anisotropic request (different spacings) or a domain smaller than five length scales in some direction"

fac = st.one_of(logf(0.05, 60), st.sampled_from([0.125, 0.5, 1.0, 1.3, 2.0, 4.0, 5.0, 5.1, 16.0, 40.0]), st.integers(1, 40))
CASE = st.fixed_dictionaries(dict(PHYS, L=wide(200.0, 1e5, 1e3), f1=fac, f2=fac, e1=st.integers(1, 10), e2=st.integers(1, 10), Lint=st.booleans()))


def run(c, ctx):
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

    c = shrink_grid(c, c.get("limit", 4e5))
    if c["Lint"]:
        c["L"] = max(1, int(round(c["L"])))
    conf = config(c)
    keep = dict(conf)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        g = LowFreqGenerator(conf)
    need(conf == keep, "the configuration was modified")
    L = c["L"]
    u = [c["f1"] * L, c["f2"] * L]
    n = [2 ** c["e1"], 2 ** c["e2"]]
    d = [u[i] / n[i] for i in range(2)]
    dm = min(d)
    small = any(v < 5 * L * (1 - 1e-12) for v in u)
    border = any(abs(v - 5 * L) <= 1e-9 * L for v in u)
    warned = any(issubclass(x.category, UserWarning) for x in w)
    if not border:
        need(warned == small, lambda: f"domain {u} with L={L}: warning={warned}")
    need((g.user_N1, g.user_N2) == tuple(n), lambda: f"user points {g.user_N1, g.user_N2}, requested {n}")
    need(close([g.user_L1, g.user_L2], u, 1e-12), "user lengths")
    need(close([g.user_dx, g.user_dy], d, 1e-12), "user spacings")
    for ax, (x, m) in enumerate(((g.user_x_coords, g.X), (g.user_y_coords, g.Y))):
        e = np.arange(n[ax]) * d[ax]
        need(np.shape(x) == (n[ax],) and bool(np.all(np.abs(x - e) <= 1e-9 * u[ax])), f"user coordinates along axis {ax}")
        need(np.shape(m) == tuple(n) and np.array_equal(m, np.broadcast_to(e[:, None] if ax == 0 else e[None, :], n)) or bool(np.all(np.abs(m - (e[:, None] if ax == 0 else e[None, :])) <= 1e-9 * u[ax])), f"user mesh along axis {ax}")
    for ax, (Lc, N, dc, k) in enumerate(((g.comp_L1, g.comp_N1, g.comp_dx, g.k1_fft), (g.comp_L2, g.comp_N2, g.comp_dy, g.k2_fft))):
        t = max(u[ax], 5 * L)
        need(abs(dc / dm - 1) <= 1e-9, lambda: f"computational spacing {dc} along axis {ax}, finer user spacing {dm}")
        need(int(N) == N and N % 2 == 0 and N >= 2, lambda: f"{N} computational points")
        need(abs(Lc - N * dm) <= 1e-9 * Lc, lambda: f"length {Lc} is not {N} cells of {dm}")
        need(Lc >= t * (1 - 1e-9), lambda: f"computational length {Lc} along axis {ax} is shorter than {t}")
        need(Lc < t + 2 * dm * (1 + 1e-6) + 1e-9 * t, lambda: f"computational length {Lc} along axis {ax} exceeds {t} by two or more cells ({dm})")
        e = 2 * np.pi * np.fft.fftfreq(int(N), dm)
        need(np.shape(k) == (N,) and bool(np.all(np.abs(k - e) <= 1e-9 * np.abs(e).max())), f"wave numbers along axis {ax}")
    need(g.k1.shape == (g.comp_N1, g.comp_N2) == g.k2.shape, "wave-number mesh")
    need(bool(np.all(g.k1 == g.k1_fft[:, None]) and np.all(g.k2 == g.k2_fft[None, :])), "wave-number mesh orientation")
    need(g.u1 is None and g.u2 is None, "a field exists before generation")
    ctx.label("small" if small else "large", "equal" if abs(d[0] / d[1] - 1) < 1e-12 else "different")
    return small or abs(d[0] / d[1] - 1) > 1e-12


SUBS = [Sub("grid", CASE, run, 400, 20000), Sub("grid2", CASE, run, 400, 20000),
        Sub("fine", st.fixed_dictionaries(dict(PHYS, f1=logf(20, 400), f2=logf(0.05, 5), e1=st.integers(10, 14), e2=st.integers(1, 3), Lint=st.booleans(), flip=st.booleans(), limit=st.just(6e6))).map(
            lambda c: dict(c, f1=c["f2"], f2=c["f1"], e1=c["e2"], e2=c["e1"]) if c["flip"] else c), run, 6, 200)]

"""C08 generated calibration data."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C08"
RULE = "non-trivial: at least one wave number with 0.01 < k1 L < 100 (von Karman) or 1e-3 < n < 1e3 (Kaimal)"

BASE = dict(seed=seeds, n=st.one_of(st.integers(1, 30), st.integers(1, 1500)), lo=wide(1e-4, 10), dec=unif(0, 4), order=st.sampled_from(["sorted", "random", "reversed"]))


def k1arr(c):
    r = rng(c["seed"])
    x = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"]))
    if c["order"] == "sorted":
        x = np.sort(x)
    elif c["order"] == "reversed":
        x = np.sort(x)[::-1].copy()
    return x


def vk(k1, L, C):
    D = np.zeros((len(k1), 3, 3))
    den = L**-2.0 + k1**2
    D[:, 0, 0] = k1 * 9 / 55 * C * den ** (-5 / 6)
    D[:, 1, 1] = D[:, 2, 2] = k1 * 3 / 110 * C * (3 * L**-2.0 + 8 * k1**2) * den ** (-11 / 6)
    return D


def check_container(d, kt, keep, n, ctx):
    need(set(d) >= {"k1", "ops", "coherence"}, "missing entries in the data dictionary")
    need(torch.equal(d["k1"], keep) and torch.equal(kt, keep), "wave numbers not returned unchanged")
    need(d["coherence"] is None, "coherence entry is not None")
    need(tuple(d["ops"].shape) == (n, 3, 3), lambda: f"data shape {tuple(d['ops'].shape)}")


VK = st.fixed_dictionaries(dict(BASE, L=wide(0.01, 500), C=wide(0.01, 100), default=st.booleans(), dt=dtypes, scale=logf(0.1, 10)))


def run_vk(c, ctx):
    from drdmannturb import generate_von_karman_spectra as g

    with default_dtype("float64"):
        x = k1arr(c)
        kt = torch.tensor(x, dtype=getattr(torch, c["dt"]))
        x = kt.numpy().astype(float)
        keep = kt.clone()
        L, C = (0.59, 3.2) if c["default"] else (c["L"], c["C"])
        d = g(kt) if c["default"] else g(kt, L=L, C=C)
        check_container(d, kt, keep, c["n"], ctx)
        y = d["ops"].numpy().astype(float)
        e = vk(x, L, C)
        need(close(y, e, 1e-10 if c["dt"] == "float64" else 1e-4), lambda: "von Karman data: " + relerr(y, e))
        if c["dt"] == "float64":
            # the spectra are k1^(..) functions of k1 L times L^(2/3)
            s = c["scale"]
            z = g(kt / s, L=L * s, C=C)["ops"].numpy() / s ** (2 / 3)
            need(close(z, y, 1e-9), lambda: "von Karman length scaling: " + relerr(z, y))
            z = g(kt, L=L, C=C * s)["ops"].numpy() / s
            need(close(z, y, 1e-9), lambda: "not linear in the constant: " + relerr(z, y))
        # isotropy relation F22 = (F11 - k1 dF11/dk1)/2 in the inertial range: ratio -> 4/3
        hi = x * L > 300
        if hi.any():
            need(bool(np.all(np.abs(y[hi, 1, 1] / y[hi, 0, 0] - 4 / 3) < 1e-3)), "inertial-range ratio is not 4/3")
        ctx.label(c["dt"], c["order"])
        return bool(np.any((x * L > 0.01) & (x * L < 100)))


KA = st.fixed_dictionaries(dict(BASE, z=wide(0.1, 500), ustar=wide(0.01, 20), dt=dtypes, scale=logf(0.1, 10)))


def kaimal(x, z, us):
    n = x * z / (2 * np.pi)
    return (52.5 * n / (1 + 33 * n) ** (5 / 3) * us**2, 8.5 * n / (1 + 9.5 * n) ** (5 / 3) * us**2,
            1.05 * n / (1 + 5.3 * n ** (5 / 3)) * us**2, -7 * n / (1 + 9.6 * n) ** 2.4 * us**2)


def run_ka(c, ctx):
    from drdmannturb import generate_kaimal_spectra as g

    with default_dtype(c["dt"]):
        x = k1arr(c)
        kt = torch.tensor(x, dtype=getattr(torch, c["dt"]))
        x = kt.numpy().astype(float)
        keep = kt.clone()
        d = g(k1=kt, zref=c["z"], ustar=c["ustar"])
        check_container(d, kt, keep, c["n"], ctx)
        y = d["ops"].numpy().astype(float)
        F = kaimal(x, c["z"], c["ustar"])
        rt = 1e-10 if c["dt"] == "float64" else 1e-4
        for i in range(3):
            need(close(y[:, i, i], F[i], rt), lambda: f"Kaimal {i}{i}: " + relerr(y[:, i, i], F[i]))
        need(close(y[:, 0, 2], F[3], rt), lambda: "Kaimal uw: " + relerr(y[:, 0, 2], F[3]))
        need(bool(np.all(y[:, 0, 2] < 0)), "uw data not negative")
        for i, j in ((0, 1), (1, 0), (1, 2), (2, 1)):
            need(bool(np.all(y[:, i, j] == 0)), f"entry {i}{j} is not zero")
        need(bool(np.all(y[:, 2, 0] == 0)) or close(y[:, 2, 0], F[3], rt), "entry 20 is neither zero nor the uw spectrum")
        if c["dt"] == "float64":
            s = c["scale"]
            z = g(k1=kt / s, zref=c["z"] * s, ustar=c["ustar"] * s)["ops"].numpy() / s**2
            need(close(z, y, 1e-9), lambda: "Kaimal scaling: " + relerr(z, y))
        ctx.label(c["dt"], c["order"])
        n = x * c["z"] / (2 * np.pi)
        return bool(np.any((n > 1e-3) & (n < 1e3)))


SUBS = [Sub("vonkarman", VK, run_vk, 300, 8000), Sub("kaimal", KA, run_ka, 300, 8000)]

"""Helpers of the low-frequency checks: numpy references of the Syed-Mann model."""
import numpy as np
from hypothesis import strategies as st

from .common import logf, unif

PHYS = dict(sigma2=logf(0.05, 20), L=logf(200.0, 1e5), psi=unif(0.05, 1.52), zi=logf(20.0, 3000.0))


def shape_energy(kappa, L, zi):
    kappa = np.asarray(kappa, float)
    return kappa**3 / (L**-2.0 + kappa**2) ** (7.0 / 3.0) / (1 + kappa**2 * zi**2)


def log_quad(f, lo, hi, n=20001):
    """integral of f over (lo, hi) by Simpson's rule in the logarithm"""
    t = np.linspace(np.log(lo), np.log(hi), n)
    x = np.exp(t)
    y = f(x) * x
    h = t[1] - t[0]
    return float(h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-2:2].sum()))


def norm_c(sigma2, L, zi):
    i = log_quad(lambda x: shape_energy(x, L, zi), 1e-6 / L, 1e6 / min(zi, L))
    return sigma2 / (2 * i)


def phi(k1, k2, c, L, psi, zi):
    """(Phi11, Phi22) of the two-dimensional spectrum E(kappa)/(pi k) (delta - kk/k^2)"""
    k = np.hypot(k1, k2)
    kap = np.sqrt(2 * ((k1 * np.cos(psi)) ** 2 + (k2 * np.sin(psi)) ** 2))
    with np.errstate(divide="ignore", invalid="ignore"):
        e = np.where(k > 0, c * shape_energy(kap, L, zi) / (np.pi * k), 0.0)
        return np.where(k > 0, e * k2**2 / k**2, 0.0), np.where(k > 0, e * k1**2 / k**2, 0.0)


def config(c):
    return dict(sigma2=c["sigma2"], L_2d=c["L"], psi=c["psi"], z_i=c["zi"], L1_factor=c["f1"], L2_factor=c["f2"], exp1=c["e1"], exp2=c["e2"])


def comp_points(c):
    """points of the computational grid, to keep generated cases small"""
    d = min(c["f1"] / 2 ** c["e1"], c["f2"] / 2 ** c["e2"])
    return (max(c["f1"], 5) / d) * (max(c["f2"], 5) / d)


def shrink_grid(c, limit):
    """lower the exponents until the computational grid is small enough"""
    c = dict(c)
    while comp_points(c) > limit and (c["e1"] > 1 or c["e2"] > 1):
        if c["e1"] > 1 and (c["f1"] / 2 ** c["e1"] <= c["f2"] / 2 ** c["e2"] or c["e2"] == 1):
            c["e1"] -= 1
        else:
            c["e2"] -= 1
    return c


def bilinear(xs, ys, F, tx, ty):
    """own bilinear interpolation, zero outside; returns (values, on_edge) with on_edge marking targets within rounding of the hull"""
    out = np.zeros((len(tx), len(ty)))
    edge = np.zeros((len(tx), len(ty)), dtype=bool)

    def locate(g, t):
        tol = 1e-9 * max(abs(g[-1]), abs(g[-1] - g[0]), 1e-300)
        i = np.clip(np.searchsorted(g, t, side="right") - 1, 0, max(len(g) - 2, 0))
        inside = (t >= g[0]) & (t <= g[-1])
        near = (np.abs(t - g[0]) <= tol) | (np.abs(t - g[-1]) <= tol)
        w = (t - g[i]) / (g[i + 1] - g[i])
        return i, np.clip(w, 0, 1), inside, near

    ix, wx, inx, nx = locate(xs, np.asarray(tx, float))
    iy, wy, iny, ny = locate(ys, np.asarray(ty, float))
    I, J = np.meshgrid(ix, iy, indexing="ij")
    U, V = np.meshgrid(wx, wy, indexing="ij")
    val = F[I, J] * (1 - U) * (1 - V) + F[I + 1, J] * U * (1 - V) + F[I, J + 1] * (1 - U) * V + F[I + 1, J + 1] * U * V
    ok = inx[:, None] & iny[None, :]
    out = np.where(ok, val, 0.0)
    edge = (nx[:, None] & (iny | ny)[None, :]) | (ny[None, :] & (inx | nx)[:, None])
    return out, val, edge

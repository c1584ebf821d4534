"""Independent reference models (numpy/scipy float64 only, nothing from drdmannturb).

Every oracle here is derived from the published definition, by a route different from the
package's: the rapid-distortion tensor comes from integrating the RDT ordinary differential
equation, the Mann lifetime from its defining energy integral, and so on.
"""

import numpy as np
from scipy import integrate
from scipy.interpolate import CubicSpline

P17_6 = 17.0 / 6.0


# ---------------------------------------------------------------- energy spectrum / lifetimes
def vk_energy(x):
    """Non-dimensional von Karman energy spectrum x^-5/3 (x/sqrt(1+x^2))^(17/3)."""
    x = np.asarray(x, dtype=np.float64)
    return x**4 / (1.0 + x**2) ** P17_6


def learnable_energy(x, p, q):
    x = np.asarray(x, dtype=np.float64)
    return x**p / (1.0 + x**2) ** q


def _mann_integral(x):
    """int_x^inf p^4/(1+p^2)^(17/6) dp, the Mann eddy-energy integral (weight p^0)."""
    # substitute p = x*e^t ; the integrand decays like p^(-5/3)
    def f(t):
        p = x * np.exp(t)
        return p**5 / (1 + p * p) ** P17_6

    lo = max(0.0, -np.log(x))
    a = integrate.quad(f, 0, lo, limit=400, epsabs=0, epsrel=1e-11)[0] if lo > 0 else 0.0
    b = integrate.quad(f, lo, lo + 8, limit=400, epsabs=0, epsrel=1e-11)[0]
    c = integrate.quad(f, lo + 8, lo + 70, limit=400, epsabs=0, epsrel=1e-11)[0]
    return a + b + c


_MANN_SPLINE = None


def mann_tau(x):
    """Mann (IEC) eddy lifetime, normalised as x^-2/3 for x -> inf.

    tau(k) is proportional to k^-1 (int_k^inf E dp)^-1/2 ; tabulated once by adaptive
    quadrature of the integral on a fine log grid and interpolated in log-log space.
    """
    global _MANN_SPLINE
    if _MANN_SPLINE is None:
        lx = np.linspace(np.log(1e-9), np.log(1e8), 900)
        val = np.array([_mann_integral(np.exp(v)) for v in lx])
        _MANN_SPLINE = CubicSpline(lx, 0.5 * np.log(1.5) - lx - 0.5 * np.log(val))
    x = np.asarray(x, dtype=np.float64)
    return np.exp(_MANN_SPLINE(np.log(x)))


# ---------------------------------------------------------------- rapid distortion
def rdt_matrix_ode(k, beta, steps=None):
    """D_beta(k): dZ(k, beta) = D dZ(k0, 0), by integrating the RDT equations.

    d k/dt = (0, 0, -k1) ;  dZ_i/dt = (2 k_i k_1/k^2 - delta_i1) Z_3 ;  k(beta) = k.
    k: (n,3), beta: (n,). Classic RK4 with a fixed number of steps in a time stretched so
    that the rotation of the wave vector is resolved uniformly.
    """
    k = np.asarray(k, dtype=np.float64)
    beta = np.asarray(beta, dtype=np.float64)
    n = len(k)
    k1, k2, k3 = k.T
    s2 = k1**2 + k2**2
    # k3(t)= k30 - k1 t ; use the angle theta = atan(k3/s) as independent variable:
    #   d theta/dt = -k1 s/k^2 = -(k1/s) cos^2 theta
    s = np.sqrt(s2)
    th0 = np.arctan2(k3 + beta * k1, s)
    th1 = np.arctan2(k3, s)
    # dZ/dtheta = dZ/dt / (dtheta/dt), with k^2 = s^2/cos^2 theta, k3 = s tan theta
    #   dt/dtheta = -(s/k1)/cos^2 theta
    m = steps or 400
    h = (th1 - th0) / m
    Z = np.tile(np.eye(3), (n, 1, 1))  # columns: images of unit vectors

    def rhs(th, Z):
        c = np.cos(th)
        kk = s2 / c**2
        k3t = s * np.tan(th)
        dt = -(s / k1) / c**2
        z3 = Z[:, 2, :]
        o = np.empty_like(Z)
        o[:, 0, :] = ((2 * k1 * k1 / kk - 1.0) * dt)[:, None] * z3
        o[:, 1, :] = ((2 * k2 * k1 / kk) * dt)[:, None] * z3
        o[:, 2, :] = ((2 * k3t * k1 / kk) * dt)[:, None] * z3
        return o

    th = th0.copy()
    for _ in range(m):
        a = rhs(th, Z)
        b = rhs(th + h / 2, Z + (h / 2)[:, None, None] * a)
        c = rhs(th + h / 2, Z + (h / 2)[:, None, None] * b)
        d = rhs(th + h, Z + h[:, None, None] * c)
        Z = Z + (h / 6)[:, None, None] * (a + 2 * b + 2 * c + d)
        th = th + h
    return Z


def rdt_matrix(k, beta):
    """Closed form of the same solution (self-checked against the ODE in selftest()).

    With k1 != 0 and s = |(k1,k2)|: Z3 = Z30 k0^2/k^2 and
    Z1 = Z10 + zeta1 Z30, Z2 = Z20 + zeta2 Z30, obtained by integrating the two scalar
    equations analytically in the angle variable theta (tan theta = k3/s):
       int (2 k1^2/k^2 - 1) k0^2/k^2 dt  and  int 2 k1 k2/k^2 k0^2/k^2 dt.
    For k1 = 0 the wave vector is constant and Z1 = Z10 - beta Z30.
    """
    k = np.asarray(k, dtype=np.float64)
    beta = np.asarray(beta, dtype=np.float64)
    k1, k2, k3 = np.moveaxis(k, -1, 0)
    k30 = k3 + beta * k1
    s2 = k1**2 + k2**2
    s = np.sqrt(s2)
    kk0 = s2 + k30**2
    kk = s2 + k3**2
    with np.errstate(divide="ignore", invalid="ignore"):
        t0 = np.arctan2(k30, s)
        t1 = np.arctan2(k3, s)
        # I1 = int dt/k^2 ; I2 = int dt/k^4 over the shearing time
        # dt = -(s/k1) sec^2 dtheta, 1/k^2 = cos^2/s^2
        #   I1 = (t0 - t1)/(k1 s)
        #   I2 = int cos^2 /(k1 s^3) = [ (theta/2 + sin 2theta/4) ]/(k1 s^3)
        # evaluated through the angle difference to stay accurate for tiny shear
        dth = np.arctan2(beta * k1 * s, s2 + k3 * k30)
        I1 = dth / (k1 * s)
        # sin2t0 - sin2t1 = 2 cos(t0+t1) sin(t0-t1)
        I2 = (0.5 * dth + 0.5 * np.cos(t0 + t1) * np.sin(dth)) / (k1 * s**3)
        z1 = kk0 * (2 * k1**2 * I2 - I1)
        z2 = kk0 * 2 * k1 * k2 * I2
    flat = k1 == 0
    z1 = np.where(flat, -beta, z1)
    z2 = np.where(flat, 0.0, z2)
    with np.errstate(divide="ignore", invalid="ignore"):
        z3 = np.where(kk > 0, kk0 / kk, 1.0)
    D = np.zeros(k.shape[:-1] + (3, 3))
    D[..., 0, 0] = 1
    D[..., 1, 1] = 1
    D[..., 0, 2] = z1
    D[..., 1, 2] = z2
    D[..., 2, 2] = z3
    return D


def vk_tensor(k, amp, L, energy=None):
    """E(|k|)/(4 pi k^4) (k^2 delta - k k^T), with E(k) = amp k^-5/3 (kL/sqrt(1+(kL)^2))^(17/3).

    `energy`, when given, is the shape function replacing vk_energy: E = amp L^(5/3) energy(kL).
    """
    k = np.asarray(k, dtype=np.float64)
    kk = np.sum(k**2, axis=-1)
    P = kk[..., None, None] * np.eye(3) - k[..., :, None] * k[..., None, :]
    if energy is None:
        f = amp * L ** (17.0 / 3.0) / (4 * np.pi) / (1 + L * L * kk) ** P17_6
    else:
        with np.errstate(divide="ignore", invalid="ignore"):
            f = np.where(kk > 0, amp * L ** (5.0 / 3.0) * energy(np.sqrt(kk) * L) / (4 * np.pi * kk**2), 0.0)
    return f[..., None, None] * P


def sheared_tensor(k, beta, amp, L, energy=None):
    """Phi(k) = D Phi_VK(k0) D^T for shearing time beta."""
    k = np.asarray(k, dtype=np.float64)
    k0 = k.copy()
    k0[..., 2] = k[..., 2] + beta * k[..., 0]
    D = rdt_matrix(k, beta)
    return D @ vk_tensor(k0, amp, L, energy) @ np.swapaxes(D, -1, -2)


# ---------------------------------------------------------------- one-point spectra on a grid
def log_grid(lo, hi, n):
    g = np.logspace(lo, hi, n)
    return np.concatenate([-g[::-1], [0.0], g])


def trapz2(f, grid2, grid3):
    return np.trapezoid(np.trapezoid(f, grid3, axis=-1), grid2, axis=-1)


def grid_vectors(k1, grid2, grid3):
    A = np.stack(np.meshgrid(np.asarray(k1, float), grid2, grid3, indexing="ij"), axis=-1)
    return A


def tensor_components(P):
    """In the package's order uu, vv, ww, uw, vw, uv."""
    return [P[..., i, j] for i, j in ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))]


def one_point(k1, grid, tau, amp, L, energy=None, floor=1e-12):
    """k1 * trapezoidal integrals of the sheared tensor on the log-spaced grid.

    Returns (F, A, slack): the six spectra, k1 * integral of |Phi_ij| (the scale of rounding
    errors) and the largest contribution that a floor on |Phi_ij| can make.
    """
    k1 = np.asarray(k1, float)
    g = log_grid(*grid)
    F, A, S = [], [], []
    k = grid_vectors(k1, g, g)
    comps = tensor_components(sheared_tensor(k, tau(k), amp, L, energy))
    for f in comps:
        F.append(k1 * trapz2(f, g, g))
        A.append(k1 * trapz2(np.abs(f), g, g))
        S.append(k1 * trapz2(np.where(np.abs(f) < 1.01 * floor, 2 * floor, 0.0), g, g))
    return np.array(F), np.array(A), np.array(S)


def one_point_converged(k1, tau, amp, L, energy=None, n=100):
    """k1 * double integral over the whole k2-k3 plane (sinh substitution, trapezoidal rule)."""
    out = []
    for k in np.atleast_1d(np.asarray(k1, float)):
        s = 0.5 * k
        t1 = np.arcsinh(4000.0 * max(k, 1.0 / L) / s)
        t = np.linspace(-t1, t1, 2 * n + 1)
        g = s * np.sinh(t)
        w = s * np.cosh(t) * (t[1] - t[0])
        w[0] *= 0.5
        w[-1] *= 0.5
        kv = grid_vectors([k], g, g)
        comps = tensor_components(sheared_tensor(kv, tau(kv), amp, L, energy))
        out.append([k * float(w @ f[0] @ w) for f in comps])
    return np.array(out).T


def selftest():
    rng = np.random.default_rng(0)
    k = rng.normal(size=(60, 3)) * np.exp(rng.uniform(-2, 2, size=(60, 1)))
    b = np.exp(rng.uniform(-3, 1.5, size=60))
    A = rdt_matrix(k, b)
    B = rdt_matrix_ode(k, b, 2000)
    e = np.max(np.abs(A - B) / (1 + np.abs(B).max(axis=(1, 2), keepdims=True)))
    assert e < 1e-6, e
    # incompressibility of the result
    P = sheared_tensor(k, b, 1.0, 1.3)
    d = np.einsum("ni,nij->nj", k, P)
    assert np.max(np.abs(d) / (np.linalg.norm(k, axis=1) * np.abs(P).max(axis=(1, 2)))[:, None]) < 1e-9
    from scipy.special import hyp2f1

    x = np.logspace(-4, 4, 50)
    t = x ** (-2 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(x**-2.0)))
    assert np.max(np.abs(mann_tau(x) / t - 1)) < 1e-7, np.max(np.abs(mann_tau(x) / t - 1))


if __name__ == "__main__":
    selftest()
    print("reference self-test ok")

"""Shared strategies and builders (the only place that touches the package's constructors)."""

import contextlib

import numpy as np
import torch
from scipy.special import erf
from hypothesis import strategies as st

from . import ref
from .harness import HarnessError, Violation, fail, need  # noqa: F401


# ------------------------------------------------------------------ strategies
def logf(lo, hi):
    """log-uniform float in [lo, hi], rounded to 5 significant digits."""
    a, b = np.log10(lo), np.log10(hi)
    return st.floats(a, b, allow_nan=False).map(lambda e: float(f"{10.0**e:.5g}"))


def wide(lo, hi, f=1e3):
    """mostly log-uniform in [lo, hi], sometimes anywhere up to a factor f beyond"""
    return st.one_of(logf(lo, hi), logf(lo, hi), logf(lo / f, hi * f))


def unif(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float(f"{v:.6g}"))


seeds = st.integers(0, 2**31 - 1)
LIFETIMES = ["CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"]
dtypes = st.sampled_from(["float64", "float32"])


@contextlib.contextmanager
def default_dtype(name):
    old = torch.get_default_dtype()
    torch.set_default_dtype(getattr(torch, name))
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def rng(seed):
    return np.random.default_rng(seed)


def logvec(r, lo, hi, n):
    return np.exp(r.uniform(np.log(lo), np.log(hi), size=n))


def strat(strategy, **fixed):
    """Stratified generation: the same strategy with some keys fixed (or drawn from another strategy)."""
    drawn = {k: v if isinstance(v, st.SearchStrategy) else st.just(v) for k, v in fixed.items()}
    return st.tuples(strategy, st.fixed_dictionaries(drawn)).map(lambda t: dict(t[0], **t[1]))


# ------------------------------------------------------------------ builders
def phys(L, Gamma, sigma, **kw):
    from drdmannturb import PhysicalParameters

    return PhysicalParameters(L=L, Gamma=Gamma, sigma=sigma, **kw)


def make_problem(c, scratch, **prob_kw):
    """CalibrationProblem from a case dict with keys type, L, Gamma, sigma and optional extras."""
    import drdmannturb as d

    loss = d.LossParameters(**c.get("loss", {}))
    nn = d.NNParameters(
        nlayers=c.get("nlayers", 2),
        hidden_layer_size=c.get("width", 5),
        hidden_layer_sizes=[c.get("width", 5)] * c.get("nlayers", 2),
        activations=[getattr(torch.nn, a)() for a in c.get("acts", ["ReLU"] * c.get("nlayers", 2))],
    )
    kw = dict(eddy_lifetime=d.EddyLifetimeType[c["type"]], learn_nu=c.get("learn_nu", False))
    kw.update(c.get("prob", {}))
    kw.update(prob_kw)
    ig = c.get("grid", [-2.0, 2.0, 10])
    torch.manual_seed(c.get("tseed", 0))
    return d.CalibrationProblem(
        nn_params=nn,
        prob_params=d.ProblemParameters(**kw),
        loss_params=loss,
        phys_params=phys(c["L"], c["Gamma"], c["sigma"], **c.get("phys", {})),
        integration_params=d.IntegrationParameters(
            ops_log_min=ig[0], ops_log_max=ig[1], ops_num_points=ig[2],
            **(dict(coh_log_min=c["cgrid"][0], coh_log_max=c["cgrid"][1], coh_num_points=c["cgrid"][2]) if c.get("cgrid") else {}),
        ),
        logging_directory=scratch,
        output_directory=scratch,
    )


def make_ops(c, **kw):
    import drdmannturb as d

    nn = d.NNParameters(nlayers=c.get("nlayers", 2), hidden_layer_size=c.get("width", 5))
    ig = c.get("grid", [-2.0, 2.0, 10])
    cg = c.get("cgrid", [-2.0, 2.0, 8])
    torch.manual_seed(c.get("tseed", 0))
    return d.OnePointSpectra(
        type_eddy_lifetime=d.EddyLifetimeType[c["type"]],
        physical_params=phys(c["L"], c["Gamma"], c["sigma"]),
        nn_parameters=nn,
        learn_nu=c.get("learn_nu", False),
        integration_params=d.IntegrationParameters(
            ops_log_min=ig[0], ops_log_max=ig[1], ops_num_points=ig[2],
            **(dict(coh_log_min=cg[0], coh_log_max=cg[1], coh_num_points=cg[2]) if cg else {}),
        ),
        **kw,
    )


# ------------------------------------------------------------------ reference lifetimes
def net_weights(net):
    """(list of matrices in layer order, nu) of a TauNet, by parameter shape only."""
    ps = [p.detach().cpu().numpy().astype(np.float64) for p in net.parameters()]
    mats = [p for p in ps if p.ndim == 2]
    scal = [float(p.reshape(-1)[0]) for p in ps if p.size == 1 and p.ndim < 2]
    return mats, (scal[0] if scal else None)


ACTS = {
    "ReLU": lambda x: np.maximum(x, 0),
    "Tanh": np.tanh,
    "Sigmoid": lambda x: 1 / (1 + np.exp(-x)),
    "Softplus": lambda x: np.logaddexp(0, x),
    "LeakyReLU": lambda x: np.where(x > 0, x, 0.01 * x),
    "Identity": lambda x: x,
    "GELU": lambda x: 0.5 * x * (1 + erf(x / np.sqrt(2.0))),
}


def rational_ref(a, nu):
    a = np.abs(np.asarray(a, float))
    with np.errstate(divide="ignore"):
        return a ** (nu - 2.0 / 3.0) / (1 + a * a) ** (nu / 2.0)


def taunet_ref(mats, nu, k, acts=None):
    """tau(k) = |a|^(nu-2/3)/(1+|a|^2)^(nu/2) with a = |k| + NN(|k|), bias-free MLP."""
    x = np.abs(np.asarray(k, float))
    out = x
    for i, W in enumerate(mats[:-1]):
        out = ACTS[acts[i % len(acts)] if acts else "ReLU"](out @ W.T)
    out = out @ mats[-1].T
    a = np.linalg.norm(x + out, axis=-1)
    return rational_ref(a, nu)


def scramble_net(net, seed, scale):
    """Give a TauNet substantial random weights (it starts close to zero output)."""
    g = torch.Generator().manual_seed(int(seed) % (2**31))
    with torch.no_grad():
        for p in net.parameters():
            if p.dim() == 2:
                p.copy_(scale * torch.randn(p.shape, generator=g, dtype=p.dtype))


_APPROX = None


def mann_line():
    """Least-squares line of log tau_Mann against log kL over six decades around kL = 1."""
    global _APPROX
    if _APPROX is None:
        x = np.logspace(-3, 3, 50)
        _APPROX = np.polyfit(np.log(x), np.log(ref.mann_tau(x)), 1)
    return _APPROX


def tau_ref(ltype, k, L, Gamma, net=None, nu=-1.0 / 3.0, acts=None):
    k = np.asarray(k, float)
    kL = L * np.linalg.norm(k, axis=-1)
    with np.errstate(divide="ignore"):
        if ltype == "CONST":
            return Gamma * np.ones_like(kL)
        if ltype == "TWOTHIRD":
            return Gamma * kL ** (-2.0 / 3.0)
        if ltype == "MANN":
            return Gamma * ref.mann_tau(kL)
        if ltype == "MANN_APPROX":
            a, b = mann_line()
            return Gamma * np.exp(b) * kL**a
        if ltype == "TAUNET":
            mats, n = net_weights(net)
            return Gamma * taunet_ref(mats, nu if n is None else n, k * L, acts)
    raise HarnessError(ltype)


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def relerr(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if a.size == 0:
        return "empty"
    with np.errstate(all="ignore"):
        e = np.abs(a - b) / np.maximum(np.abs(b), 1e-300)
    if not np.all(np.isfinite(a)):
        return "non-finite values"
    i = np.unravel_index(np.argmax(e), e.shape)
    return f"max rel err {e[i]:.3g} at {i}: got {a[i]!r}, expected {b[i]!r}"


def expect_raises(types, fn, what):
    try:
        fn()
    except types:
        return
    except Exception as e:  # noqa: BLE001
        fail(f"{what}: expected {types}, got {type(e).__name__}: {e}")
    fail(f"{what}: accepted without an error")

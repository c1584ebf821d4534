"""C01 eddy-lifetime models."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C01"
RULE = ("a case is non-trivial when it evaluates at least one non-zero wave vector and "
        "(for model evaluation) the length and time scales differ from 1")


def kvec(c):
    r = rng(c["kseed"])
    shape = tuple(c["shape"])
    d = r.normal(size=shape + (3,))
    if c["axis"]:
        m = r.integers(0, 2, size=d.shape)
        m[..., 0] |= (m.sum(-1) == 0)
        d = d * m
        d[..., 0] = np.where(np.abs(d).sum(-1) == 0, 1.0, d[..., 0])
    d /= np.linalg.norm(d, axis=-1, keepdims=True)
    mag = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=shape + (1,)))
    return d * mag / c["L2"]


MODEL = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=wide(1e-2, 1e3), Gamma=wide(0.05, 20), sigma=wide(1e-2, 1e2),
    L2=wide(1e-2, 1e3), Gamma2=wide(0.05, 20, 1e4), change=st.booleans(),
    dt=dtypes, kseed=seeds, shape=st.lists(st.integers(1, 5), min_size=1, max_size=3),
    axis=st.booleans(), lo=wide(1e-4, 1e2), dec=unif(0, 3), tseed=st.integers(0, 1000),
    via=st.sampled_from(["ops", "problem"]),
))


def run_model(c, ctx):
    with default_dtype(c["dt"]):
        if c["via"] == "ops":
            c = dict(c, L2=c["L"], Gamma2=c["Gamma"])
            ops = make_ops(c)
        else:
            pb = make_problem(c, ctx.tmpdir())
            ops = pb.OPS
            if c["change"]:
                if c["kseed"] % 2:
                    ops.EddyLifetime(torch.ones(2, 3))  # evaluated once before the scales change
                p = pb.parameters
                p[0], p[1] = np.log(c["L2"]), np.log(c["Gamma2"])
                pb.parameters = p
            else:
                c = dict(c, L2=c["L"], Gamma2=c["Gamma"])
        if c["type"] == "TAUNET":
            scramble_net(ops.tauNet, c["kseed"], 0.3)
        k = kvec(c)
        kt = torch.tensor(k, dtype=torch.get_default_dtype())
        k = kt.numpy().astype(float)
        before = kt.clone()
        tau = ops.EddyLifetime(kt).detach()
        need(torch.equal(before, kt), "the wave vectors passed in were modified")
        need(tuple(tau.shape) == tuple(c["shape"]), lambda: f"shape {tuple(tau.shape)} for {c['shape']}")
        exp = tau_ref(c["type"], k, c["L2"], c["Gamma2"], net=getattr(ops, "tauNet", None))
        tol = (2e-6 if c["type"] == "MANN" else 1e-9) if c["dt"] == "float64" else 1e-3
        need(close(tau.numpy(), exp, tol), lambda: f"{c['type']} lifetime: {relerr(tau.numpy(), exp)}")
        need(bool((tau > 0).all()), "non-positive lifetime")
        ctx.label(c["type"], c["dt"], c["via"], f"changed={c['change'] and c['via']=='problem'}")
        # invariance: classical lifetimes depend on |k| only, the learned one on |k_i|
        r = rng(c["kseed"] + 1)
        if c["type"] == "TAUNET":
            k2 = k * r.choice([-1.0, 1.0], size=k.shape)
        else:
            q, _ = np.linalg.qr(r.normal(size=(3, 3)))
            k2 = k @ q
        t2 = ops.EddyLifetime(torch.tensor(k2, dtype=torch.get_default_dtype())).detach().numpy()
        need(close(t2, tau.numpy(), 1e-9 if c["dt"] == "float64" else 1e-3),
             lambda: f"not invariant: {relerr(t2, tau.numpy())}")
        return c["L2"] != 1 and c["Gamma2"] != 1


MANN = st.fixed_dictionaries(dict(
    seed=seeds, n=st.one_of(st.integers(1, 40), st.integers(1, 2000)), lo=wide(1e-5, 1e3), dec=unif(0, 4),
    kind=st.sampled_from(["numpy", "torch64", "torch32", "numpy2d"]),
))


def run_mann(c, ctx):
    from drdmannturb import MannEddyLifetime

    r = rng(c["seed"])
    x = np.sort(np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"])))
    arg = x.copy()
    if c["kind"] == "numpy2d":
        arg = x.reshape(-1, 1)
    if c["kind"].startswith("torch"):
        dt = torch.float64 if c["kind"] == "torch64" else torch.float32
        arg = torch.tensor(x, dtype=dt)
        x = arg.numpy().astype(float)
    keep = arg.clone() if torch.is_tensor(arg) else arg.copy()
    with default_dtype("float32" if c["kind"] == "torch32" else "float64"):
        y = MannEddyLifetime(arg)
    need(bool((keep == arg).all()), "input modified")
    need(torch.is_tensor(y) == torch.is_tensor(arg), "container type not preserved")
    need(tuple(y.shape) == tuple(arg.shape), "shape not preserved")
    yv = (y.numpy() if torch.is_tensor(y) else y).reshape(-1).astype(float)
    tol = 1e-3 if c["kind"] == "torch32" else 2e-6
    e = ref.mann_tau(x)
    need(close(yv, e, tol), lambda: "Mann lifetime: " + relerr(yv, e))
    ctx.label(c["kind"])
    if c["n"] > 1 and c["kind"] != "torch32":
        d = x[1:] > x[:-1] * (1 + 1e-6)
        need(bool(np.all(yv[1:][d] < yv[:-1][d])), "lifetime must decrease with wave number")
    return True


LINE = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 20), a=unif(-4, 4), b=unif(-8, 8)))


def run_line(c, ctx):
    from drdmannturb import Mann_linear_exponential_approx

    x = logvec(rng(c["seed"]), 1e-3, 1e3, c["n"])
    y = Mann_linear_exponential_approx(torch.tensor(x), torch.tensor(c["a"], dtype=torch.float64),
                                       torch.tensor(c["b"], dtype=torch.float64)).numpy()
    e = np.exp(c["b"]) * x ** c["a"]
    need(close(y, e, 1e-9), lambda: relerr(y, e))
    return c["a"] != 0


SUBS = [Sub("model_" + t, strat(MODEL, type=t), run_model, 120, 4000) for t in LIFETIMES] + [
    Sub("mann", MANN, run_mann, 200, 6000),
    Sub("line", LINE, run_line, 60, 1500),
]

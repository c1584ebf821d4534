"""C04 one-point spectra are the k2-k3 integrals of the sheared tensor."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C04"
RULE = ("non-trivial: the shear changes the uu spectrum by more than 1% (the eddy lifetime matters) at some k1 "
        "and the spectra are far above the tensor floor")

CASE = dict(
    type=st.sampled_from(LIFETIMES), L=wide(0.02, 50, 100), Gamma=wide(0.05, 8, 30), sigma=wide(0.05, 20, 1e3), seed=seeds,
    grid=st.one_of(st.tuples(unif(-3, -1), unif(0.5, 3), st.integers(4, 24)), st.tuples(unif(-6, 1), unif(1.5, 5), st.integers(2, 40))), n=st.integers(1, 6), lo=wide(0.02, 20, 100), dec=unif(0, 2),
    via=st.sampled_from(["ops", "problem", "assigned"]), dt=st.sampled_from(["float64", "float64", "float64", "float32"]),
    learn=st.booleans(), p=unif(1, 6), q=unif(1.5, 5), learn_nu=st.booleans(), net=logf(0.02, 0.6), tseed=st.integers(0, 99),
)
GEN = st.fixed_dictionaries(CASE)


def build(c, ctx):
    kw = {}
    if c["learn"]:
        kw = dict(use_learnable_spectrum=True, p_exponent=c["p"], q_exponent=c["q"])
    if c["via"] == "ops":
        m = make_ops(c, **kw)
        f = lambda k: m(k).detach().numpy()  # noqa: E731
    elif c["via"] == "problem":
        pb = make_problem(c, ctx.tmpdir(), **kw)
        m = pb.OPS
        f = pb.eval
    else:  # built with other scales, then assigned
        kw2 = dict(kw)
        if kw2:
            kw2.update(p_exponent=3.0, q_exponent=3.0)
        pb = make_problem(dict(c, L=1.3, Gamma=0.7, sigma=2.0), ctx.tmpdir(), **kw2)
        m = pb.OPS
        v = pb.parameters
        v[:3] = np.log([c["L"], c["Gamma"], c["sigma"]])
        if kw:
            v[3:5] = c["p"], c["q"]
        pb.parameters = v
        f = pb.eval
    if c["type"] == "TAUNET":
        scramble_net(m.tauNet, c["seed"], c["net"])
    return m, f


def reference(c, m, k1):
    e = (lambda x: ref.learnable_energy(x, c["p"], c["q"])) if c["learn"] else None
    tau = lambda k: tau_ref(c["type"], k, c["L"], c["Gamma"], net=getattr(m, "tauNet", None))  # noqa: E731
    g = ref.log_grid(*c["grid"])
    k = ref.grid_vectors(k1, g, g)
    comps = ref.tensor_components(ref.sheared_tensor(k, tau(k), c["sigma"], c["L"], e))
    return k, g, comps


def run_gen(c, ctx):
    plain = c["grid"][0] >= -3 and c["grid"][0] <= -1 and c["grid"][1] <= 3 and 0.02 <= c["L"] <= 50 and 0.05 <= c["Gamma"] <= 8 and 0.05 <= c["sigma"] <= 20 and 0.02 <= c["lo"] <= 20
    if not plain or (c["learn"] and not (2 <= c["p"] <= 5 and 2.2 <= c["q"] <= 4)):
        c = dict(c, dt="float64")  # single precision only where no intermediate loses its digits
    with default_dtype(c["dt"]):
        m, f = build(c, ctx)
        r = rng(c["seed"])
        k1 = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"])) / c["L"]
        kt = torch.tensor(k1, dtype=torch.get_default_dtype())
        k1 = kt.numpy().astype(float)
        keep = kt.clone()
        y = f(kt)
        need(torch.equal(keep, kt), "the wave numbers passed in were modified")
        need(tuple(y.shape) == (6, c["n"]), lambda: f"output shape {y.shape} for {c['n']} wave numbers")
        y = y.astype(float)
        k, g, comps = reference(c, m, k1)
        names = ["uu", "vv", "ww", "uw", "vw", "uv"]
        f64 = c["dt"] == "float64"
        rt = 1e-6 if f64 else 2e-2
        if not f64:
            # single precision: keep to the range where no intermediate over- or underflows
            if min(np.min(np.abs(cc[..., :])) for cc in comps[:3]) < 1e-25:
                ctx.label("float32-out-of-range")
        # rounding: a component may be far below the trace of the tensor, in whose units it is computed
        T = 1e-10 * k1 * ref.trapz2(comps[0] + comps[1] + comps[2], g, g)
        for i, cc in enumerate(comps):
            I = k1 * ref.trapz2(cc, g, g)  # noqa: E741
            A = k1 * ref.trapz2(np.abs(cc), g, g)
            slack = k1 * ref.trapz2(np.where(np.abs(cc) < 1.01e-12, 2e-12, 0.0), g, g) + T
            ok = np.abs(y[i] - I) <= rt * A + slack
            if i < 4:
                need(bool(np.all(ok)), lambda: f"{names[i]} spectrum ({c['type']}): " + relerr(y[i], I))
                if i < 3:
                    need(bool(np.all(y[i] > 0)), f"{names[i]} spectrum not positive")
            elif not np.all(ok):
                clamped = k1 * ref.trapz2(np.where(cc < 1e-12, 1e-12, cc), g, g)
                need(bool(np.all(np.abs(y[i] - clamped) <= rt * A + slack)),
                     lambda: f"{names[i]} spectrum ({c['type']}): " + relerr(y[i], I))
                ctx.known("floor-uv-vw", f"{names[i]} spectrum {y[i][0]:.3g}, expected {I[0]:.3g}")
        ctx.label(c["type"], c["via"], c["dt"], f"learnable={c['learn']}")
        iso = k1 * ref.trapz2(ref.tensor_components(ref.vk_tensor(k, c["sigma"], c["L"]))[0], g, g)
        return bool(np.any(np.abs(y[0] - iso) > 0.01 * iso)) and bool(np.all(y[0] > 1e-9))


EQ = st.fixed_dictionaries(dict(CASE, n=st.one_of(st.integers(2, 12), st.integers(13, 80)), take=st.integers(1, 12)))


def run_eq(c, ctx):
    """every k1 is evaluated independently of the others, in any order"""
    with default_dtype("float64"):
        c = dict(c, dt="float64")
        m, f = build(c, ctx)
        r = rng(c["seed"])
        k1 = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"])) / c["L"]
        y = f(torch.tensor(k1))
        for _ in range(2):
            idx = r.permutation(c["n"])[: max(1, min(c["take"], c["n"]))]
            z = f(torch.tensor(k1[idx]))
            need(close(z, y[:, idx], 1e-10, 1e-13), lambda: f"value depends on the other wave numbers: {relerr(z, y[:, idx])}")
        ctx.label(c["type"])
        return True


SUBS = [Sub("integral_" + t, strat(GEN, type=t), run_gen, 100, 4000) for t in LIFETIMES] + [Sub("independence", EQ, run_eq, 80, 2500)]

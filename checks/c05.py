"""C05 default resolution reproduces the continuum physics."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C05"
RULE = "non-trivial: shear strength Gamma >= 0.2 for the sheared cases; every isotropic-limit case counts"


def default_model(c, **kw):
    import drdmannturb as d

    nn = d.NNParameters(nlayers=2, hidden_layer_size=5) if c["type"] == "TAUNET" else None
    torch.manual_seed(c.get("seed", 0) % 1000)
    m = d.OnePointSpectra(type_eddy_lifetime=d.EddyLifetimeType[c["type"]], nn_parameters=nn,
                          physical_params=phys(c["L"], c["Gamma"], c["sigma"]), **kw)
    if c["type"] == "TAUNET":
        scramble_net(m.tauNet, c["seed"], 0.05)
    return m


CONV = st.fixed_dictionaries(dict(type=st.sampled_from(LIFETIMES), L=logf(0.2, 5), Gamma=logf(0.1, 4), sigma=logf(0.3, 10),
                                  kL=st.lists(logf(0.05, 20), min_size=1, max_size=3), seed=seeds, params=st.booleans()))


def run_conv(c, ctx):
    import drdmannturb as d

    with default_dtype("float64"):
        kw = dict(integration_params=d.IntegrationParameters()) if c["params"] else {}
        m = default_model(c, **kw)
        k1 = np.array(c["kL"]) / c["L"]
        with torch.no_grad():
            y = m(torch.tensor(k1)).numpy()
        net = getattr(m, "tauNet", None)
        R = ref.one_point_converged(k1, lambda k: tau_ref(c["type"], k, c["L"], c["Gamma"], net=net), c["sigma"], c["L"])
        fl = 3 * 4e-6 * k1  # contribution of the tensor floor
        hi = np.array(c["kL"]) > 3
        tol = np.where(hi, 0.06, 0.02)
        for i, nm in enumerate(["uu", "vv", "ww"]):
            need(bool(np.all(np.abs(y[i] - R[i]) <= tol * R[i] + fl)), lambda: f"{nm}: " + relerr(y[i], R[i]))
        s = np.sqrt(R[0] * R[2])
        need(bool(np.all(np.abs(y[3] - R[3]) <= tol * s + fl)), lambda: "uw: " + relerr(y[3], R[3]))
        need(bool(np.all(y[:3] > 0)), "auto-spectrum not positive")
        clear = np.abs(R[3]) > 0.08 * s  # well above the quadrature error
        need(bool(np.all(y[3][clear] < 0)), "uw spectrum not negative under shear")
        need(bool(np.all(np.abs(y[3]) <= np.sqrt(y[0] * y[2]) * (1 + 1e-9))), "uw spectrum exceeds sqrt(F_uu F_ww)")
        ctx.label(c["type"])
        return c["Gamma"] >= 0.2


ISO = st.fixed_dictionaries(dict(type=st.sampled_from(["CONST", "TWOTHIRD", "MANN", "MANN_APPROX"]), L=logf(0.2, 5), Gamma=logf(1e-7, 1e-5),
                                 sigma=logf(0.3, 10), kL=st.lists(logf(0.05, 20), min_size=2, max_size=5)))


def run_iso(c, ctx):
    import drdmannturb as d

    with default_dtype("float64"):
        m = default_model(c)
        k1 = np.array(c["kL"]) / c["L"]
        with torch.no_grad():
            y = m(torch.tensor(k1)).numpy()
        data = d.generate_von_karman_spectra(k1=torch.tensor(k1), L=c["L"], C=c["sigma"])
        D = np.asarray(data["ops"], dtype=float)
        fl = 3 * 4e-6 * k1
        for i in range(3):
            e = D[:, i, i]
            need(bool(np.all(np.abs(y[i] - e) <= 0.03 * e + fl)),
                 lambda: f"isotropic limit, component {i}: " + relerr(y[i], e))
        need(bool(np.all(np.abs(y[3]) <= 1e-3 * np.sqrt(y[0] * y[2]) + fl)), "uw spectrum does not vanish without shear")
        ctx.label(c["type"])
        return True


LIN = st.fixed_dictionaries(dict(type=st.sampled_from(LIFETIMES), L=logf(0.2, 5), Gamma=logf(0.1, 4), sigma=logf(0.3, 10), f=logf(0.1, 10),
                                 z=logf(0.2, 5), kL=st.lists(logf(0.05, 20), min_size=1, max_size=3), seed=seeds))


def run_lin(c, ctx):
    with default_dtype("float64"):
        k1 = np.array(c["kL"]) / c["L"]
        fl = 3 * 4e-6 * k1
        with torch.no_grad():
            a = default_model(c)(torch.tensor(k1)).numpy()
            b = default_model(dict(c, sigma=c["sigma"] * c["f"]))(torch.tensor(k1)).numpy()
            need(bool(np.all(np.abs(b[:4] - c["f"] * a[:4]) <= 1e-9 * np.abs(b[:4]) + fl * (1 + c["f"]))),
                 lambda: "not linear in the amplitude: " + relerr(b[:4], c["f"] * a[:4]))
            # length scaling: L -> z L, k1 -> k1/z scales the spectra by z^(2/3) (up to the fixed grid's accuracy)
            if c["L"] * c["z"] < 5 and c["L"] * c["z"] > 0.2 and max(c["kL"]) < 3:
                e = default_model(dict(c, L=c["L"] * c["z"]))(torch.tensor(k1 / c["z"])).numpy()
                x = c["z"] ** (2 / 3)
                s = np.sqrt(np.abs(a[[0, 1, 2, 0]] * a[[0, 1, 2, 2]])) * x
                need(bool(np.all(np.abs(e[:4] - x * a[:4]) <= 0.03 * s + fl * (1 + x))), lambda: "length scaling: " + relerr(e[:4], x * a[:4]))
                ctx.label("length-scaling")
        ctx.label(c["type"])
        return c["f"] != 1


SUBS = [Sub("converged_" + t, strat(CONV, type=t), run_conv, 20, 500) for t in LIFETIMES] + [
    Sub("isotropic", ISO, run_iso, 50, 1000),
    Sub("linear", LIN, run_lin, 40, 1000),
]

"""C02 neural lifetime."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C02"
RULE = ("network cases are non-trivial when the perceptron output is at least 1e-3 of |k| for some wave vector "
        "(so weights and activations matter); rejection cases always (each offers one invalid argument)")

ACT_NAMES = ["ReLU", "Tanh", "Sigmoid", "Softplus", "LeakyReLU", "Identity"]


def act(name):
    return getattr(torch.nn, name)()


NET = st.fixed_dictionaries(dict(
    widths=st.one_of(st.lists(st.integers(1, 9), min_size=1, max_size=4), st.lists(st.integers(1, 40), min_size=1, max_size=8)), as_int=st.booleans(),
    acts=st.lists(st.sampled_from(ACT_NAMES), min_size=8, max_size=8), act_mode=st.sampled_from(["none", "single", "list"]),
    learn_nu=st.booleans(), nu=unif(-3, 3), default_nu=st.booleans(), dt=dtypes, seed=seeds, scale=wide(0.05, 2, 10),
    shape=st.lists(st.integers(1, 5), min_size=0, max_size=3), lo=wide(1e-3, 10), dec=unif(0, 3), zero=st.booleans(),
))


def build(c):
    from drdmannturb.nn_modules import TauNet

    n = len(c["widths"])
    kw = dict(n_layers=n, hidden_layer_sizes=c["widths"][0] if c["as_int"] else list(c["widths"]), learn_nu=c["learn_nu"])
    widths = [c["widths"][0]] * n if c["as_int"] else c["widths"]
    if c["act_mode"] == "none":
        acts = ["ReLU"] * n
    elif c["act_mode"] == "single":
        acts = [c["acts"][0]] * n
        kw["activations"] = act(c["acts"][0])
    else:
        acts = c["acts"][:n]
        kw["activations"] = [act(a) for a in acts]
    nu = -1.0 / 3.0
    if not c["default_nu"]:
        nu = c["nu"]
        kw["nu_init"] = nu
    return TauNet(**kw), widths, acts, nu


def run_net(c, ctx):
    with default_dtype(c["dt"]):
        net, widths, acts, nu = build(c)
        mats, nun = net_weights(net)
        shapes = [m.shape for m in mats]
        sizes = [3] + list(widths) + [3]
        exp_shapes = [(sizes[i + 1], sizes[i]) for i in range(len(sizes) - 1)]
        need(shapes == exp_shapes, lambda: f"layer shapes {shapes}, expected {exp_shapes}")
        total = sum(a * b for a, b in exp_shapes) + (1 if c["learn_nu"] else 0)
        got = sum(p.numel() for p in net.parameters())
        need(got == total, lambda: f"{got} trainable parameters, expected {total}")
        if c["learn_nu"]:
            need(nun is not None and abs(nun - nu) < 1e-6, lambda: f"initial nu {nun}, expected {nu}")
            nu = nun
        else:
            need(nun is None, "nu is trainable although not requested")
        need(all(p.requires_grad for p in net.parameters()), "a network parameter is frozen")
        scramble_net(net, c["seed"], c["scale"])
        mats, _ = net_weights(net)
        r = rng(c["seed"])
        shape = tuple(c["shape"])
        k = r.normal(size=shape + (3,))
        k *= np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=shape + (1,)))
        if c["zero"]:
            k[..., int(r.integers(0, 3))] = 0.0
        kt = torch.tensor(k, dtype=torch.get_default_dtype())
        k = kt.numpy().astype(float)
        keep = kt.clone()
        y = net(kt)
        need(torch.equal(keep, kt), "the wave vectors passed in were modified")
        need(tuple(y.shape) == shape, lambda: f"output shape {tuple(y.shape)} for wave vectors of shape {shape}")
        exp = taunet_ref(mats, nu, k, acts)
        x = np.abs(k)
        out = x
        for W, a in zip(mats[:-1], acts):
            out = ACTS[a](out @ W.T)
        out = out @ mats[-1].T
        a_ = np.linalg.norm(x + out, axis=-1)
        big = np.linalg.norm(x, axis=-1) + np.linalg.norm(np.abs(out), axis=-1)
        ok = a_ > 1e-3 * big  # away from a = 0 (cancellation)
        yv = y.detach().numpy().astype(float)
        tol = 1e-9 if c["dt"] == "float64" else 2e-3
        need(close(yv[ok], exp[ok], tol), lambda: "lifetime: " + relerr(yv[ok], exp[ok]))
        need(bool(np.all(yv[ok] > 0)), "non-positive lifetime")
        flip = k * r.choice([-1.0, 1.0], size=k.shape)
        y2 = net(torch.tensor(flip, dtype=torch.get_default_dtype())).detach().numpy()
        need(np.array_equal(y2, yv.astype(y2.dtype)), "lifetime changes when components of k change sign")
        # batch independence
        if shape and shape[0] > 1:
            y3 = net(kt[:1]).detach().numpy().astype(float)
            need(close(y3[ok[:1]], yv[:1][ok[:1]], tol), "value depends on the other wave vectors of the batch")
        ctx.label(c["act_mode"], f"layers={len(widths)}", f"learn_nu={c['learn_nu']}", c["dt"])
        return bool(np.any(np.linalg.norm(out, axis=-1) > 1e-3 * np.linalg.norm(x, axis=-1)))


RAT = st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 30), nu=unif(-4, 4), lo=wide(1e-4, 10), dec=unif(0, 4),
                                 learn=st.booleans()))


def run_rat(c, ctx):
    from drdmannturb.nn_modules import Rational

    with default_dtype("float64"):
        r = rng(c["seed"])
        x = np.exp(r.uniform(np.log(c["lo"]), np.log(c["lo"]) + c["dec"] * np.log(10), size=c["n"]))
        x *= r.choice([-1.0, 1.0], size=c["n"])
        m = Rational(learn_nu=c["learn"], nu_init=c["nu"])
        y = m(torch.tensor(x)).detach().numpy()
        e = rational_ref(x, c["nu"])
        need(close(y, e, 1e-10), lambda: relerr(y, e))
        need(sum(p.numel() for p in m.parameters()) == int(c["learn"]), "wrong number of trainable parameters")
        return c["nu"] != 0


BAD = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["layers", "int_size", "list_len", "list_val", "act_len", "act_val", "act_type"]),
    n=st.integers(1, 4), bad=st.integers(-3, 0), pos=st.integers(0, 3), extra=st.sampled_from([-1, 1, 2]),
    fl=st.sampled_from([1.5, "2", None]), usefl=st.booleans(),
))


def run_bad(c, ctx):
    from drdmannturb.nn_modules import TauNet

    n = c["n"]
    kind = c["kind"]
    if kind == "layers":
        v = c["fl"] if c["usefl"] else c["bad"]
        f = lambda: TauNet(n_layers=v)  # noqa: E731
    elif kind == "int_size":
        f = lambda: TauNet(n_layers=n, hidden_layer_sizes=c["bad"])  # noqa: E731
    elif kind == "list_len":
        f = lambda: TauNet(n_layers=n, hidden_layer_sizes=[4] * max(0, n + c["extra"]))  # noqa: E731
    elif kind == "list_val":
        s = [4] * n
        s[c["pos"] % n] = c["bad"]
        f = lambda: TauNet(n_layers=n, hidden_layer_sizes=s)  # noqa: E731
    elif kind == "act_len":
        f = lambda: TauNet(n_layers=n, activations=[torch.nn.ReLU()] * max(0, n + c["extra"]))  # noqa: E731
    elif kind == "act_val":
        s = [torch.nn.ReLU()] * n
        s[c["pos"] % n] = torch.relu
        f = lambda: TauNet(n_layers=n, activations=s)  # noqa: E731
    else:
        f = lambda: TauNet(n_layers=n, activations="relu")  # noqa: E731
    expect_raises(ValueError, f, kind)
    ctx.label(kind)
    return True


CONF = st.fixed_dictionaries(dict(
    widths=st.lists(st.integers(1, 7), min_size=1, max_size=4), sizes=st.sampled_from(["list", "list", "int", "wrong"]), acts=st.lists(st.sampled_from(ACT_NAMES), max_size=4), learn_nu=st.booleans(), problem=st.booleans(),
    L=logf(0.1, 10), Gamma=logf(0.1, 5), seed=seeds, scale=logf(0.1, 2), n=st.integers(1, 6)))


def run_conf(c, ctx):
    """a model built from NNParameters has the network described there (activations repeat when the list is shorter)"""
    import drdmannturb as d

    with default_dtype("float64"):
        n = len(c["widths"])
        names = c["acts"][:n]
        kw = dict(nlayers=n, activations=[act(a) for a in names])
        widths = c["widths"]
        if c["sizes"] == "int":
            kw["hidden_layer_size"] = widths[0]
            widths = [widths[0]] * n
        else:
            kw["hidden_layer_sizes"] = list(widths) + ([3] if c["sizes"] == "wrong" else [])
        P = d.NNParameters(**kw)
        ph = phys(c["L"], c["Gamma"], 1.0)
        ig = d.IntegrationParameters(ops_log_min=-1.0, ops_log_max=1.0, ops_num_points=3)

        def make():
            if not c["problem"]:
                return d.OnePointSpectra(d.EddyLifetimeType.TAUNET, ph, P, learn_nu=c["learn_nu"], integration_params=ig)
            t = ctx.tmpdir()
            return d.CalibrationProblem(P, d.ProblemParameters(eddy_lifetime=d.EddyLifetimeType.TAUNET, learn_nu=c["learn_nu"]), d.LossParameters(), ph, ig, logging_directory=t, output_directory=t).OPS

        if c["sizes"] == "wrong":
            expect_raises(ValueError, make, "layer widths that do not match the number of layers")
            return True
        m = make()
        mats, nu = net_weights(m.tauNet)
        sizes = [3] + list(widths) + [3]
        exp = [(sizes[i + 1], sizes[i]) for i in range(n + 1)]
        need([a.shape for a in mats] == exp, lambda: f"layer shapes {[a.shape for a in mats]}, configured {exp}")
        need((nu is not None) == c["learn_nu"], "nu is trainable exactly when requested")
        scramble_net(m.tauNet, c["seed"], c["scale"])
        mats, _ = net_weights(m.tauNet)
        acts = [names[i % len(names)] for i in range(n)] if names else ["ReLU"] * n
        k = rng(c["seed"]).normal(size=(c["n"], 3)) * 2 / c["L"]
        m.exp_scales()
        y = m.EddyLifetime(torch.tensor(k)).detach().numpy()
        e = c["Gamma"] * taunet_ref(mats, -1.0 / 3.0 if nu is None else nu, k * c["L"], acts)
        need(close(y, e, 1e-8), lambda: f"lifetime with activations {acts}: " + relerr(y, e))
        ctx.label(f"acts={len(names)}/{n}", c["sizes"])
        return bool(names) and set(acts) != {"ReLU"}


SUBS = [
    Sub("net", NET, run_net, 400, 15000),
    Sub("rational", RAT, run_rat, 150, 4000),
    Sub("reject", BAD, run_bad, 120, 1000),
    Sub("configured", CONF, run_conf, 120, 4000),
]

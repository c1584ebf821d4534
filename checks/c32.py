"""C32 calibration with coherence data."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from checks.c12 import dataset, full_loss, k1s, report_ok, tensor
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C32"
RULE = "non-trivial: the coherence term makes up at least 1% of the gradient of the loss, or the coherence data are the model's own (fixed-point cases)"

GRADED = [t for t in LIFETIMES if t != "MANN"]  # the exact Mann lifetime is not differentiable
CASE = st.fixed_dictionaries(dict(
    type=st.sampled_from(GRADED), L=wide(0.3, 3, 30), Gamma=logf(0.4, 4), sigma=wide(0.3, 10, 30), seed=seeds, comps=st.sampled_from([3, 4, 6]), n=st.integers(4, 8), learn=st.booleans(),
    tseed=st.integers(0, 999), grid=st.just((-2.0, 2.0, 8)), cgrid=st.tuples(unif(-2.5, -1.5), unif(1, 2), st.integers(5, 9)), width=st.integers(1, 3), nlayers=st.integers(1, 2), zref=logf(0.5, 5),
    mixed=st.booleans(), gam=logf(0.02, 50), Uref=logf(0.5, 30), factor=st.sampled_from([1.0, 6.2831853, 0.5]), nf=st.integers(1, 4), ns=st.integers(4, 7), fzero=st.booleans(), pos=logf(0.1, 2), noise=logf(1e-3, 0.5),
    lr=logf(1e-3, 0.2), nepochs=st.integers(1, 3), wolfe=st.integers(2, 6), shift=unif(-0.7, 0.7), opt=st.sampled_from(["adam", "lbfgs"]),
    loss=st.fixed_dictionaries({}, optional=dict(alpha_pen1=logf(1e-2, 1), alpha_pen2=logf(1e-2, 1), beta_reg=logf(1e-3, 1e-1)))))


def build(c, ctx, **over):
    kw = dict(num_components=c["comps"], nepochs=c["nepochs"], wolfe_iter_count=c["wolfe"], tol=1e-14, learning_rate=c["lr"])
    kw.update(over)
    if c["learn"]:
        kw.update(use_learnable_spectrum=True, p_exponent=3.8, q_exponent=2.9)
    pb = make_problem(dict(c, loss=dict(c["loss"], gamma_coherence=c["gam"]), phys=dict(zref=c["zref"], Uref=c["Uref"], wavenumber_conversion_factor=c["factor"])), ctx.tmpdir(), **kw)
    if c["type"] == "TAUNET":
        scramble_net(pb.OPS.tauNet, c["seed"], 0.2)
    return pb


def points(c):
    r = rng(c["seed"] + 5)
    k = np.sort(np.exp(r.uniform(np.log(0.1), np.log(3), size=c["nf"]))) / c["L"]
    f = k * c["Uref"] / c["factor"]
    if c["fzero"]:
        f = np.concatenate([[0.0], f])
    s = np.cumsum(r.uniform(0.1, 0.6, size=c["ns"])) * c["L"] * c["pos"]
    if c["mixed"]:  # the numbering need not follow the coordinates
        f, s = f[r.permutation(len(f))], s[r.permutation(len(s))]
    return f, s


def model_coherence(pb, c, f, seps):
    out = np.ones((3, len(seps), len(f)))
    on = f > 1e-6
    with torch.no_grad():
        out[:, :, on] = pb.OPS.SpectralCoherence(torch.tensor(c["factor"] * f[on] / c["Uref"]), torch.tensor(seps)).numpy()
    return out


def write(path, f, seps, C):
    with open(path, "w") as h:
        h.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for i, s in enumerate(seps):
            for j, x in enumerate(f):
                h.write(" ".join([str(i), str(j), repr(float(s)), repr(float(x))] + [repr(float(C[q, i, j])) for q in range(3)]) + "\n")


def setup(c, ctx, own):
    """problem, spectra and a coherence file; the reference total loss as a function of the parameter vector"""
    pb = build(c, ctx)
    k1 = k1s(c)
    r = rng(c["seed"] + 9)
    Y = pb.eval(torch.tensor(k1))
    D = tensor(Y if own else Y * np.exp(c["noise"] * r.normal(size=Y.shape)))
    f, seps = points(c)
    twin = build(c, ctx)
    v0 = pb.parameters.copy()
    C0 = model_coherence(twin, c, f, seps)  # fixes the grid of the twin at the starting length scale
    if own:
        C = C0
    else:
        v = v0.copy()
        v[0] += c["shift"]
        v[1] -= c["shift"]
        twin.parameters = v
        C = np.clip(model_coherence(twin, c, f, seps) + 0.05 * r.normal(size=C0.shape), 0, 1)
        twin.parameters = v0.copy()
    path = os.path.join(ctx.tmpdir(), "coherence.dat")
    write(path, f, seps, C)

    def parts(v, idx):
        twin.parameters = np.array(v, float)
        return full_loss(twin, k1, D, c), c["gam"] * float(np.mean((model_coherence(twin, c, f, seps)[:, idx] - C[:, idx]) ** 2))

    return pb, dataset(k1, D), path, v0, parts


def gradient(fn, v, idx, h=1e-5):
    g = np.zeros((2, len(v)))
    for i in range(len(v)):
        a, b = v.copy(), v.copy()
        a[i] += h
        b[i] -= h
        g[:, i] = (np.array(fn(a, idx)) - np.array(fn(b, idx))) / (2 * h)
    return g


def chosen(pb):
    return [int(i) for i in pb.coherence_plot_sep_indices]


def fit(pb, data, path, c):
    kw = dict(optimizer_class=torch.optim.Adam) if c["opt"] == "adam" else {}
    res = pb.calibrate(data, coherence_data_file=path, **kw)
    pb.LossAggregator.writer.close()
    return res


def run_fixed(c, ctx):
    """the model's own spectra and coherence leave it where it is"""
    with default_dtype("float64"):
        c = dict(c, loss={}, opt="lbfgs")
        pb, data, path, v0, _ = setup(c, ctx, True)
        res = fit(pb, data, path, c)
        need(bool(np.all(np.abs(pb.parameters - v0) <= 1e-5)), lambda: f"own spectra and coherence moved the parameters by {np.abs(pb.parameters-v0).max():.3g}")
        need(float(pb.loss) <= 1e-12, lambda: f"loss on own spectra and coherence {float(pb.loss)}")
        report_ok(pb, res, c)
        ctx.label(c["type"])
        return True


def run_direction(c, ctx):
    """the first step goes down the gradient of the whole loss, coherence included"""
    with default_dtype("float64"):
        c = dict(c, nepochs=1, wolfe=1)
        pb, data, path, v0, parts = setup(c, ctx, False)
        fit(pb, data, path, c)
        idx = chosen(pb)
        g = gradient(parts, v0, idx)
        l0 = sum(parts(v0, idx))
        G = g.sum(axis=0)
        H = pb.LossAggregator.component_losses
        need(abs(H["total"][0] - l0) <= 1e-8 * l0, lambda: f"initial loss {H['total'][0]}, the model has {l0}")
        s = pb.parameters - v0
        size = np.abs(G).max()
        if size < 1e-5:
            ctx.label("flat")
            return False
        if c["opt"] == "adam":
            for i in range(3 + 2 * c["learn"]):
                if abs(G[i]) > 1e-3 * size + 1e-5:
                    need(s[i] * G[i] < 0, lambda: f"Adam moved parameter {i} by {s[i]:.3g}; the loss has derivative {G[i]:.4g} (coherence part {g[1, i]:.4g})")
        else:
            smooth = c["type"] != "TAUNET"  # ReLU kinks and zero biases: judge the scales only
            q = slice(None) if smooth else slice(0, 3)
            cos = float(np.dot(s[q], -G[q]) / (np.linalg.norm(s[q]) * np.linalg.norm(G[q]) + 1e-300))
            if np.linalg.norm(G[q]) > 1e-4 * np.linalg.norm(G) and np.linalg.norm(s) > 1e-9:
                need(cos > 0.999, lambda: f"first step {s[q]} against the gradient {G[q]} (coherence part {g[1][q]}): cosine {cos:.4f}")
        ctx.label(c["type"], c["opt"])
        return bool(np.abs(g[1]).max() > 0.01 * size)


def run_descend(c, ctx):
    """training lowers the whole loss, and reports it"""
    with default_dtype("float64"):
        c = dict(c, opt="lbfgs", lr=1.0)
        pb, data, path, v0, parts = setup(c, ctx, c["noise"] < 0.02)
        if c["noise"] < 0.02:  # own spectra: only the coherence pulls
            r = rng(c["seed"] + 2)
            rows = [x.split() for x in open(path).read().splitlines()]
            with open(path, "w") as h:
                for i, x in enumerate(rows):
                    h.write(" ".join(x[:4] + ([repr(float(v) * r.uniform(0.3, 0.9)) for v in x[4:]] if i else x[4:])) + "\n")
        C = np.array([[float(v) for v in x.split()[4:]] for x in open(path).read().splitlines()[1:]])
        f, seps = points(c)
        C = C.reshape(len(seps), len(f), 3).transpose(2, 0, 1)
        res = fit(pb, data, path, c)
        idx = chosen(pb)
        twin = build(c, ctx)
        k1, D = data["k1"].numpy(), data["ops"].numpy()
        model_coherence(twin, c, f, seps)

        def loss(v):
            twin.parameters = np.array(v, float)
            return np.array([full_loss(twin, k1, D, c), c["gam"] * float(np.mean((model_coherence(twin, c, f, seps)[:, idx] - C[:, idx]) ** 2))])

        G = np.zeros(len(v0))
        gc = np.zeros(len(v0))
        for i in range(len(v0)):
            a, b = v0.copy(), v0.copy()
            a[i] += 1e-5
            b[i] -= 1e-5
            d = (loss(a) - loss(b)) / 2e-5
            G[i], gc[i] = d.sum(), d[1]
        l0, l1 = loss(v0).sum(), loss(pb.parameters).sum()
        need(l1 <= l0 * (1 + 1e-6), lambda: f"the loss grew from {l0} to {l1}")
        if np.linalg.norm(G) > 1e-3 * max(1.0, l0):
            need(l1 < l0 - 1e-7 * np.linalg.norm(G) ** 2 / max(1.0, np.linalg.norm(G)), lambda: f"the loss stayed at {l0} (now {l1}) although its gradient is {np.linalg.norm(G):.3g} (coherence part {np.linalg.norm(gc):.3g})")
        H = pb.LossAggregator.component_losses
        need(abs(H["total"][0] - l0) <= 1e-8 * l0, lambda: f"initial loss {H['total'][0]}, the model has {l0}")
        need(min(H["total"]) <= l1 * (1 + 1e-6) and abs(min(H["total"], key=lambda t: abs(t - l1)) - l1) <= 1e-6 * l1 + 1e-12, lambda: f"the loss of the fitted model, {l1}, is not among the evaluated ones")
        for k, tot in enumerate(H["total"]):
            need(abs(sum(H[t][k] for t in ("mse", "coherence", "pen1", "pen2", "regularization")) - tot) <= 1e-6 * abs(tot), "the total loss is not the sum of its parts")
        report_ok(pb, res, c)
        ctx.label(c["type"], "own-spectra" if c["noise"] < 0.02 else "both")
        return bool(np.linalg.norm(gc) > 0.01 * np.linalg.norm(G))


def run_weightless(c, ctx):
    """with a weight of zero the coherence file has no influence"""
    with default_dtype("float64"):
        c = dict(c, gam=0.0)
        pb, data, path, v0, _ = setup(c, ctx, False)
        r1 = fit(pb, data, path, c)
        b = build(c, ctx)
        r2 = fit(b, data, None, c)
        need(np.array_equal(pb.parameters, b.parameters) and r1 == r2, lambda: f"a coherence file of weight zero changed the fit: {pb.parameters[:3]} vs {b.parameters[:3]}")
        ctx.label(c["type"], c["opt"])
        return True


SUBS = [Sub("fixed_" + t, strat(CASE, type=t), run_fixed, 10, 300) for t in GRADED] + [
    Sub("direction_adam", strat(CASE, opt="adam"), run_direction, 40, 1500), Sub("direction_lbfgs", strat(CASE, opt="lbfgs"), run_direction, 40, 1500),
    Sub("descend", CASE, run_descend, 40, 1500), Sub("weightless", CASE, run_weightless, 15, 400)]

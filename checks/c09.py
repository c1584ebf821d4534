"""C09 the training loss."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C09"
RULE = "non-trivial: the misfit is positive and at least one optional term is switched on and non-zero; NaN cases always"

weight = st.one_of(st.just(0.0), wide(1e-4, 100))
CASE = st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(3, 25), st.integers(26, 150)), comps=st.sampled_from([3, 4, 6]), seed=seeds, a1=weight, a2=weight, b=weight, g=weight,
    zref=wide(0.05, 200), theta=st.one_of(st.none(), st.integers(1, 40), st.integers(41, 2000)), coh=st.booleans(), crange=st.sampled_from([(0, 1), (0, 1), (-0.5, 1.5), (0.9, 40.0)]), shape=st.tuples(st.one_of(st.integers(1, 4), st.integers(5, 30)), st.one_of(st.integers(1, 6), st.integers(7, 60))),
    cohkind=st.sampled_from(["torch", "numpy"]), spread=logf(1e-3, 3), dt=dtypes, uniform=st.booleans(), smooth=st.booleans(),
    epoch=st.one_of(st.just(0), st.integers(1, 5), st.integers(6, 5000)), level=st.one_of(st.just(0.0), unif(-3, 3), unif(-12, 12)), offset=st.one_of(st.just(0.0), unif(-25, 25)),
))


def make(c, ctx, **over):
    from drdmannturb import LossParameters
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    r = rng(c["seed"])
    if c["uniform"]:
        k1 = np.logspace(-2, 2, c["n"])
    else:
        k1 = 0.01 * np.exp(np.cumsum(r.uniform(0.05, 1.0, size=c["n"])))
    kt = torch.tensor(k1, dtype=getattr(torch, c["dt"]))
    p = LossParameters(**dict(dict(alpha_pen1=c["a1"], alpha_pen2=c["a2"], beta_reg=c["b"], gamma_coherence=c["g"]), **over))
    return LossAggregator(params=p, k1space=kt, zref=c["zref"], tb_log_dir=ctx.tmpdir()), kt, r


def data(c, r, kt):
    dt = kt.dtype
    base = np.exp(r.normal(size=(c["comps"], c["n"])) * (0.05 if c["smooth"] else 1.0)) * np.exp(r.normal(size=(c["comps"], 1)))
    sg = r.choice([-1.0, 1.0], size=(c["comps"], 1))
    base = base * np.exp(c.get("level", 0.0))
    model = torch.tensor(base * sg, dtype=dt)
    target = torch.tensor(base * np.exp(c.get("offset", 0.0) + c["spread"] * r.normal(size=base.shape)) * r.choice([-1.0, 1.0], size=base.shape), dtype=dt)
    theta = None if c["theta"] is None else torch.tensor(r.normal(size=c["theta"]), dtype=dt)
    coh = None
    if c["coh"]:
        mk = lambda: r.uniform(*c.get("crange", (0, 1)), size=c["shape"])  # noqa: E731
        coh = {f"model_{x}": torch.tensor(mk(), dtype=dt) for x in "uvw"}
        for x in "uvw":
            v = mk()
            coh[f"data_{x}"] = torch.tensor(v, dtype=dt) if c["cohkind"] == "torch" else v
    return model, target, theta, coh


def ref_terms(c, kt, model, target, theta, coh):
    k1 = kt.numpy().astype(float)
    m, t = np.abs(model.numpy().astype(float)), np.abs(target.numpy().astype(float))
    lk = np.log(k1)
    out = dict(mse=np.mean((np.log(m) - np.log(t)) ** 2), pen1=0.0, pen2=0.0, regularization=0.0, coherence=0.0)
    ly = np.log(m)
    s1 = (ly[:, 1:] - ly[:, :-1]) / (lk[1:] - lk[:-1])
    if c["a1"] > 0:
        out["pen1"] = c["a1"] * np.mean(np.maximum(s1, 0) ** 2) / c["zref"]
    if c["a2"] > 0:
        mid = 0.5 * (lk[1:] + lk[:-1])
        s2 = (s1[:, 1:] - s1[:, :-1]) / (mid[1:] - mid[:-1])
        out["pen2"] = c["a2"] * np.mean(np.maximum(s2, 0) ** 2) / c["zref"] ** 2
    if c["b"] > 0 and theta is not None:
        out["regularization"] = c["b"] * np.mean(theta.numpy().astype(float) ** 2)
    if c["g"] > 0 and coh is not None:
        f = lambda v: v.numpy().astype(float) if torch.is_tensor(v) else v  # noqa: E731
        out["coherence"] = c["g"] * np.mean([np.mean((f(coh[f"model_{x}"]) - f(coh[f"data_{x}"])) ** 2) for x in "uvw"])
    return out


def run(c, ctx):
    with default_dtype(c["dt"]):
        agg, kt, r = make(c, ctx)
        try:
            model, target, theta, coh = data(c, r, kt)
            keep = model.clone(), target.clone()
            kw = {} if coh is None else dict(coherence_data=coh)
            v = agg.eval(model, target, theta, c["epoch"], **kw)
            need(torch.equal(keep[0], model) and torch.equal(keep[1], target), "input modified")
            e = ref_terms(c, kt, model, target, theta, coh)
            rt = 1e-9 if c["dt"] == "float64" else 2e-3
            tot = sum(e.values())
            need(abs(float(v) - tot) <= rt * tot + 1e-12, lambda: f"loss {float(v)!r}, expected {tot!r} = {e}")
            need(float(v) >= 0, "negative loss")
            got = {k: agg.component_losses[k][-1] for k in e}
            for k in e:
                need(abs(got[k] - e[k]) <= rt * e[k] + 1e-12, lambda: f"term {k}: {got[k]!r}, expected {e[k]!r}")
            # each term on its own
            need(abs(float(agg.MSE_term(model, target, c["epoch"])) - e["mse"]) <= rt * e["mse"] + 1e-12, "misfit term")
            if c["a1"] > 0:
                need(abs(float(agg.Pen1stOrder(model, 0)) - e["pen1"]) <= rt * e["pen1"] + 1e-12, "first-order penalty")
            if c["a2"] > 0:
                need(abs(float(agg.Pen2ndOrder(model, 0)) - e["pen2"]) <= rt * e["pen2"] + 1e-12, "second-order penalty")
            # sign of the spectra is irrelevant
            w = agg.eval(-model, target, theta, c["epoch"] + 1, **kw)
            need(abs(float(w) - float(v)) <= 1e-5 * abs(float(v)) + 1e-12, "loss depends on the sign of the model spectra")
            w = agg.eval(model, -target, theta, c["epoch"] + 2, **kw)
            need(abs(float(w) - float(v)) <= 1e-5 * abs(float(v)) + 1e-12, "loss depends on the sign of the data")
        finally:
            agg.writer.close()
        # perfect match
        agg, kt, r = make(c, ctx, alpha_pen1=0.0, alpha_pen2=0.0, beta_reg=0.0, gamma_coherence=0.0)
        try:
            z = agg.eval(model, model.clone(), theta, 0, **kw)
            need(float(z) == 0.0, lambda: f"perfect match has loss {float(z)}")
            z = float(agg.eval(model, target, theta, 0, **kw))
            need(abs(z - e["mse"]) <= rt * e["mse"] + 1e-12, "terms with zero weight contribute")
        finally:
            agg.writer.close()
        ctx.label(c["dt"], *[k for k, x in e.items() if x > 0])
        return e["mse"] > 0 and tot > e["mse"]


NAN = st.fixed_dictionaries(dict(
    n=st.integers(3, 12), comps=st.sampled_from([3, 4]), seed=seeds, where=st.sampled_from(["model", "target", "both0", "theta", "cohm", "cohd"]),
    a1=st.just(0.5), a2=st.just(0.5), b=st.just(0.5), g=st.just(0.5), zref=st.just(2.0), theta=st.just(6), coh=st.just(True), shape=st.just((2, 3)),
    cohkind=st.sampled_from(["torch", "numpy"]), spread=st.just(0.3), dt=st.just("float64"), uniform=st.booleans(), smooth=st.booleans(),
    comp=st.sampled_from(["u", "v", "w"]),
))


def run_nan(c, ctx):
    with default_dtype("float64"):
        agg, kt, r = make(c, ctx)
        try:
            model, target, theta, coh = data(c, r, kt)
            i, j = int(r.integers(0, c["comps"])), int(r.integers(0, c["n"]))
            w = c["where"]
            if w == "model":
                model[i, j] = float("nan")
            elif w == "target":
                target[i, j] = float("nan")
            elif w == "both0":
                model[i, j] = target[i, j] = 0.0
            elif w == "theta":
                theta[int(r.integers(0, 6))] = float("nan")
            else:
                coh[("model_" if w == "cohm" else "data_") + c["comp"]][int(r.integers(0, 2)), int(r.integers(0, 3))] = float("nan")
            try:
                v = agg.eval(model, target, theta, 1, coherence_data=coh)
            except ValueError:
                ctx.label(w)
                return True
            fail(f"NaN input ({w}) accepted, loss {float(v)}")
        finally:
            agg.writer.close()


SUBS = [Sub("terms", CASE, run, 150, 4000), Sub("terms2", CASE, run, 150, 4000), Sub("nan", NAN, run_nan, 60, 600)]

"""C12 calibration."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C12"
RULE = ("non-trivial: calibration moved at least one parameter by more than 1e-4 (report/recover cases), or started from non-unit "
        "scales on its own spectra (fixed-point cases)")

IJ = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))
BASE = dict(
    L=wide(0.3, 3), Gamma=logf(0.4, 4), sigma=wide(0.3, 10), seed=seeds, comps=st.sampled_from([3, 4, 6]), nepochs=st.integers(1, 3),
    wolfe=st.integers(2, 8), n=st.one_of(st.integers(4, 9), st.integers(10, 30)), signs=st.booleans(), learn=st.booleans(), learn_nu=st.booleans(), tseed=st.integers(0, 999),
    grid=st.just((-2.0, 2.0, 10)), width=st.integers(2, 5), nlayers=st.integers(1, 2), zref=logf(0.5, 5),
)


def build(c, ctx, **over):
    kw = dict(num_components=c["comps"], nepochs=c["nepochs"], wolfe_iter_count=c["wolfe"], tol=c.get("tol", 1e-14), learning_rate=c.get("lr", 1.0))
    if c["learn"]:
        kw.update(use_learnable_spectrum=True, p_exponent=4.0, q_exponent=17.0 / 6.0)
    cc = dict(c, loss=c.get("loss", {}), phys=dict(zref=c["zref"]), **over)
    return make_problem(cc, ctx.tmpdir(), **kw)


def k1s(c):
    return np.sort(logvec(rng(c["seed"]), 0.1, 10, c["n"])) / c["L"]


def tensor(Y):
    """(6,n) rows uu,vv,ww,uw,vw,uv -> (n,3,3) data"""
    D = np.zeros((Y.shape[1], 3, 3))
    for r, (i, j) in enumerate(IJ):
        D[:, i, j] = Y[r]
    return D


def dataset(k1, D):
    return {"k1": torch.tensor(k1), "ops": torch.tensor(D), "coherence": None}


def misfit(Y, D, comps):
    T = np.array([D[:, i, j] for i, j in IJ])[:comps]
    return float(np.mean(np.log(np.abs(Y[:comps] / T)) ** 2))


def full_loss(pb, k1, D, c):
    """documented loss of the present model against the data (no coherence)"""
    Y = pb.eval(torch.tensor(k1))
    l_ = misfit(Y, D, c["comps"])
    p = c.get("loss", {})
    lk, ly = np.log(k1), np.log(np.abs(Y[: c["comps"]]))
    s1 = np.diff(ly, axis=1) / np.diff(lk)
    if p.get("alpha_pen1"):
        l_ += p["alpha_pen1"] * np.mean(np.maximum(s1, 0) ** 2) / c["zref"]
    if p.get("alpha_pen2"):
        s2 = np.diff(s1, axis=1) / np.diff(0.5 * (lk[1:] + lk[:-1]))
        l_ += p["alpha_pen2"] * np.mean(np.maximum(s2, 0) ** 2) / c["zref"] ** 2
    if p.get("beta_reg") and c["type"] == "TAUNET":  # the other models have no network weights
        th = np.concatenate([q.detach().numpy().reshape(-1) for q in pb.OPS.tauNet.parameters()])
        l_ += p["beta_reg"] * np.mean(th**2)
    return l_


def report_ok(pb, res, c):
    v = pb.parameters
    need(set(res) == {"L", "Γ", "σ"} | ({"p", "q"} if c["learn"] else set()), lambda: f"reported parameters {sorted(res)}")
    e = dict(zip(["L", "Γ", "σ"], np.exp(v[:3])))
    if c["learn"]:
        e.update(p=v[3], q=v[4])
    for k, x in e.items():
        need(abs(float(res[k]) - x) <= 1e-9 * abs(x), lambda: f"reported {k} = {res[k]}, the model has {x}")
    need(all(float(pb.calibrated_params[k]) == float(res[k]) for k in res), "stored parameters differ from the returned ones")
    pb.print_calibrated_params()
    LTM = pb.OPS.exp_scales()
    need(close(LTM, np.exp(v[:3]), 1e-9), "scales of the model differ from its parameters")


FIX = st.fixed_dictionaries(dict(BASE, type=st.sampled_from(LIFETIMES), twice=st.booleans()))


def run_fix(c, ctx):
    """the model's own spectra leave the parameters where they are"""
    with default_dtype("float64"):
        pb = build(c, ctx)
        if c["type"] == "TAUNET":
            scramble_net(pb.OPS.tauNet, c["seed"], 0.2)
        k1 = k1s(c)
        v0 = pb.parameters.copy()
        D = tensor(pb.eval(torch.tensor(k1)))
        data = dataset(k1, D)
        for _ in range(2 if c["twice"] else 1):
            res = pb.calibrate(data)
        pb.LossAggregator.writer.close()
        v1 = pb.parameters
        need(bool(np.all(np.abs(v1 - v0) <= 1e-5)), lambda: f"own spectra moved the parameters by {np.abs(v1-v0).max():.3g}: {v0[:5]} -> {v1[:5]}")
        report_ok(pb, res, c)
        need(float(pb.loss) <= 1e-12, lambda: f"loss on own spectra {float(pb.loss)}")
        ctx.label(c["type"], f"comps={c['comps']}")
        return True


REP = st.fixed_dictionaries(dict(
    BASE, type=st.sampled_from(LIFETIMES), source=st.sampled_from(["kaimal", "vk", "random", "near"]), dL=unif(-0.4, 0.4), dG=unif(-0.4, 0.4), dS=unif(-0.6, 0.6),
    loss=st.fixed_dictionaries({}, optional=dict(alpha_pen1=logf(1e-3, 1), alpha_pen2=logf(1e-3, 1), beta_reg=logf(1e-4, 1e-1))),
    lr=st.sampled_from([0.1, 1.0]), again=st.booleans(), tol=st.sampled_from([1e-14, 1e-3, 10.0]), opt=st.sampled_from(["lbfgs"] * 4 + ["adam"])))


def source(c, pb, k1):
    r = rng(c["seed"] + 1)
    Y = pb.eval(torch.tensor(k1)).copy()
    if c["signs"]:  # the fit sees magnitudes only
        Y *= r.choice([-1.0, 1.0], size=(6, 1)) * (r.choice([-1.0, 1.0], size=Y.shape) if c["seed"] % 2 else 1.0)
    if c["source"] == "near":
        return tensor(Y * np.exp(10 ** r.uniform(-6, -2) * r.normal(size=Y.shape)))
    if c["source"] == "random":
        return tensor(Y * np.exp(0.5 * r.normal(size=(6, 1)) + 0.2 * r.normal(size=Y.shape)))
    lx = np.log(k1 * c["L"])
    tilt = np.exp(0.6 * np.sin(lx + (0 if c["source"] == "vk" else 1)))
    return tensor(Y * tilt * np.exp(0.4 * r.normal(size=(6, 1))))


def run_rep(c, ctx):
    with default_dtype("float64"):
        pb = build(c, ctx)
        k1 = k1s(c)
        D = source(c, pb, k1)
        data = dataset(k1, D)
        keep = copy.deepcopy(data)
        v0 = pb.parameters.copy()
        l0 = full_loss(pb, k1, D, c)
        kw = dict(optimizer_class=torch.optim.Adam) if c["opt"] == "adam" else {}
        res = pb.calibrate(data, **kw)
        pb.LossAggregator.writer.close()
        report_ok(pb, res, c)
        need(all(torch.equal(data[k], keep[k]) for k in ("k1", "ops")), "the data were modified")
        h = pb.LossAggregator.component_losses["total"]
        need(abs(h[0] - l0) <= 1e-7 * l0 + 1e-12, lambda: f"initial loss {h[0]}, expected {l0}")
        l1 = full_loss(pb, k1, D, c)
        need(np.isfinite(l1), "final loss not finite")
        per = 2 if c["opt"] == "adam" else 1.25 * c["wolfe"] + 60
        need(len(h) <= 1 + c["nepochs"] * per, lambda: f"{len(h)} evaluations in {c['nepochs']} epochs")
        if c["tol"] == 10.0 and l0 < 5 and c["opt"] != "adam":
            need(len(h) <= 2 + per, "training went on after the tolerance was reached")
            ctx.label("early-stop")
        if c["type"] != "MANN" and c["opt"] == "lbfgs":
            need(l1 <= l0 * (1 + 1e-9) + 1e-12, lambda: f"loss grew from {l0} to {l1}")
        v1 = pb.parameters.copy()
        # same data, same start: same result; unused entries play no role
        D2 = D.copy()
        used = set(IJ[: c["comps"]])
        for i in range(3):
            for j in range(3):
                if (i, j) not in used:
                    D2[:, i, j] = rng(c["seed"] + 9).normal(size=len(k1)) * 5
        pb2 = build(c, ctx)
        need(np.array_equal(pb2.parameters, v0), "the starting point is not reproducible")
        res2 = pb2.calibrate(dataset(k1, D2), **kw)
        pb2.LossAggregator.writer.close()
        need(bool(np.all(np.abs(pb2.parameters - v1) <= 1e-10 * (1 + np.abs(v1)))),
             lambda: f"result depends on components that are not fitted (or is not reproducible): {v1[:5]} vs {pb2.parameters[:5]}")
        need(all(abs(float(res[k]) - float(res2[k])) <= 1e-9 * abs(float(res[k])) for k in res), "reported parameters differ between equal runs")
        if c["again"] and c["opt"] == "lbfgs":
            res = pb.calibrate(data)
            pb.LossAggregator.writer.close()
            report_ok(pb, res, c)
            h = pb.LossAggregator.component_losses["total"]
            need(abs(h[0] - l1) <= 1e-7 * l1 + 1e-12, lambda: f"a second calibration starts at loss {h[0]}, the first ended at {l1}")
            if c["type"] != "MANN":
                l2 = full_loss(pb, k1, D, c)
                need(l2 <= l1 * (1 + 1e-9) + 1e-12, lambda: f"a second calibration raised the loss from {l1} to {l2}")
            ctx.label("again")
        ctx.label(c["type"], f"comps={c['comps']}", c["opt"], *c["loss"])
        return bool(np.any(np.abs(v1 - v0) > 1e-4))


REC = st.fixed_dictionaries(dict(BASE, L=logf(0.3, 3), sigma=logf(0.3, 10), type=st.sampled_from(["CONST", "TWOTHIRD", "MANN_APPROX"]), dL=unif(-0.4, 0.4), dG=unif(-0.4, 0.4), dS=unif(-0.6, 0.6)))


def run_rec(c, ctx):
    """spectra of other scales are recovered"""
    with default_dtype("float64"):
        c = dict(c, learn=False, nepochs=25, wolfe=20, comps=4, n=max(6, c["n"]), tol=1e-16)
        truth = build(dict(c, L=c["L"] * np.exp(c["dL"]), Gamma=c["Gamma"] * np.exp(c["dG"]), sigma=c["sigma"] * np.exp(c["dS"])), ctx)
        pb = build(c, ctx)
        k1 = k1s(c)
        D = tensor(truth.eval(torch.tensor(k1)))
        v0 = pb.parameters.copy()
        res = pb.calibrate(dataset(k1, D))
        pb.LossAggregator.writer.close()
        report_ok(pb, res, c)
        l1 = full_loss(pb, k1, D, c)
        e = truth.parameters
        dev = np.abs(pb.parameters - e).max()
        need(dev < 1e-2 or l1 < 1e-9, lambda: f"true log-scales {e}, fitted {pb.parameters} from {v0}, loss {l1:.3g}")
        ctx.label(c["type"], "exact" if dev < 1e-2 else "degenerate")
        return bool(np.any(np.abs(v0 - e) > 1e-3))


BAD = st.fixed_dictionaries(dict(BASE, type=st.sampled_from(["CONST", "TWOTHIRD"]), what=st.sampled_from(["nan", "zero"])))


def run_bad(c, ctx):
    """data the fit cannot use end in an error, never in a reported fit"""
    with default_dtype("float64"):
        pb = build(c, ctx)
        k1 = k1s(c)
        D = tensor(pb.eval(torch.tensor(k1)))
        r = rng(c["seed"])
        i, j = IJ[int(r.integers(0, c["comps"]))]
        D[int(r.integers(0, len(k1))), i, j] = np.nan if c["what"] == "nan" else 0.0
        try:
            res = pb.calibrate(dataset(k1, D))
        except (ValueError, RuntimeError):
            ctx.label(c["what"])
            return True
        finally:
            if hasattr(pb, "LossAggregator"):
                pb.LossAggregator.writer.close()
        fail(f"unusable data ({c['what']} in component {i}{j}) gave the fit {res}")


EPO = st.fixed_dictionaries(dict(
    BASE, type=st.sampled_from(["CONST", "TWOTHIRD", "TAUNET"]), source=st.sampled_from(["kaimal", "vk", "random", "near", "near"]), n2=st.integers(1, 130), lr=st.sampled_from([0.02, 0.1, 0.5, 1.0]),
    dec=st.one_of(unif(-6, 0.3), unif(-1, 0.3)), hist=st.booleans(), opt=st.sampled_from(["lbfgs", "lbfgs", "adam"]), advice=st.sampled_from([None, None, 0.3, 0.5, 0.7])))


def run_epochs(c, ctx):
    """every epoch is one optimizer step at the annealed learning rate; training ends at the tolerance or after nepochs"""
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    with default_dtype("float64"):
        c = dict(c, nepochs=c["n2"], wolfe=1, n=4, grid=[-2.0, 2.0, 4])
        probe = build(c, ctx)
        k1 = k1s(c)
        D = source(c, probe, k1)
        ctx.label(c["source"])
        l0 = full_loss(probe, k1, D, c)
        c["tol"] = l0 * 10 ** c["dec"]
        pb = build(c, ctx)
        name = "Adam" if c["opt"] == "adam" else "LBFGS"
        orig, lrs, losses, asked = getattr(torch.optim, name), [], [], []

        class Watched(orig):
            def step(self, *a, **k):
                lrs.append(sorted({float(g["lr"]) for g in self.param_groups}))
                if name == "LBFGS":
                    need(all(g["max_iter"] == c["wolfe"] for g in self.param_groups), "the line search iteration count is not the configured one")
                out = super().step(*a, **k)
                losses.append(float(pb.loss))
                return out

        advise = LossAggregator.should_adjust_learning_rate

        def told(self, *a, **k):
            d = advise(self, *a, **k)
            if c["advice"]:
                d = {"adjust": True, "reason": "told", "factor": c["advice"]}
            asked.append((len(lrs), d["adjust"], d.get("factor")))
            return d

        setattr(torch.optim, name, Watched)
        LossAggregator.should_adjust_learning_rate = told
        try:
            pb.calibrate(dataset(k1, D), optimizer_class=Watched)
        finally:
            setattr(torch.optim, name, orig)
            LossAggregator.should_adjust_learning_rate = advise
            pb.LossAggregator.writer.close()
        N, n = c["nepochs"], len(lrs)
        need(1 <= n <= N, lambda: f"{n} epochs, {N} configured")
        need(all(v >= c["tol"] for v in losses[:-1]), lambda: f"training went on after epoch {next(i for i, v in enumerate(losses) if v < c['tol']) + 1} reached the tolerance {c['tol']:.3g}")
        need(n == N or losses[-1] < c["tol"], lambda: f"training stopped after {n} of {N} epochs at loss {losses[-1]:.3g}, tolerance {c['tol']:.3g}")
        # the rate of epoch e+1: the cosine step from that of epoch e, times the factor advised in between
        lr = c["lr"]
        for e in range(n):
            need(len(lrs[e]) == 1 and abs(lrs[e][0] - lr) <= 1e-9 * c["lr"], lambda: f"epoch {e + 1} of {N} ran at the rate {lrs[e]}, expected {lr}")
            lr *= (1 + np.cos(np.pi * (e + 1) / N)) / (1 + np.cos(np.pi * e / N))
            for at, yes, f in asked:
                if at == e + 1 and yes:
                    lr *= f
        want = [e for e in range(50, n + 1, 50) if losses[e - 1] >= c["tol"]]
        need([a for a, _, _ in asked] == want, lambda: f"advice was asked for after epochs {[a for a, _, _ in asked]}, expected {want}")
        ctx.label("tolerance" if n < N else "all-epochs", c["opt"], "adjusted" if any(y for _, y, _ in asked) else "not-adjusted")
        return n > 1


SUBS = [
    Sub("epochs", EPO, run_epochs, 40, 800),
    Sub("fixpoint", FIX, run_fix, 50, 2000),
    Sub("fixpoint_net", strat(FIX, type="TAUNET"), run_fix, 30, 1000),
    *[Sub("report_" + t, strat(REP, type=t), run_rep, n, 1000) for t, n in (("TAUNET", 35), ("CONST", 25), ("TWOTHIRD", 25), ("MANN_APPROX", 25), ("MANN", 15))],
    Sub("recover", REC, run_rec, 10, 400),
    Sub("recover2", REC, run_rec, 10, 400),
    Sub("unusable", BAD, run_bad, 40, 500),
]

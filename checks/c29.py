"""C29 what the training log contains and what the loss figure shows."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.plots import setup

ID = "C29"
RULE = "non-trivial: at least four evaluations with two or more active loss terms"

TERMS = {"mse": "MSE Loss", "pen1": "1st Order Penalty", "pen2": "2nd Order Penalty", "regularization": "Regularization", "coherence": "Coherence Loss/Total"}
SHARES = {"MSE": ("mse",), "Coherence": ("coherence",), "Penalties": ("pen1", "pen2"), "Regularization": ("regularization",)}


def read_log(path):
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator

    acc = EventAccumulator(path, size_guidance={"scalars": 0})
    acc.Reload()
    return {t: [(e.step, e.value) for e in acc.Scalars(t)] for t in acc.Tags()["scalars"]}


def near(a, b):
    return abs(a - b) <= 3e-6 * abs(b) + 1e-30


def same(tag, got, exp):
    need(len(got) == len(exp), lambda: f"{tag}: {len(got)} entries in the log, {len(exp)} evaluations")
    for i, ((s, v), (es, ev)) in enumerate(zip(got, exp)):
        need(s == es and near(v, ev), lambda: f"{tag}: entry {i} is {v} at step {s}, expected {ev} at step {es}")


def shares(hist, steps):
    """expected component ratios: shares of the running averages, from epoch 1 on"""
    out = {k: [] for k in SHARES}
    avg = None
    for i, s in enumerate(steps):
        v = {k: hist[k][i] for k in TERMS}
        avg = v if avg is None else {k: 0.9 * avg[k] + 0.1 * v[k] for k in v}
        tot = sum(avg.values())
        if s > 0 and tot > 0:
            for k, parts in SHARES.items():
                out[k].append((s, sum(avg[p] for p in parts) / tot))
    return out


def check_log(log, hist, steps, active):
    for k, tag in TERMS.items():
        if k in active:
            same(tag, log.get(tag, []), list(zip(steps, hist[k])))
        else:
            need(tag not in log, lambda: f"the log has {tag}, which is not part of the loss")
    for k, e in shares(hist, steps).items():
        same("share of " + k, log.get("Component_Ratios/" + k, []), e)


CASE = st.fixed_dictionaries(dict(
    seed=seeds, n=st.integers(3, 8), comps=st.sampled_from([3, 4, 6]), gaps=st.lists(st.integers(0, 3), min_size=0, max_size=25), start=st.one_of(st.sampled_from([0, 0, 1, 7]), st.integers(0, 20000)),
    a1=st.sampled_from([0.0, 0.3, 1.0]), a2=st.sampled_from([0.0, 0.2, 1.0]), b=st.sampled_from([0.0, 0.05]), g=st.sampled_from([0.0, 2.0]), size=logf(1e-4, 10), coh=st.booleans(),
    two=st.booleans()))


def feed(agg, c, r, steps, k1):
    """evaluates the loss on random spectra; returns the three coherence misfits by evaluation"""
    cohs = []
    for s in steps:
        y = torch.tensor(np.exp(r.normal(size=(c["comps"], c["n"]))))
        t = y * torch.tensor(np.exp(c["size"] * r.normal(size=y.shape)))
        th = torch.tensor(r.normal(size=7))
        coh = None
        if c["coh"]:
            coh = {f"{w}_{x}": torch.tensor(r.uniform(size=(2, 3))) for x in "uvw" for w in ("model", "data")}
            cohs.append([float(((coh[f"model_{x}"] - coh[f"data_{x}"]) ** 2).mean()) for x in "uvw"])
        agg.eval(y, t, th, s, coherence_data=coh)
    return cohs


def run(c, ctx):
    from drdmannturb import LossParameters
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    with default_dtype("float64"):
        r = rng(c["seed"])
        k1 = torch.tensor(np.sort(np.exp(r.uniform(-3, 3, size=c["n"]))))
        par = LossParameters(alpha_pen1=c["a1"], alpha_pen2=c["a2"], beta_reg=c["b"], gamma_coherence=c["g"])
        dirs = [ctx.tmpdir() for _ in range(2 if c["two"] else 1)]
        aggs = [LossAggregator(params=par, k1space=k1, zref=1.5, tb_log_dir=d) for d in dirs]
        steps = [int(s) for s in c["start"] + np.cumsum([0] + c["gaps"])]
        cohs = [feed(a, c, r, steps, k1) for a in aggs]
        for a in aggs:
            a.writer.close()
        active = {"mse"} | {k for k, w in (("pen1", c["a1"]), ("pen2", c["a2"]), ("regularization", c["b"])) if w}
        if c["g"] and c["coh"]:
            active.add("coherence")
        for d, a, co in zip(dirs, aggs, cohs):
            files = os.listdir(d)
            need(len(files) == 1, lambda: f"files in the log directory: {files}")
            log = read_log(os.path.join(d, files[0]))
            check_log(log, a.component_losses, steps, active)
            if "coherence" in active:
                for i, x in enumerate("UVW"):
                    same(f"coherence of {x}", log.get(f"Coherence Loss/{x}-component", []), [(s, v[i]) for s, v in zip(steps, co)])
        ctx.label(*(sorted(active) + (["gaps"] if any(g > 1 for g in c["gaps"]) else [])))
        return len(steps) >= 4 and len(active) >= 2


FIT = st.fixed_dictionaries(dict(
    type=st.sampled_from(["CONST", "TWOTHIRD", "TAUNET", "MANN_APPROX"]), L=logf(0.3, 3), Gamma=logf(0.5, 4), sigma=logf(0.3, 3), nepochs=st.integers(1, 3), n=st.integers(4, 7), seed=seeds, runs=st.integers(1, 3),
    loss=st.fixed_dictionaries({}, optional=dict(alpha_pen1=logf(1e-2, 1), alpha_pen2=logf(1e-2, 1), beta_reg=logf(1e-3, 1e-1))), plot=st.integers(0, 2), nest=st.booleans(), last=st.booleans(), again=st.booleans()))


def run_fit(c, ctx):
    plt = setup()
    import shutil

    d = ctx.tmpdir()
    logdir = os.path.join(d, "a", "logs") if c["nest"] else os.path.join(d, "logs")
    try:
        with default_dtype("float64"):
            r = rng(c["seed"])
            k1 = torch.tensor(np.exp(np.linspace(-2, 2, c["n"])) / c["L"])
            hists, files = [], []
            par = dict(c, prob=dict(nepochs=c["nepochs"], wolfe_iter_count=4, tol=1e-13, num_components=4), grid=[-2.0, 2.0, 5])
            for run_ in range(c["runs"]):
                if not run_ or not c["again"]:  # or the same problem is calibrated again
                    pb = make_problem(par, logdir)
                Y = pb.eval(k1)
                D = np.zeros((c["n"], 3, 3))
                for q, (i, j) in enumerate([(0, 0), (1, 1), (2, 2), (0, 2)]):
                    D[:, i, j] = Y[q] * np.exp(0.3 * r.normal(size=c["n"]))
                here = set(os.listdir(os.getcwd()))
                pb.calibrate({"k1": k1, "ops": torch.tensor(D), "coherence": None})
                pb.LossAggregator.writer.flush()
                need(set(os.listdir(os.getcwd())) == here, "files appeared in the working directory although a log directory was given")
                new = set(os.listdir(logdir)) - set(files)
                need(len(new) == 1, lambda: f"a run added {sorted(new)} to the log directory")
                files += list(new)
                hists.append({k: list(v) for k, v in pb.LossAggregator.component_losses.items()})
            active = {"mse"} | {k for k, w in (("pen1", "alpha_pen1"), ("pen2", "alpha_pen2")) if c["loss"].get(w)}
            if c["loss"].get("beta_reg") and c["type"] == "TAUNET":
                active.add("regularization")
            logs = []
            for f, h in zip(files, hists):
                log = read_log(os.path.join(logdir, f))
                n = len(h["mse"])
                steps = [s for s, _ in log.get("MSE Loss", [])]
                need(len(steps) == n and steps[0] == 0 and steps == sorted(steps), lambda: f"{n} evaluations, logged steps {steps}")
                need(max(np.diff([-1] + sorted(set(steps)))) == 1, lambda: f"logged steps have gaps: {steps}")
                check_log(log, h, steps, active)
                logs.append(log)
            if files != sorted(files):  # file names of the same second do not sort by age
                ctx.label("names-unordered")
            else:
                q = c["plot"] % c["runs"]
                plt.close("all")
                pb.plot_losses(q - c["runs"] if c["last"] else q)
                axs = plt.gcf().get_axes()
                shown = {a.get_title(): [float(v) for v in a.get_lines()[0].get_ydata()] for a in axs}
                need(set(shown) == set(logs[q]) and len(axs) == len(shown), lambda: f"panels {sorted(shown)}, logged terms {sorted(logs[q])}")
                for t, y in shown.items():
                    e = [v for _, v in logs[q][t]]
                    k = len(e) - len(y)
                    need(0 <= k <= 2 and all(near(a, b) for a, b in zip(y, e[k:])), lambda: f"panel {t} of run {q} shows {y[:4]}..., logged {e[:4]}...")
                ctx.label("figure", f"run={q}/{c['runs']}")
            pb.LossAggregator.writer.close()
        ctx.label(c["type"])
        return len(active) >= 2
    finally:
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


def run_early(c, ctx):
    import drdmannturb as d

    pb = make_problem(dict(type="CONST", L=1.0, Gamma=c["Gamma"], sigma=1.0, grid=[-1.0, 1.0, 4]), None)
    expect_raises((AssertionError, ValueError, RuntimeError), lambda: pb.plot_losses(0), "loss figure without a log directory")
    return False


LONG = st.fixed_dictionaries(dict(seed=seeds, n=st.one_of(st.integers(3, 60), st.integers(400, 2500), st.integers(9000, 13000)), tags=st.integers(2, 4), gap=st.integers(0, 2)))


def run_long(c, ctx):
    """the figure of a log of any length shows all of it"""
    from drdmannturb.common import plot_loss_logs
    from torch.utils.tensorboard import SummaryWriter

    plt = setup()
    r = rng(c["seed"])
    d = ctx.tmpdir()
    w = SummaryWriter(log_dir=d)
    names = ["MSE Loss", "1st Order Penalty", "2nd Order Penalty", "Regularization"][: c["tags"]]
    n = c["n"] if c["n"] < 9000 else 10050 + c["n"] % 200
    many = names if n < 3000 else names[:1]  # one long series is enough
    V = {t: np.exp(r.normal(size=n if t in many else 20)).astype(np.float32).astype(float) for t in names}
    for t in names:
        for i, v in enumerate(V[t]):
            w.add_scalar(t, v, i // (c["gap"] + 1))
    w.close()
    try:
        plt.close("all")
        plot_loss_logs(os.path.join(d, os.listdir(d)[0]))
        axs = plt.gcf().get_axes()
        shown = {a.get_title(): np.asarray(a.get_lines()[0].get_ydata(), float) for a in axs}
        need(set(shown) == set(names), lambda: f"panels {sorted(shown)}, logged terms {names}")
        for t, y in shown.items():
            k = len(V[t]) - len(y)
            need(0 <= k <= 2, lambda: f"panel {t} shows {len(y)} of {len(V[t])} logged values")
            need(close(y, V[t][k:], 3e-6), lambda: f"panel {t} does not show the logged values in order")
        ctx.label("over-10000" if n > 10000 else "over-500" if n > 500 else "short")
        return n >= 4
    finally:
        plt.close("all")


SUBS = [
    Sub("long", LONG, run_long, 10, 200),
    Sub("log", CASE, run, 60, 2000), Sub("fit", FIT, run_fit, 25, 800), Sub("fit2", FIT.map(lambda c: dict(c, runs=max(2, c["runs"]))), run_fit, 20, 800),
    Sub("no_directory", st.fixed_dictionaries(dict(Gamma=logf(0.5, 4))), run_early, 3, 10),
]

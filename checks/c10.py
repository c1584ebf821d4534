"""C10 loss history, running averages, schedule advice."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C10"
RULE = "non-trivial: the history is at least as long as the queried window (so diagnostics are computed) and not constant"

KEYS = ["mse", "coherence", "pen1", "pen2", "regularization"]
CASE = st.fixed_dictionaries(dict(
    seed=seeds, steps=st.one_of(st.integers(0, 90), st.integers(20, 110)), window=st.sampled_from([2, 3, 5, 8, 20, 49, 50, 50, 70]), default_window=st.booleans(),
    shape=st.sampled_from(["decay", "flat", "grow", "noisy", "huge", "tiny", "zeros", "ramp", "ramp", "slow", "slow"]), amp=logf(0.05, 100), spread=st.one_of(unif(0.5, 5), unif(2.0, 2.7)), a1=st.sampled_from([0.0, 0.3]), a2=st.sampled_from([0.0, 0.2]),
    b=st.sampled_from([0.0, 0.1]), g=st.sampled_from([0.0, 2.0]), cohsize=logf(1e-6, 1), bad=st.lists(st.integers(0, 90), max_size=3),
    queries=st.lists(st.integers(0, 90), max_size=3), epoch_off=st.integers(-60, 60), full=st.booleans(),
))


class Model:
    def __init__(self):
        self.h = {k: [] for k in KEYS + ["total"]}
        self.avg = {k: 0.0 for k in KEYS}

    def add(self, vals):
        first = not self.h["mse"]
        for k in KEYS:
            self.h[k].append(vals[k])
            self.avg[k] = vals[k] if first else 0.9 * self.avg[k] + 0.1 * vals[k]
        self.h["total"].append(sum(vals.values()))

    def diagnostics(self, w):
        if len(self.h["total"]) < w:
            return {}
        d = {}
        for k, v in self.h.items():
            x = np.array(v[-w:])
            d[k + "_mean"], d[k + "_std"] = x.mean(), x.std()
        m = {k: d[k + "_mean"] for k in KEYS}
        d["_dominant"] = m
        d["dominance_ratio"] = max(m.values()) / max(min(m.values()), 1e-8)
        t = np.array(self.h["total"][-w:])
        e, r = t[: w // 2].mean(), t[w // 2:].mean()
        d["improvement_ratio"] = (e - r) / max(e, 1e-8)
        d["stability"] = 1 / (1 + t.std())
        return d

    def advice(self, epoch, w):
        """set of acceptable answers (reason, factor); several only next to a threshold"""
        if epoch < w:
            return {("insufficient_data", None)}
        d = self.diagnostics(w)
        if not d:
            return {("no_diagnostics", None)}
        res = set()

        def near(x, t):
            return abs(x - t) <= 1e-9 * (1 + abs(t))

        i, s, m = d["improvement_ratio"], d["stability"], d["dominance_ratio"]
        if i < 0.01 or near(i, 0.01):
            res.add(("stagnation", 0.5))
            if not near(i, 0.01):
                return res
        if s < 0.3 or near(s, 0.3):
            res.add(("instability", 0.3))
            if not near(s, 0.3):
                return res
        if m > 100 or abs(m - 100) < 1e-4:
            res.add(("component_dominance", 0.7))
            if m > 100.001:
                return res
        res.add(("healthy_training", None))
        return res


def near(a, b, rt=1e-8, at=1e-12):
    return abs(a - b) <= rt * max(abs(a), abs(b)) + at


def run(c, ctx):
    from drdmannturb import LossParameters
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    if c["full"]:  # all terms on and of comparable size
        c = dict(c, a1=0.3, a2=0.2, b=0.1, g=2.0, cohsize=max(c["cohsize"], 0.05))
    with default_dtype("float64"):
        r = rng(c["seed"])
        k1 = torch.tensor(np.logspace(-1, 1, 5))
        agg = LossAggregator(params=LossParameters(alpha_pen1=c["a1"], alpha_pen2=c["a2"], beta_reg=c["b"], gamma_coherence=c["g"]),
                             k1space=k1, zref=1.5, tb_log_dir=ctx.tmpdir())
        M = Model()
        n = c["steps"]
        w = 50 if c["default_window"] else c["window"]
        wkw = {} if c["default_window"] else dict(window=w)
        span = max(w, 2)
        base = {"ramp": lambda i: 0.05 + c["spread"] * np.sqrt(12) / span * (n - i), "slow": lambda i: c["amp"] * max(1 - 0.02 * c["spread"] * i / span, 0.01),
                "decay": lambda i: np.exp(-i / 15), "flat": lambda i: 0.7, "grow": lambda i: 0.1 * np.exp(i / 30), "noisy": lambda i: r.uniform(0.01, 4),
                "huge": lambda i: 200 * r.uniform(0.01, 1) * np.exp(-i / 8), "tiny": lambda i: 1e-5 * np.exp(-i / 10),
                "zeros": lambda i: 0.0 if i == 0 or r.uniform() < 0.5 else r.uniform(0.01, 2)}[c["shape"]]

        def query(tag):
            m = len(M.h["total"])
            for k in KEYS + ["total"]:
                got = agg.component_losses[k]
                need(len(got) == m, lambda: f"{tag}: {k} history has {len(got)} entries after {m} evaluations")
                need(all(near(a, b) for a, b in zip(got, M.h[k])), lambda: f"{tag}: {k} history {got[-3:]}, expected {M.h[k][-3:]}")
            for k in KEYS:
                need(near(agg.running_averages[k], M.avg[k]), lambda: f"{tag}: running average of {k} {agg.running_averages[k]}, expected {M.avg[k]}")
            d, e = agg.get_loss_diagnostics(**wkw), M.diagnostics(w)
            need(bool(d) == bool(e), lambda: f"{tag}: diagnostics {'missing' if e else 'given'} after {m} evaluations, window {w}")
            for k, v in e.items():
                if k == "_dominant":
                    top = max(v.values())
                    ok = {a for a, b in v.items() if near(b, top)}
                    need(d["dominant_component"] in ok, lambda: f"{tag}: dominant component {d['dominant_component']}, expected one of {ok}")
                else:
                    need(k in d and near(d[k], v, 1e-7, 1e-9 if k != "dominance_ratio" else 1e-4), lambda: f"{tag}: {k} = {d.get(k)}, expected {v}")
            for ep in (m, max(0, m + c["epoch_off"]), w, w - 1):
                a = agg.should_adjust_learning_rate(ep, **wkw)
                ok = M.advice(ep, w)
                got = (a["reason"], a.get("factor"))
                need(got in ok, lambda: f"{tag}: advice {a} at epoch {ep}, expected one of {ok}")
                need(bool(a["adjust"]) == (got[1] is not None), lambda: f"{tag}: adjust flag in {a}")
                if m < w or ep < w:
                    need(not a["adjust"], f"{tag}: adjustment advised without a full window")
                if e and ep >= w:
                    ctx.label(a["reason"])
            info = agg.get_current_loss_info()
            if m == 0:
                need(not info, "loss information before any evaluation")
            else:
                exp = dict(mse_current=M.h["mse"][-1], coherence_current=M.h["coherence"][-1], total_current=M.h["total"][-1],
                           mse_avg=M.avg["mse"], coherence_avg=M.avg["coherence"],
                           mse_coherence_ratio=M.avg["mse"] / max(M.avg["coherence"], 1e-8))
                for k, v in exp.items():
                    need(k in info and near(info[k], v, 1e-7, 1e-9), lambda: f"{tag}: {k} = {info.get(k)}, expected {v}")

        try:
            query("start")
            for i in range(n):
                mse = float(base(i))
                y = torch.tensor(np.exp(np.cumsum(0.2 * r.normal(size=(3, 5)), axis=1)))
                t = y * np.exp(np.sqrt(mse)) if mse else y.clone()
                theta = torch.tensor(r.normal(size=4))
                dc = np.sqrt(c["cohsize"]) * r.uniform(0.5, 1) * (c["shape"] != "zeros" or i % 3 == 1)
                coh = {f"model_{x}": torch.full((2, 2), 0.5) for x in "uvw"}
                coh.update({f"data_{x}": torch.full((2, 2), 0.5 + dc) for x in "uvw"})
                if i in c["bad"]:
                    yb = y.clone()
                    yb[1, 2] = float("nan")
                    expect_raises(ValueError, lambda: agg.eval(yb, t, theta, i, coherence_data=coh), "NaN spectra")
                agg.eval(y, t, theta, i, coherence_data=coh if c["g"] else None)
                lk = np.log(k1.numpy())
                s1 = np.diff(np.log(y.numpy()), axis=1) / np.diff(lk)
                s2 = np.diff(s1, axis=1) / np.diff(0.5 * (lk[1:] + lk[:-1]))
                M.add(dict(mse=mse, coherence=c["g"] * dc**2, pen1=c["a1"] * np.mean(np.maximum(s1, 0) ** 2) / 1.5,
                           pen2=c["a2"] * np.mean(np.maximum(s2, 0) ** 2) / 2.25, regularization=c["b"] * np.mean(theta.numpy() ** 2)))
                if i in c["queries"]:
                    query(f"after {i + 1}")
            query("end")
        finally:
            agg.writer.close()
        ctx.label(c["shape"])
        return n >= w and c["shape"] != "flat"


SCALES = st.fixed_dictionaries(dict(seed=seeds, start=st.one_of(st.just(0), st.just(1), st.integers(0, 25)), gaps=st.one_of(st.lists(st.one_of(st.just(0), st.just(1), st.integers(0, 12)), min_size=0, max_size=25), st.integers(1, 60).map(lambda n: [1] * n)), coh=st.sampled_from(["tensor", "none", "zero", "mixed"]), size=logf(1e-12, 1e4), freq=st.one_of(st.none(), st.integers(1, 30))))


def run_scales(c, ctx):
    """balancing factors: inverse exponential averages of the losses, refreshed every balance_freq epochs"""
    from drdmannturb import LossParameters
    from drdmannturb.spectra_fitting.loss_functions import LossAggregator

    with default_dtype("float64"):
        r = rng(c["seed"])
        f = c["freq"] or 10
        agg = LossAggregator(params=LossParameters(**({} if c["freq"] is None else dict(balance_freq=f))), k1space=torch.tensor([1.0, 2.0, 3.0]), zref=1.0, tb_log_dir=ctx.tmpdir())
        try:
            a = None
            hits = 0
            for n, e in enumerate(c["start"] + np.cumsum([0] + c["gaps"])):
                m = float(c["size"] * r.uniform(0.1, 3))
                kind = c["coh"] if c["coh"] != "mixed" else ["tensor", "none", "zero"][int(r.integers(0, 3))]
                h = {"tensor": float(c["size"] * r.uniform(0.1, 3)), "none": None, "zero": 0.0}[kind]
                if a is None:
                    a = [m, h if h else 1.0]
                elif e % f == 0:
                    a = [0.9 * a[0] + 0.1 * m, 0.9 * a[1] + 0.1 * h if h else a[1]]
                    hits += 1
                got = agg.compute_loss_scales(int(e), torch.tensor(m), None if h is None else torch.tensor(h))
                exp = [1 / max(x, 1e-8) for x in a]
                need(all(near(float(g), x, 1e-9, 0) for g, x in zip(got, exp)), lambda: f"call {n} (epoch {e}): scales {got}, expected {exp}")
        finally:
            agg.writer.close()
        ctx.label("scales " + c["coh"])
        return hits >= 2


SCHED = st.fixed_dictionaries(dict(kind=st.sampled_from(["three", "adaptive"]), n=st.integers(1, 60), lr=logf(1e-4, 10), steps=st.integers(0, 70), groups=st.integers(1, 2), seed=seeds,
                                   ratio=st.sampled_from(["ops", "coh", "even", "edge", "zero"]), per=st.integers(0, 3)))


def run_sched(c, ctx):
    """learning-rate schedules: multiples of the base rate by epoch"""
    with default_dtype("float64"):
        pb = make_problem(dict(type="CONST", L=1.0, Gamma=1.0, sigma=1.0, grid=[-1.0, 1.0, 3]), ctx.tmpdir())
        r = rng(c["seed"])
        ps = [torch.nn.Parameter(torch.ones(2)) for _ in range(c["groups"])]
        lrs = [c["lr"] * (i + 1) for i in range(c["groups"])]
        opt = torch.optim.SGD([dict(params=[p], lr=lr) for p, lr in zip(ps, lrs)])
        n = c["n"]
        if c["kind"] == "three":
            sch = pb.get_three_phase_scheduler(opt, n)
        else:
            sch = pb.get_adaptive_multi_scheduler(opt, n)
        H = dict(ops=[], coherence=[], total=[])
        late = 0
        for e in range(c["steps"] + 1):
            ok = []
            if c["kind"] == "three":
                x = e / n
                if x < 0.3 + 1e-9:
                    ok.append(2.0)
                if 0.3 - 1e-9 < x < 0.7 + 1e-9:
                    ok.append(2.0 - (x - 0.3) / 0.4)
                if x > 0.7 - 1e-9:
                    ok.append(0.1)
                late += x > 0.3
            elif len(H["total"]) < 10:
                ok.append(1.0)
            else:
                late += 1
                q = np.mean(H["ops"][-5:]) / (np.mean(H["coherence"][-5:]) + 1e-8)
                if q > 10 * (1 - 1e-9) or q < 0.1 * (1 + 1e-9):
                    ok.append(0.5)
                if 0.1 * (1 - 1e-9) < q < 10 * (1 + 1e-9):
                    ok.append(0.95 ** (e - 10))
            for g, lr in zip(opt.param_groups, lrs):
                need(any(near(g["lr"], lr * f, 1e-9, 0) for f in ok), lambda: f"epoch {e} of {n}: learning rate {g['lr']} with base {lr}, expected factor {ok}")
            if c["kind"] == "adaptive":
                for _ in range(c["per"]):
                    o = r.uniform(0.5, 1)
                    k = dict(ops=o / 30, coh=o * 30, even=o, edge=o * 10 ** r.uniform(-1.4, 1.4), zero=0.0)[c["ratio"]]
                    H["ops"].append(o), H["coherence"].append(k), H["total"].append(o + k)
                pb.loss_history = {k: list(v) for k, v in H.items()}
            opt.step()
            sch.step()
        ctx.label(c["kind"], c["ratio"] if c["kind"] == "adaptive" else "")
        return late > 2


SUBS = [Sub("history", CASE, run, 50, 1500), Sub("ramps", strat(CASE, shape=st.sampled_from(["ramp", "slow"]), steps=st.integers(50, 100), bad=st.just([])), run, 60, 1500), Sub("history2", CASE, run, 50, 1500), Sub("history3", CASE, run, 50, 1500),
        Sub("scales", SCALES, run_scales, 60, 2000), Sub("schedules", SCHED, run_sched, 80, 2000)]

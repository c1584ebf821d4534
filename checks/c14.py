"""C14 coherence data files."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C14"
RULE = "non-trivial: at least two separations and two frequencies, rows out of order or missing (load); coherence loss above 1e-8 (fit)"

FILE = dict(
    ns=st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(10, 40)), nf=st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 90)), mono=st.sampled_from(["up", "up", "down", "mixed"]), vals=st.sampled_from(["unit", "unit", "any"]), order=st.sampled_from(["sorted", "freq-major", "shuffled", "reversed"]), seed=seeds,
    missing=unif(0, 0.6), complete=st.booleans(), comments=st.sampled_from(["top", "none", "inline", "between"]), sep=st.sampled_from([" ", "   ", "\t"]),
    cols=st.booleans(), fzero=st.sampled_from([0, 1, 2]), flo=wide(1e-3, 1.0), slo=wide(1e-2, 50), aspath=st.booleans(), zerosep=st.booleans(), ibase=st.sampled_from([0, 0, 1, 10]), istep=st.sampled_from([1, 1, 3]),
)
NAMES = ["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"]


def table(c, keep_rows=None):
    """(seps, freqs, coh (3,ns,nf), rows) with rows the retained (i,j) pairs in file order"""
    r = rng(c["seed"])
    ns, nf = c["ns"], c["nf"]
    seps = np.sort(c["slo"] * np.exp(r.uniform(0, 3, size=ns)))
    if c["zerosep"]:
        seps[0] = 0.0
    f = np.sort(c["flo"] * np.exp(r.uniform(0, 3, size=nf)))
    z = min(c["fzero"], nf - 1)
    f[:z] = [0.0, 5e-7][:z]
    seps = np.array([float(f"{v:.9g}") for v in seps])
    f = np.array([float(f"{v:.9g}") for v in f])
    if c["mono"] == "down":
        f = f[::-1].copy()
    elif c["mono"] == "mixed":  # numbered in another order than their values
        f, seps = f[r.permutation(nf)], seps[r.permutation(ns)]
    coh = np.round(r.uniform(0.0, 1.0, size=(3, ns, nf)) if c["vals"] == "unit" else 3 * r.normal(size=(3, ns, nf)), 7)
    pairs = [(i, j) for i in range(ns) for j in range(nf)]
    if not c["complete"]:
        keep = {(i, i % nf) for i in range(ns)} | {(j % ns, j) for j in range(nf)}
        pairs = [p for p in pairs if p in keep or r.uniform() > c["missing"]]
    if c["order"] == "freq-major":
        pairs = sorted(pairs, key=lambda p: (p[1], p[0]))
    elif c["order"] == "shuffled":
        pairs = [pairs[i] for i in r.permutation(len(pairs))]
    elif c["order"] == "reversed":
        pairs = pairs[::-1]
    return seps, f, coh, pairs


def write(c, path):
    seps, f, coh, pairs = table(c)
    s = c["sep"]
    names = list(NAMES)
    if c["cols"]:
        names = [names[i] for i in rng(c["seed"] + 3).permutation(7)]
    out = []
    if c["comments"] != "none":
        out += ["# coherence measured at 3 heights", "# sep_idx freq_idx"]
    out.append(s.join(names))
    for n, (i, j) in enumerate(pairs):
        v = dict(sep_idx=str(c["ibase"] + c["istep"] * i), freq_idx=str(c["ibase"] + j), spatial_sep=repr(float(seps[i])), frequency=repr(float(f[j])),
                 coh_u=repr(float(coh[0, i, j])), coh_v=repr(float(coh[1, i, j])), coh_w=repr(float(coh[2, i, j])))
        line = s.join(v[k] for k in names)
        if c["comments"] == "inline" and n % 3 == 1:
            line += "  # note"
        if c["comments"] == "between" and n % 2 == 1:
            out.append("# block")
        out.append(line)
    with open(path, "w") as fh:
        fh.write("\n".join(out) + "\n")
    exp = np.full_like(coh, np.nan)
    for i, j in pairs:
        exp[:, i, j] = coh[:, i, j]
    return seps, f, exp, pairs


def problem(ctx, c=None, **kw):
    return make_problem(dict(type="CONST", L=1.0, Gamma=1.0, sigma=1.0, grid=(-2.0, 2.0, 6)) | (c or {}), ctx.tmpdir(), nepochs=1, wolfe_iter_count=1, **kw)


def loaded_ok(pb, seps, f, exp, c):
    need(close(pb.coherence_spatial_seps, seps, 1e-12, 1e-300), lambda: f"separations {pb.coherence_spatial_seps}, file has {seps}")
    need(close(pb.coherence_frequencies, f, 1e-12, 1e-300), lambda: f"frequencies {pb.coherence_frequencies}, file has {f}")
    need(tuple(pb.coherence_shape) == exp.shape[1:], lambda: f"shape {pb.coherence_shape}")
    for n, name in enumerate("uvw"):
        got = np.asarray(getattr(pb, "coherence_" + name), float)
        need(got.shape == exp[n].shape, lambda: f"coherence_{name} has shape {got.shape}")
        bad = ~((np.isnan(got) & np.isnan(exp[n])) | (np.abs(got - exp[n]) <= 1e-12))
        need(not bad.any(), lambda: f"coherence_{name} at {np.argwhere(bad)[0]}: {got[bad][0]}, file has {exp[n][bad][0]} ({c['order']})")
    idx = np.asarray(pb.coherence_plot_sep_indices)
    need(1 <= len(idx) <= 4 and idx[0] == 0 and idx[-1] == len(seps) - 1 and bool(np.all(np.diff(idx) >= 0)), lambda: f"selected separations {idx} of {len(seps)}")
    if len(seps) >= 4:
        need(len(idx) == 4 and np.diff(idx).min() >= 1 and np.ptp(np.diff(idx)) <= 1, lambda: f"selected separations {idx} of {len(seps)} are not spread evenly")
    need(close(np.asarray(pb.coherence_plot_separations), seps[idx], 1e-12, 1e-300), "selected separations do not match their indices")
    return idx


def run_load(c, ctx):
    from pathlib import Path

    pb = problem(ctx)
    p = os.path.join(ctx.tmpdir(), "coh.dat")
    seps, f, exp, pairs = write(c, p)
    ops0 = pb.parameters.copy()
    pb.load_coherence_data(Path(p) if c["aspath"] else p)
    loaded_ok(pb, seps, f, exp, c)
    # a second file replaces the first entirely
    c2 = dict(c, seed=c["seed"] ^ 77, ns=c["nf"], nf=c["ns"], order="shuffled" if c["order"] == "sorted" else "sorted", complete=not c["complete"])
    q = os.path.join(ctx.tmpdir(), "coh2.dat")
    s2, f2, e2, _ = write(c2, q)
    pb.load_coherence_data(q)
    loaded_ok(pb, s2, f2, e2, c2)
    need(np.array_equal(pb.parameters, ops0), "loading data changed the model")
    gaps = int(np.isnan(exp[0]).sum())
    ctx.label(c["order"], "gaps" if gaps else "complete", c["comments"], f"index-base-{c['ibase']}-step-{c['istep']}")
    return c["ns"] >= 2 and c["nf"] >= 2 and (c["order"] != "sorted" or gaps > 0)


FIT = st.fixed_dictionaries(dict(
    FILE, type=st.sampled_from(LIFETIMES), L=logf(0.05, 50), Gamma=logf(0.1, 5), sigma=logf(0.1, 20), gam=logf(0.05, 50), Uref=logf(0.5, 30), factor=st.one_of(st.just(1.0), st.just(6.2831853), logf(0.3, 10)),
    k1=logf(0.05, 3), rs=logf(0.01, 0.5), tseed=st.integers(0, 99), dt=st.sampled_from(["float64", "float64", "float32"]), learn=st.booleans(), slow=st.one_of(st.none(), logf(2e-6, 0.03))))


def run_fit(c, ctx):
    with default_dtype(c["dt"]):
        # frequencies such that k1*L is of order c["k1"]; few points because the model's grid is large
        c = dict(c, ns=min(c["ns"], 6), nf=min(c["nf"], 4), flo=c["k1"] / c["L"] * c["Uref"] / c["factor"], slo=c["rs"] * c["L"], loss=dict(gamma_coherence=c["gam"]),
                 phys=dict(Uref=c["Uref"], wavenumber_conversion_factor=c["factor"]))
        if c["slow"]:  # frequencies low in absolute terms, but not against the length scale
            c["flo"] = c["slow"]
            c["phys"]["Uref"] = c["slow"] * c["factor"] * c["L"] / c["k1"]
            c["Uref"] = c["phys"]["Uref"]
        elif not 1e-4 < c["flo"] < 1e4:
            c["flo"] = min(max(c["flo"], 1e-4), 1e4)
        kw = dict(use_learnable_spectrum=True, p_exponent=3.7, q_exponent=2.9) if c["learn"] else {}
        pb = problem(ctx, c, num_components=3, **kw)
        net = None
        if c["type"] == "TAUNET":
            scramble_net(pb.OPS.tauNet, c["seed"], 0.2)
            import copy

            net = copy.deepcopy(pb.OPS.tauNet)
        p = os.path.join(ctx.tmpdir(), "coh.dat")
        seps, f, exp, pairs = write(c, p)
        k1 = torch.tensor([0.3, 1.0, 3.0], dtype=torch.get_default_dtype()) / c["L"]
        Y = pb.eval(k1) * np.array([1.3, 0.8, 1.1])[None, :]
        D = torch.zeros(3, 3, 3)
        for i in range(3):
            D[:, i, i] = torch.tensor(Y[i])
        ls = [float(x) for x in np.exp(pb.parameters[:3])]
        try:
            pb.calibrate({"k1": k1, "ops": D, "coherence": None}, coherence_data_file=p)
            err = None
        except (ValueError, RuntimeError) as e:
            err = e
        pb.LossAggregator.writer.close()
        idx = loaded_ok(pb, seps, f, exp, c)
        data = exp[:, idx]
        if np.isnan(data).any():
            need(err is not None, "a fit to missing coherence values was reported as successful")
            ctx.label("missing->error")
            return True
        if err is not None:
            raise err
        L, G, S = ls
        g = ref.log_grid(-3.0, 3.0, 100) / L
        en = (lambda x: ref.learnable_energy(x, 3.7, 2.9)) if c["learn"] else None
        model = np.ones_like(data)
        for b, fr in enumerate(f):
            if fr <= 1e-6:
                continue
            kv = ref.grid_vectors([c["factor"] * fr / c["Uref"]], g, g)
            P = ref.sheared_tensor(kv, tau_ref(c["type"], kv, L, G, net=net), S, L, en)[0]
            for i in range(3):
                f2 = np.trapezoid(P[..., i, i], g, axis=-1)
                for a, s in enumerate(seps[idx]):
                    model[i, a, b] = np.abs(np.trapezoid(f2 * np.exp(1j * g * s), g)) ** 2 / np.trapezoid(f2, g) ** 2
        e = c["gam"] * np.mean((model - data) ** 2)
        got = pb.LossAggregator.component_losses["coherence"]
        tol = 1e-6 if c["dt"] == "float64" else 1e-2
        need(len(got) >= 2 and all(abs(v - e) <= tol * c["gam"] for v in got[:2]), lambda: f"{c['type']} coherence losses {got[:2]} of the starting model, reference {e}")
        tot, mse = pb.LossAggregator.component_losses["total"][1], pb.LossAggregator.component_losses["mse"][1]
        need(abs(tot - mse - got[1]) <= 1e-5 * abs(tot), lambda: f"total loss {tot} is not spectra {mse} + coherence {got[1]}")
        # a fit without a file afterwards has no coherence term
        pb.calibrate({"k1": k1, "ops": D, "coherence": None})
        pb.LossAggregator.writer.close()
        need(all(v == 0.0 for v in pb.LossAggregator.component_losses["coherence"]), "a later fit without a coherence file still has a coherence loss")
        ctx.label(c["type"], c["dt"], f"fzero={c['fzero']}")
        return e > 1e-8


SUBS = [Sub("load", st.fixed_dictionaries(FILE), run_load, 200, 6000), Sub("load_shuffled", strat(st.fixed_dictionaries(FILE), order="shuffled", complete=True), run_load, 100, 3000)] + [
    Sub("fit_" + t, strat(FIT, type=t, complete=True), run_fit, 10, 400) for t in LIFETIMES] + [
    Sub("fit_gaps", strat(FIT, type="CONST", complete=False), run_fit, 12, 400)]

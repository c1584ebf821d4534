"""C27 what the calibration figures show."""
import os
from pathlib import Path

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub
from vlib.plots import setup

ID = "C27"
RULE = "non-trivial: u* different from 1 and model scales changed after construction"

# panel number -> tensor indices (panels: uu, vv, ww, uw, vw, uv)
PANEL = [(0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1)]
SHOWN = {3: (0, 1, 2), 4: (0, 1, 2, 3), 6: (0, 1, 2, 3, 4, 5)}

CASE = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=logf(0.05, 50), Gamma=logf(0.1, 5), sigma=logf(0.05, 20), ustar=logf(0.1, 5), n=st.integers(2, 9), nc=st.sampled_from([3, 4, 6]), source=st.sampled_from(["fit", "passed", "both", "model"]),
    seed=seeds, tau=st.booleans(), save=st.sampled_from(["no", "dir", "path", "out", "new"]), fname=st.sampled_from(["", "abc"]), move=st.booleans(), dt=st.sampled_from(["float64", "float64", "float32"]), tseed=st.integers(0, 99), pts=st.sampled_from(["list", "array", "tensor"])))


def lines(ax):
    """(x, y, is_data) of every line of a panel"""
    return [(np.asarray(li.get_xdata(), float), np.asarray(li.get_ydata(), float), li.get_linestyle() in ("None", "", " ")) for li in ax.get_lines()]


def data_set(c, r, unsorted=False):
    k1 = np.sort(np.exp(r.uniform(-3, 3, size=c["n"]))) / c["L"]
    if unsorted:
        k1 = k1[r.permutation(c["n"])]
    return k1, r.normal(size=(c["n"], 3, 3))


def as_points(k1, kind):
    p = [(float(k), 1.0) for k in k1]
    return dict(list=p, array=np.array(p, dtype=str(torch.get_default_dtype())[6:]), tensor=torch.tensor(p))[kind]


def run(c, ctx):
    plt = setup()

    try:
        with default_dtype(c["dt"]):
            return _run(c, ctx, plt)
    finally:
        plt.close("all")


def panels(pb, k1, model, data, c, tol):
    axs = pb.fig_spectra.get_axes()
    need(len(axs) == 6, lambda: f"{len(axs)} panels")
    for i, ax in enumerate(axs):
        sg = -1.0 if i == 3 else 1.0
        a, b = PANEL[i]
        name = f"{'-' if i == 3 else ''}F{a + 1}{b + 1}"
        title = "".join(ch for ch in ax.get_title() if ch.isalnum() or ch == "-")
        need(title.startswith(name), lambda: f"panel {i} is titled {ax.get_title()!r}")
        ls = lines(ax)
        mod, dat = [x for x in ls if not x[2]], [x for x in ls if x[2]]
        need(len(mod) == 1, lambda: f"{name}: {len(mod)} model curves")
        need(close(mod[0][0], k1, 1e-6), lambda: f"{name}: model drawn against {mod[0][0]}, data wave numbers are {k1}")
        need(close(mod[0][1], sg * model[i], tol, tol * np.abs(model).max()), lambda: f"{name}: model curve {mod[0][1]}, expected {sg * model[i]}")
        if i in SHOWN[c["nc"]]:
            need(len(dat) == 1, lambda: f"{name}: {len(dat)} data curves for {c['nc']} components")
            e = sg * data[:, a, b] / c["ustar"] ** 2
            need(close(dat[0][0], k1, 1e-6), lambda: f"{name}: data drawn against {dat[0][0]} instead of {k1}")
            need(close(dat[0][1], e, 1e-5), lambda: f"{name}: data curve {dat[0][1]}, expected {e}")
        else:
            need(not dat, lambda: f"{name}: data shown although only {c['nc']} components are fitted")


def _run(c, ctx, plt):
    r = rng(c["seed"])
    out = ctx.tmpdir()
    pb = make_problem(dict(c, grid=(-2.0, 2.0, 6), phys=dict(ustar=c["ustar"])), out, num_components=c["nc"], nepochs=1, wolfe_iter_count=1)
    if c["type"] == "TAUNET":
        scramble_net(pb.OPS.tauNet, c["seed"], 0.2)
    k1, D = data_set(c, r)
    T = torch.get_default_dtype()
    args = {}
    if c["source"] in ("fit", "both"):
        E = torch.tensor(np.abs(D) + 0.1, dtype=T)
        pb.calibrate({"k1": torch.tensor(k1, dtype=T), "ops": E, "coherence": None})
        pb.LossAggregator.writer.close()
        D = E.numpy().astype(float)
    elif c["source"] == "passed":
        expect_raises(ValueError, lambda: pb.plot(plot_tau=False), "plot() without any data")
    if c["source"] in ("passed", "both", "model"):
        k1, D = data_set(c, r, c["seed"] % 3 == 0)
        args["OPSData"] = (as_points(k1, c["pts"]), torch.tensor(D, dtype=T))
    if c["move"]:  # the figures show the model as it is now
        v = pb.parameters.copy()
        v[:3] += r.uniform(-0.7, 0.7, size=3)
        pb.parameters = v
    k1t = torch.tensor(k1, dtype=T)
    if c["source"] == "model":
        model = r.normal(size=(6, c["n"]))
        args["model_vals"] = torch.tensor(model, dtype=T)
    else:
        model = pb.OPS(k1t).detach().numpy().astype(float) / c["ustar"] ** 2
    before = pb.parameters.copy()
    files = None
    if c["save"] != "no":
        d = out if c["save"] == "out" else ctx.tmpdir()
        if c["save"] == "new":
            d = os.path.join(d, "a", "b")
        if c["save"] != "out":
            args["save_dir"] = Path(d) if c["save"] == "path" else d
        old = set(os.listdir(d)) if os.path.isdir(d) else set()
        args.update(save=True, save_filename=c["fname"])
        b = c["fname"] or "drdmannturb_final_spectra_fit"
        files = {b + "_spectra.png"} | ({b + "_tau.png"} if c["tau"] else set())
    pb.plot(plot_tau=c["tau"], **args)
    tol = 1e-9 if c["dt"] == "float64" else 1e-4
    need(np.array_equal(before, pb.parameters), "plotting changed the model")
    panels(pb, k1, model, D, c, tol)
    if files is not None:
        new = set(os.listdir(d)) - old
        need(new == files, lambda: f"files written: {sorted(new)}, asked for {sorted(files)}")
        for f in files:
            with open(os.path.join(d, f), "rb") as h:
                need(h.read(8) == b"\x89PNG\r\n\x1a\n", f"{f} is not a PNG image")
    if c["tau"]:
        L, G = c["L"], c["Gamma"]
        axs = pb.fig_tau.get_axes()
        need(len(axs) == 1, "one lifetime panel expected")
        ls = {li.get_label(): (np.asarray(li.get_xdata(), float), np.asarray(li.get_ydata(), float)) for li in axs[0].get_lines()}
        need(len(ls) == 5, lambda: f"lifetime curves {list(ls)}")
        dirs = {"(k_1)": (1, 0, 0), "(k_2)": (0, 1, 0), "(k_3)": (0, 0, 1), "(k,k,k)": (3**-0.5,) * 3}
        seen = 0
        for lab, (x, y) in ls.items():
            need(len(x) > 10 and x[0] > 0 and bool(np.all(np.diff(x) > 0)), "wave numbers of the lifetime plot")
            if "ref" in lab or "Mann" in lab:
                # the reference is the Mann lifetime at the scales of the problem
                e = tau_ref("MANN", np.stack([x / L, 0 * x, 0 * x], -1), L, G)
                need(close(y, e, 1e-3), lambda: f"Mann reference deviates by {relerr(y, e)}")
            else:
                key = [k for k in dirs if k in lab.replace("\\", "")]
                need(len(key) == 1, lambda: f"unknown lifetime curve {lab}")
                seen += 1
                kv = torch.tensor((x / L)[:, None] * np.array(dirs[key[0]])[None, :], dtype=T)
                e = pb.OPS.EddyLifetime(kv).detach().numpy()
                need(close(y, e, 1e-4 if c["dt"] == "float64" else 1e-2), lambda: f"lifetime {lab} deviates by {relerr(y, e)}")
        need(seen == 4, lambda: f"{seen} model curves")
    else:
        need(pb.fig_tau is None, "a lifetime figure was made although not asked for")
    ctx.label(c["type"], f"nc={c['nc']}", c["source"], f"save={c['save']}", c["dt"])
    return abs(np.log(c["ustar"])) > 0.05 and c["move"]


# ------------------------------------------------------------------ coherence figure
COH = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=logf(0.2, 20), Gamma=logf(0.2, 4), sigma=logf(0.1, 10), ns=st.integers(1, 7), nf=st.integers(1, 3), fzero=st.booleans(), seed=seeds, tseed=st.integers(0, 99),
    Uref=logf(1, 20), factor=st.sampled_from([1.0, 6.2831853, 0.5]), move=st.booleans()))


def run_coh(c, ctx):
    plt = setup()

    try:
        with default_dtype("float64"):
            return _run_coh(c, ctx)
    finally:
        plt.close("all")


def _run_coh(c, ctx):
    r = rng(c["seed"])
    pb = make_problem(dict(c, grid=(-2.0, 2.0, 6), phys=dict(Uref=c["Uref"], wavenumber_conversion_factor=c["factor"])), ctx.tmpdir(), num_components=3, nepochs=1, wolfe_iter_count=1)
    k1, D = data_set(dict(c, n=3), r)
    seps = np.sort(np.round(c["L"] * np.exp(r.uniform(-3, 0, size=c["ns"])), 6))
    f = np.sort(np.round(c["Uref"] / c["L"] / c["factor"] * np.exp(r.uniform(-2, 1, size=c["nf"])), 7))
    if c["fzero"] and len(f) > 1:
        f[0] = 0.0
    coh = np.round(r.uniform(0, 1, size=(3, c["ns"], c["nf"])), 6)
    p = os.path.join(ctx.tmpdir(), "coh.dat")
    with open(p, "w") as h:
        h.write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\n")
        for i in range(c["ns"]):
            for j in range(c["nf"]):
                h.write(f"{i} {j} {seps[i]!r} {f[j]!r} {coh[0,i,j]} {coh[1,i,j]} {coh[2,i,j]}\n".replace("np.float64(", "").replace(")", ""))
    pb.calibrate({"k1": torch.tensor(k1), "ops": torch.tensor(np.abs(D) + 0.1), "coherence": None}, coherence_data_file=p)
    pb.LossAggregator.writer.close()
    if c["move"]:
        v = pb.parameters.copy()
        v[:3] += r.uniform(-0.7, 0.7, size=3)
        pb.parameters = v
    pb.plot(plot_tau=False)
    axs = np.array(pb.fig_coherence.get_axes(), dtype=object)
    need(axs.size == 12, lambda: f"{axs.size} coherence panels")
    axs = axs.reshape(4, 3)
    idx = [int(v) for v in np.linspace(0, c["ns"] - 1, 4)]
    good = f > 1e-6
    S = pb.OPS.SpectralCoherence(torch.tensor(c["factor"] * f[good] / c["Uref"]), torch.tensor(seps[idx])).detach().numpy()
    full = np.ones((3, 4, len(f)))
    full[:, :, good] = S
    for row in range(4):
        for col in range(3):
            ls = lines(axs[row, col])
            mod, dat = [x for x in ls if not x[2]], [x for x in ls if x[2]]
            need(len(mod) == 1 and len(dat) == 1, lambda: f"panel {row},{col} has {len(mod)} model and {len(dat)} data curves")
            need(close(mod[0][0], f, 1e-9) and close(dat[0][0], f, 1e-9), "coherence is not drawn against the file's frequencies")
            need(close(dat[0][1], coh[col, idx[row]], 1e-9), lambda: f"panel {row},{col}: data {dat[0][1]}, file has {coh[col, idx[row]]}")
            need(close(mod[0][1], full[col, row], 1e-7, 1e-9), lambda: f"panel {row},{col}: model curve {mod[0][1]}, current model gives {full[col, row]}")
    ctx.label(c["type"], f"ns={c['ns']}")
    return c["ns"] > 1


PIN = dict(type="MANN", L=0.6, Gamma=3.0, sigma=1.5, ustar=0.5, n=5, nc=6, source="fit", seed=3, tau=True, save="new", fname="abc", move=True, dt="float64", tseed=1, pts="list")
SUBS = [Sub(f"panels_{nc}_{s}", strat(CASE, nc=nc, source=s), run, 5 if s != "model" else 3, 200, pinned=[PIN] if (nc, s) == (6, "fit") else []) for nc in (3, 4, 6) for s in ("fit", "passed", "both", "model")] + [
    Sub("coherence", COH, run_coh, 12, 400)]

"""C31 one-point spectra files."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C31"
RULE = "non-trivial: columns in another order than the components' or additional columns, and at least two rows"

NAMES = ["uu", "vv", "ww", "uw", "vw", "uv"]
IJ = dict(uu=(0, 0), vv=(1, 1), ww=(2, 2), uw=(0, 2), vw=(1, 2), uv=(0, 1))

CASE = st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(41, 400)), present=st.sampled_from([3, 4, 5, 6, 6]), ct=st.sampled_from([3, 4, 4, 6]), perm=st.permutations(range(8)), extra=st.booleans(), first=st.sampled_from(["f", "k1", "freq", "k"]),
    seed=seeds, rows=st.sampled_from(["sorted", "sorted", "random", "reversed", "repeats"]), style=st.sampled_from(["repr", "exp", "fixed", "int"]), path=st.sampled_from(["str", "path"]), default=st.booleans(), dt=dtypes, neg=st.booleans(), missing=st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 5, 9])))

FMT = dict(repr=lambda v: repr(float(v)), exp=lambda v: f"{v:.17e}", fixed=lambda v: f"{v:.12f}", int=lambda v: str(int(v)))


def write(c, d, drop=None):
    r = rng(c["seed"])
    n = c["n"]
    k = np.sort(np.exp(r.uniform(-3, 3, size=n))) if c["style"] != "int" else np.arange(1, n + 1)
    if c["rows"] == "random":
        k = k[r.permutation(n)]
    elif c["rows"] == "reversed":
        k = k[::-1].copy()
    elif c["rows"] == "repeats":
        k = k[r.integers(0, n, size=n)]
    cols = {}
    for i, w in enumerate(NAMES[: c["present"]]):
        v = np.exp(r.normal(size=n)) if c["style"] != "int" else r.integers(1, 99, size=n)
        cols[w] = -v if c["neg"] and i >= 3 else v
    if c["extra"]:
        cols["note"] = r.uniform(1, 2, size=n) if c["style"] != "int" else np.ones(n)
        cols["vu"] = cols["uu"] * 3
    for w in drop or ():
        cols.pop(w, None)
    order = sorted(cols, key=lambda w: c["perm"][(NAMES + ["note", "vu"]).index(w)])
    if c["rows"] == "repeats":  # whole rows occur twice
        again = r.integers(0, n, size=n) if r.random() < 0.5 else np.arange(n) // 2
        k, cols = k[again], {w: v[again] for w, v in cols.items()}
    f = FMT[c["style"]]
    path = os.path.join(d, "data.csv")
    with open(path, "w") as h:
        h.write(",".join([c["first"]] + order) + "\n")
        for i in range(n):
            h.write(",".join([f(k[i])] + [f(cols[w][i]) for w in order]) + "\n")
    rd = lambda a: np.array([float(f(v)) for v in a])  # noqa: E731
    return path, rd(k), {w: rd(v) for w, v in cols.items()}, order


def run(c, ctx):
    from pathlib import Path

    from drdmannturb import CustomDataLoader

    d = ctx.tmpdir()
    with default_dtype(c["dt"]):
        need_cols = NAMES[: max(3, {3: 3, 4: 4, 6: 6}[c["ct"]])]
        drop = None
        if c["missing"] is not None and c["missing"] < 6:
            drop = [NAMES[c["missing"]]]
        path, k, cols, order = write(c, d, drop)
        P = Path(path) if c["path"] == "path" else path
        kw = {} if c["default"] and c["ct"] == 4 else dict(ops_components_ct=c["ct"])
        if c["missing"] == 9:
            expect_raises((FileNotFoundError,), lambda: CustomDataLoader(os.path.join(d, "none.csv"), **kw), "a missing file")
            return False
        if any(w not in cols for w in need_cols):
            expect_raises((ValueError,), lambda: CustomDataLoader(P, **kw), f"a file with columns {order} for {c['ct']} components")
            ctx.label("rejected")
            return True
        raw = open(path).read()
        ld = CustomDataLoader(P, **kw)
        got = ld.format_data()
        again = ld.format_data()
        need(open(path).read() == raw, "the file was changed")
        eps = 1e-6 if c["dt"] == "float32" else 1e-14
        need(torch.is_tensor(got["k1"]) and torch.is_tensor(got["ops"]) and got.get("coherence") is None, "types of the data dictionary")
        need(tuple(got["k1"].shape) == (c["n"],) and close(got["k1"], k, eps), lambda: f"wave numbers {got['k1']}, file {k}")
        need(tuple(got["ops"].shape) == (c["n"], 3, 3), lambda: f"shape {tuple(got['ops'].shape)}")
        E = np.zeros((c["n"], 3, 3))
        for w, (i, j) in IJ.items():
            if w in cols:
                E[:, i, j] = -cols[w] if w == "uw" else cols[w]
        O = got["ops"].double().numpy()
        for i in range(3):
            for j in range(3):
                x, e = O[:, i, j], E[:, i, j]
                if (i, j) in IJ.values():
                    w = next(a for a, b in IJ.items() if b == (i, j))
                    # a component beyond the requested ones may be left out
                    opt = w not in need_cols and bool(np.all(x == 0))
                    need(opt or close(x, e, eps), lambda: f"component {w} is {x[:3]}, file {cols.get(w, [0])[:3]}")
                else:
                    need(bool(np.all(x == 0)), lambda: f"entry {(i, j)} is {x[:3]}")
        need(torch.equal(again["ops"], got["ops"]) and torch.equal(again["k1"], got["k1"]), "a second call gives other data")
        ctx.label(c["style"], c["rows"], f"ct={c['ct']}", "extra" if c["extra"] else "plain")
        return c["n"] > 1 and (c["extra"] or order != NAMES[: len(order)])


FIT = st.fixed_dictionaries(dict(n=st.integers(3, 8), ct=st.sampled_from([3, 4, 6]), seed=seeds, L=logf(0.3, 3), Gamma=logf(0.5, 3), sigma=logf(0.3, 3), perm=st.permutations(range(6))))


def run_fit(c, ctx):
    """a file with the model's own spectra (uw positive) leaves the model where it is"""
    from drdmannturb import CustomDataLoader

    d = ctx.tmpdir()
    with default_dtype("float64"):
        pb = make_problem(dict(c, type="TWOTHIRD", prob=dict(nepochs=1, wolfe_iter_count=5, num_components=c["ct"], tol=1e-12), grid=[-2.0, 2.0, 6]), d)
        k1 = np.exp(np.linspace(-2, 2, c["n"])) / c["L"]
        Y = pb.eval(torch.tensor(k1))
        order = sorted(range(c["ct"]), key=lambda i: c["perm"][i])
        path = os.path.join(d, "own.csv")
        with open(path, "w") as h:
            h.write("f," + ",".join(NAMES[i] for i in order) + "\n")
            for q in range(c["n"]):
                h.write(",".join([repr(float(k1[q]))] + [repr(float(-Y[i][q] if i == 3 else Y[i][q])) for i in order]) + "\n")
        v0 = pb.parameters.copy()
        pb.calibrate(CustomDataLoader(path, ops_components_ct=c["ct"]).format_data())
        pb.LossAggregator.writer.close()
        need(float(pb.loss) <= 1e-12, lambda: f"the loss on the model's own spectra read from a file is {float(pb.loss)}")
        need(bool(np.all(np.abs(pb.parameters - v0) < 1e-5)), "the model moved")
        ctx.label(f"fit ct={c['ct']}")
        return True


REJECT = strat(CASE, present=6, missing=st.integers(0, 5), ct=st.sampled_from([3, 4, 6, 6]))
SUBS = [Sub("load", CASE, run, 200, 6000), Sub("large", strat(CASE, n=st.integers(900, 12000), present=6, missing=None), run, 8, 150), Sub("reject", REJECT, run, 150, 2000), Sub("fit", FIT, run_fit, 15, 300)]

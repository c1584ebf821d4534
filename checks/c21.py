"""C21 composition of the 2d and 3d fields."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.fields import GENCASE, PROFILE, gen_args, make_gen, with_box
from vlib.harness import Sub
from vlib.lowfreq import PHYS, bilinear, config, shrink_grid

ID = "C21"
RULE = "non-trivial: two or more blocks whose points lie inside the two-dimensional domain"

CASE = st.fixed_dictionaries(dict(
    GENCASE, model=st.sampled_from(["VK", "Mann"]), two=st.fixed_dictionaries(dict(PHYS, f1=logf(0.3, 20), f2=logf(0.3, 12), e1=st.integers(2, 6), e2=st.integers(2, 6))),
    calls=st.one_of(st.lists(st.integers(0, 3), min_size=2, max_size=5).filter(any), st.lists(st.integers(1, 3), min_size=1, max_size=3), st.lists(st.integers(1, 12), min_size=2, max_size=4)), reach=logf(0.1, 3), wide=logf(0.1, 1.6), p=st.fixed_dictionaries(PROFILE)))


def build(c):
    two = shrink_grid(c["two"], 30000)
    conf = config(two)
    # physical box relative to the 2d domain: all blocks together cover `reach` of its length, `wide` of its width
    L1, L2 = two["f1"] * two["L"], two["f2"] * two["L"]
    nb = sum(c["calls"])
    dims = [c["reach"] * L1 / nb, c["wide"] * L2, c["box"][2] * min(c["reach"] * L1 / nb, c["wide"] * L2) / 4]
    Ls = min(dims) / 2.0
    return dict(c, dims=dims, Ls=Ls, Ga=min(c["Ga"], 1.5), lev=tuple(min(v, 3) for v in c["lev"])), conf


def too_big(c):
    d = np.array(c["dims"]) / (2.0 ** np.array(c["lev"]) + 1)
    n = [2 * 3 * c["Ga"] * c["Ls"] / d[0], 2 * c["Ls"] / d[1], 2 * c["Ls"] / d[2]]
    return np.prod(np.array(n) + 2.0 ** np.array(c["lev"]) + 10)


def run(c, ctx):
    c, conf = build(c)
    if too_big(c) > 4e5:
        c["Ls"] /= 3
    nb = sum(c["calls"])
    g, h = make_gen(c, conf2d=conf), make_gen(c)
    done = 0
    for n in c["calls"]:
        a = g.generate(n, **gen_args(c["p"]))
        b = h.generate(n, **gen_args(c["p"]))
        done += n
    need(a.shape == b.shape, lambda: f"shapes {a.shape}, {b.shape}")
    need(bool(np.all(np.isfinite(a))), "non-finite field")
    d = a - b
    lf = g.low_freq_gen
    u1, u2 = np.asarray(lf.u1, float), np.asarray(lf.u2, float)
    L1, L2 = conf["L1_factor"] * conf["L_2d"], conf["L2_factor"] * conf["L_2d"]
    N1, N2 = 2 ** conf["exp1"], 2 ** conf["exp2"]
    need(u1.shape == (N1, N2) == u2.shape, lambda: f"2d field shape {u1.shape}, requested {(N1, N2)}")
    xs, ys = np.arange(N1) * (L1 / N1), np.arange(N2) * (L2 / N2)
    nx, ny = 2 ** c["lev"][0] + 1, 2 ** c["lev"][1] + 1
    tx = np.arange(nb * nx) * (c["dims"][0] / nx)
    ty = L2 / 2 - c["dims"][1] / 2 + np.arange(ny) * (c["dims"][1] / ny)
    tol = 3e-4 + 1e-9 * (np.abs(b).max() + np.abs(u1).max())
    need(bool(np.all(np.abs(d[..., 2]) <= tol)), "the vertical component is changed")
    need(bool(np.all(np.abs(d - d[:, :, :1]) <= 2 * tol)), "the added field varies with height")
    inside = 0
    for i, u in enumerate((u1, u2)):
        e, full, edge = bilinear(xs, ys, u, tx, ty)
        got = d[:, :, 0, i]
        ok = np.abs(got - e) <= tol
        alt = edge & ((np.abs(got - full) <= tol) | (np.abs(got) <= tol))
        bad = ~(ok | alt)
        if bad.any():
            q = tuple(np.argwhere(bad)[0])
            fail(f"component {i} at x={tx[q[0]]:.6g} (block {q[0]//nx} of {nb}, calls {c['calls']}), y={ty[q[1]]:.6g}: added {got[q]:.6g}, the 2d field gives {e[q]:.6g} (domain {L1:.6g} x {L2:.6g})")
        inside += int((np.abs(e) > 10 * tol).sum())
    # the seed determines everything, however the calls are split
    k = make_gen(c, conf2d=conf)
    np.random.seed(c["seed"] % 1000)
    np.random.normal(size=3)
    a2 = k.generate(nb, **gen_args(c["p"]))
    need(bool(np.all(np.abs(a2 - a) <= tol)), lambda: f"same seed, blocks in one call: max difference {np.abs(a2-a).max():.3g}")
    k = make_gen(c, conf2d=conf, fseed=(c["fseed"] + 1) % 2**31)
    need(not np.array_equal(np.asarray(k.low_freq_gen.u1), u1), "another seed gives the same low-frequency field")
    ctx.label("calls=%d" % len(c["calls"]), "blocks>1" if nb > 1 else "one-block", "wider" if c["wide"] > 1 else "inside", "beyond" if c["reach"] > 1 else "within")
    return nb > 1 and inside > 0


SUBS = [Sub("compose%d" % i, CASE, run, 60, 1500) for i in range(6)]

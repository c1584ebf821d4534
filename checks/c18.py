"""C18 histories of generate() calls."""
import numpy as np
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.fields import GENCASE, PROFILE, gen_args, make_gen, strip_profile, with_box
from vlib.harness import Sub

ID = "C18"
RULE = "non-trivial: at least two calls, or two interleaved generators, with three or more blocks in total"

OP = st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 2))  # generator, blocks, profile
HIST = st.fixed_dictionaries(dict(GENCASE, ops=st.lists(OP, min_size=1, max_size=6), profs=st.lists(st.fixed_dictionaries(PROFILE), min_size=3, max_size=3),
                                  seeds3=st.sampled_from([(0, 0, 1), (0, 1, 2), (0, 0, 0), (0, 2**16, 2**8), (0, 2**20, 2**30), (0, 2**24, 0)]), glob=st.booleans(), other=st.booleans()))
TOL = 2e-4  # single-precision transforms; fields are normalized to unit RMS


def fluct(g, segs, c, profs):
    """fluctuation part of the accumulated field, block by block"""
    nx = 2 ** c["lev"][0] + 1
    out = []
    for b, p in enumerate(segs):
        out.append(strip_profile(g.total_fluctuation[b * nx : (b + 1) * nx], c["dims"], profs[p]))
    return np.concatenate(out) if out else np.zeros((0,))


def run(c, ctx):
    c = with_box(c, ctx)
    profs = c["profs"]
    n = tuple(2 ** v + 1 for v in c["lev"])
    cases = [dict(c, fseed=(c["fseed"] + k) % 2**31) for k in c["seeds3"]]
    if c["other"]:  # the third generator is a different configuration altogether
        cases[2] = dict(cases[2], model="VK" if c["model"] == "Mann" else "Mann", lev=tuple(np.roll(c["lev"], 1).tolist()), blend=c["blend"] + 1)
    gens = [make_gen(k) for k in cases]
    dims = [tuple(2 ** v + 1 for v in k["lev"]) for k in cases]
    segs = [[], [], []]
    snap = [np.array(g.total_fluctuation, copy=True) for g in gens]
    for g, d in zip(snap, dims):
        need(g.shape == (0, d[1], d[2], 3), lambda: f"initial field {g.shape}")
    for gi, blocks, pi in c["ops"]:
        g, d = gens[gi], dims[gi]
        if c["glob"]:
            np.random.seed(c["seed"] % 2**31)
        r = g.generate(blocks, **gen_args(profs[pi]))
        segs[gi] += [pi] * blocks
        need(isinstance(r, np.ndarray) and r.shape == (len(segs[gi]) * d[0], d[1], d[2], 3), lambda: f"field {getattr(r, 'shape', type(r))} after {len(segs[gi])} blocks of {d}")
        need(np.array_equal(r, g.total_fluctuation), "generate() does not return the stored field")
        need(bool(np.all(np.isfinite(r))), "non-finite values in the field")
        need(np.array_equal(r[: len(snap[gi])], snap[gi]), "blocks generated earlier were changed")
        snap[gi] = np.array(r, copy=True)
        for j in range(3):
            need(np.array_equal(gens[j].total_fluctuation, snap[j]), "a generator changed the field of another one")
    tot = 0
    fl = []
    for k, g, s, d in zip(cases, gens, segs, dims):
        if not s:
            fl.append(None)
            continue
        tot += len(s)
        h = make_gen(k)
        h.generate(len(s), **gen_args(profs[0]))
        a, b = fluct(g, s, k, profs), fluct(h, [0] * len(s), k, profs)
        sc = 1.0 + np.abs(np.concatenate([g.total_fluctuation[..., 0].ravel(), h.total_fluctuation[..., 0].ravel()])).max() * 1e-8
        need(bool(np.all(np.abs(a - b) <= TOL * sc)), lambda: f"the field depends on how blocks are distributed over calls and generators: max difference {np.abs(a-b).max():.3g}, blocks {s}")
        fl.append(a)
        nx = d[0]
        for i in range(len(s)):
            for j in range(i):
                need(np.abs(a[i * nx : (i + 1) * nx] - a[j * nx : (j + 1) * nx]).max() > 1e-2, lambda: f"blocks {j} and {i} are equal")
    for i in range(3):
        for j in range(i):
            if fl[i] is not None and fl[j] is not None and fl[i].shape[1:] == fl[j].shape[1:] and not (c["other"] and i == 2):
                m = min(len(fl[i]), len(fl[j]))
                same = np.abs(fl[i][:m] - fl[j][:m]).max() <= TOL * 10
                if cases[i]["fseed"] == cases[j]["fseed"]:
                    need(same, "equal seeds give different fields")
                else:
                    need(not same, "different seeds give equal fields")
    ctx.label(c["model"], f"blend={c['blend']}", f"calls={len(c['ops'])}", "split" if any(sum(o[0] == i and o[1] for o in c["ops"]) > 1 for i in range(3)) else "single")
    _ = n
    return tot >= 3 and len(c["ops"]) >= 2


NONE = st.fixed_dictionaries(dict(GENCASE, p=st.fixed_dictionaries(PROFILE), blocks=st.integers(1, 2)))


def run_noseed(c, ctx):
    """no seed: every generator draws its own field"""
    c = dict(with_box(c, ctx), fseed=None)
    np.random.seed(3)
    a = make_gen(c).generate(c["blocks"], **gen_args(c["p"])).copy()
    np.random.seed(3)
    b = make_gen(c).generate(c["blocks"], **gen_args(c["p"])).copy()
    need(a.shape == b.shape and np.abs(a - b).max() > 1e-3, "two unseeded generators give the same field")
    ctx.label(c["model"])
    return True


strat_long = dict(GENCASE, lev=st.tuples(st.integers(1, 2), st.just(1), st.just(1)), p=st.fixed_dictionaries(PROFILE), calls=st.one_of(st.lists(st.integers(1, 120), min_size=1, max_size=3), st.tuples(st.integers(100, 300), st.integers(1, 60), st.integers(1, 3))), prec=st.booleans())


def run_long(c, ctx):
    """long records, in few large calls: nothing is lost and nothing repeats"""
    c = with_box(c, ctx)
    g, h = make_gen(c), make_gen(c)
    nx = 2 ** c["lev"][0] + 1
    tot = 0
    for n in c["calls"]:
        before = np.array(g.total_fluctuation, copy=True)
        r = g.generate(n, **gen_args(c["p"]))
        tot += n
        need(r.shape[0] == tot * nx, lambda: f"{r.shape[0]} planes after {tot} blocks of {nx}")
        need(np.array_equal(r[: len(before)], before), "blocks generated earlier were changed")
    h.generate(tot, **gen_args(c["p"]))
    a, b = (strip_profile(x.total_fluctuation, c["dims"], c["p"]) for x in (g, h))
    need(a.shape == b.shape and np.abs(a - b).max() <= 10 * TOL, "a long field depends on how blocks are distributed over calls")
    B = a.reshape(tot, -1)
    if tot > 1:
        d = np.abs(B[:, None, :8] - B[None, :, :8]).max(axis=2) + 10 * np.eye(tot)
        i, j = np.unravel_index(np.argmin(d), d.shape)
        need(np.abs(B[i] - B[j]).max() > 1e-4, lambda: f"blocks {i} and {j} are equal")
    ctx.label(c["model"], "blocks>60" if tot > 60 else "blocks<=60")
    return tot > 60


SUBS = [Sub("history_vk", strat(HIST, model="VK"), run, 90, 3000), Sub("history_mann", strat(HIST, model="Mann"), run, 90, 3000), Sub("history_mann2", strat(HIST, model="Mann", other=False), run, 90, 3000), Sub("history_vk2", strat(HIST, model="VK", other=False), run, 90, 3000), Sub("history_drd", strat(HIST, model="DRD"), run, 70, 2000), 
        Sub("long", st.fixed_dictionaries(dict(strat_long)), run_long, 12, 300), Sub("unseeded", NONE, run_noseed, 40, 800)]

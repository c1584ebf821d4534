"""C06 evaluations have no side effects."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import ref
from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C06"
RULE = "non-trivial: a history with at least two operations of which at least one is a spectrum/lifetime evaluation after another operation"

OPS_ = st.one_of(
    st.tuples(st.just("eval"), st.integers(0, 7), st.integers(1, 5)),
    st.tuples(st.just("forward"), st.integers(0, 7), st.integers(1, 5)),
    st.tuples(st.just("life"), st.integers(0, 7), st.integers(1, 6)),
    st.tuples(st.just("gridlife"), st.integers(0, 7), st.integers(1, 3)),
    st.tuples(st.just("tensor"), st.integers(1, 3), st.integers(0, 0)),
    st.tuples(st.just("div"), st.integers(0, 7), st.integers(1, 2)),
    st.tuples(st.just("coh"), st.integers(0, 7), st.integers(1, 2)),
    st.tuples(st.just("set"), st.integers(0, 7), st.integers(0, 2)),
    st.tuples(st.just("grad"), st.integers(0, 7), st.integers(1, 3)),
    st.tuples(st.just("alike"), st.integers(0, 7), st.integers(3, 6)),
)
HIST = st.fixed_dictionaries(dict(
    type=st.sampled_from(LIFETIMES), L=wide(0.1, 10, 10), Gamma=wide(0.1, 5, 10), sigma=wide(0.1, 10, 30), seed=seeds,
    grid=st.tuples(unif(-2.5, -1), unif(0.5, 2), st.integers(4, 10)), learn=st.booleans(), learn_nu=st.booleans(),
    tseed=st.integers(0, 99), ops=st.lists(OPS_, min_size=1, max_size=9),
))


def k1s(c, i, n):
    return torch.tensor(logvec(rng(c["seed"] + 17 * i), 0.05, 20, n) / c["L"])


def vecs(c, i, n):
    return torch.tensor(rng(c["seed"] + 31 * i).normal(size=(n, 3)) / c["L"])


def fresh(c, ctx, vec):
    kw = dict(use_learnable_spectrum=True, p_exponent=3.7, q_exponent=2.9) if c["learn"] else {}
    pb = make_problem(c, ctx.scratch, **kw)
    if vec is not None:
        pb.parameters = vec.copy()
    return pb


def between(pb, c, i, first_L, vec):
    """evaluations elsewhere, which leave the grid of the last spectra alone"""
    if i % 2:
        pb.OPS.EddyLifetime(vecs(c, i + 3, 2 + i % 3))
    if i % 4 > 1:
        if first_L[0] is None:
            first_L[0] = vec[0]
        with torch.no_grad():
            pb.OPS.SpectralCoherence(k1s(c, i + 2, 2), torch.tensor([0.3 * c["L"]]))


def run_hist(c, ctx):
    with default_dtype("float64"):
        pb = fresh(c, ctx, None)
        if c["type"] == "TAUNET":
            scramble_net(pb.OPS.tauNet, c["seed"], 0.3)
        vec = pb.parameters.copy()
        last_k1 = None
        first_L = [None]  # length scale at the first coherence evaluation
        interesting = 0
        for step, (op, i, n) in enumerate(c["ops"]):
            now = pb.parameters
            need(np.array_equal(now, vec), lambda: f"step {step}: the parameters changed by themselves: {now} vs {vec}")
            if op in ("eval", "forward"):
                k1 = k1s(c, i, n)
                keep = k1.clone()
                y = pb.eval(k1) if op == "eval" else pb.OPS(k1).detach().numpy()
                e = fresh(c, ctx, vec).eval(k1.clone())
                need(torch.equal(k1, keep), "input modified")
                need(close(y, e, 1e-10, 1e-14), lambda: f"step {step} {op}: differs from a fresh model: {relerr(y, e)}")
                last_k1 = k1
                interesting += step > 0
            elif op == "life":
                k = vecs(c, i, n)
                keep = k.clone()
                y = pb.OPS.EddyLifetime(k).detach().numpy()
                e = fresh(c, ctx, vec).OPS.EddyLifetime(k.clone()).detach().numpy()
                need(torch.equal(k, keep), "input modified")
                need(close(y, e, 1e-10), lambda: f"step {step} lifetime: {relerr(y, e)}")
                interesting += step > 0
            elif op == "alike":  # inputs that share length, ends, sums or storage with the ones before
                r = rng(c["seed"] + 7 * i)
                k1 = torch.sort(k1s(c, i, n))[0]
                pb.eval(k1)
                other = k1.clone()
                other[1:-1] *= torch.tensor(r.uniform(0.5, 0.9, size=n - 2))
                perm = torch.tensor(r.permutation(n))
                for what, x in (("equal length and ends", other), ("permuted", other[perm]), ("back", k1)):
                    y, e = pb.eval(x), fresh(c, ctx, vec).eval(x.clone())
                    need(close(y, e, 1e-10, 1e-14), lambda: f"step {step} spectra ({what}): differs from a fresh model: {relerr(y, e)}")
                buf = k1.clone()
                pb.eval(buf)
                buf *= 0.7  # the same storage with other content
                y = pb.eval(buf)
                need(close(y, fresh(c, ctx, vec).eval(buf.clone()), 1e-10, 1e-14), f"step {step}: spectra of an array that was changed in place are stale")
                k = vecs(c, i, n)
                pb.OPS.EddyLifetime(k)
                for what, x in (("permuted rows", k[perm]), ("permuted components", k[:, [1, 2, 0]]), ("scaled", 1.5 * k)):
                    y = pb.OPS.EddyLifetime(x).detach().numpy()
                    e = fresh(c, ctx, vec).OPS.EddyLifetime(x.clone()).detach().numpy()
                    need(close(y, e, 1e-10), lambda: f"step {step} lifetime ({what}): {relerr(y, e)}")
                k *= 0.7
                y = pb.OPS.EddyLifetime(k).detach().numpy()
                need(close(y, fresh(c, ctx, vec).OPS.EddyLifetime(k.clone()).detach().numpy(), 1e-10), f"step {step}: lifetimes of an array that was changed in place are stale")
                pb.eval(k1)
                last_k1 = k1
                interesting += 1
            elif op == "gridlife":
                k1 = k1s(c, i, n)
                pb.eval(k1)
                between(pb, c, i, first_L, vec)
                y = pb.OPS.EddyLifetime().detach().numpy()
                f = fresh(c, ctx, vec)
                f.eval(k1)
                e = f.OPS.EddyLifetime().detach().numpy()
                need(close(y, e, 1e-10), lambda: f"step {step} lifetime on the grid: {relerr(y, e)}")
                last_k1 = k1
                interesting += step > 0
            elif op == "tensor":
                if last_k1 is None:
                    continue
                pb.eval(last_k1)
                between(pb, c, step, first_L, vec)
                f = fresh(c, ctx, vec)
                f.eval(last_k1)
                e = f.OPS.PowerSpectra()
                for _ in range(i):
                    y = pb.OPS.PowerSpectra()
                    for a, b in zip(y, e):
                        need(close(a.detach().numpy(), b.detach().numpy(), 1e-10),
                             lambda: f"step {step} repeated tensor evaluation: {relerr(a.detach().numpy(), b.detach().numpy())}")
                interesting += 1
            elif op == "div":
                k1 = k1s(c, i, n)
                pb.eval(k1)
                between(pb, c, i, first_L, vec)
                Phi = [p.clone() for p in pb.OPS.PowerSpectra()]
                div = pb.OPS.get_div(torch.stack(Phi) if n == 1 else tuple(Phi)).detach().numpy()
                P = [p.detach().numpy() for p in Phi]
                above = np.all([p > 2e-12 for p in P[:3]] + [np.abs(P[3]) > 2e-12, P[4] > 2e-12, P[5] > 2e-12], axis=0)
                g = ref.log_grid(*c["grid"])
                grid = ref.grid_vectors(k1.numpy(), g, g)
                sc = np.linalg.norm(grid, axis=-1)
                need(div.shape == (3,) + above.shape, lambda: f"divergence shape {div.shape}")
                for j in range(3):
                    bad = np.abs(div[j]) > 1e-6 * sc
                    need(not np.any(bad & above), lambda: f"step {step}: divergence {np.max(np.abs(div[j]/sc)[above]):.3g}")
                ctx.label("div-points>0" if above.any() else "div-empty")
                # arbitrary tensor: contraction with k over a third of the trace
                r = rng(c["seed"] + i)
                T = [torch.tensor(r.uniform(0.5, 2, size=above.shape)) for _ in range(6)]
                d2 = pb.OPS.get_div(tuple(T)).detach().numpy()
                t = [a.numpy() for a in T]
                K = np.moveaxis(grid, -1, 0)
                M = [[t[0], t[5], t[3]], [t[5], t[1], t[4]], [t[3], t[4], t[2]]]
                e = np.stack([sum(K[b] * M[a][b] for b in range(3)) for a in range(3)]) * 3 / (t[0] + t[1] + t[2])
                need(close(d2, e, 1e-9, 1e-9 * sc.max()), lambda: "divergence of a given tensor: " + relerr(d2, e))
                last_k1 = k1
                interesting += step > 0
            elif op == "coh":
                k1 = k1s(c, i, n)
                sep = torch.tensor(rng(c["seed"] + i).uniform(0, 3, size=2) * c["L"])
                keep = k1.clone(), sep.clone()
                with torch.no_grad():
                    y = pb.OPS.SpectralCoherence(k1, sep).numpy()
                need(torch.equal(k1, keep[0]) and torch.equal(sep, keep[1]), "input modified")
                if first_L[0] is None:
                    first_L[0] = vec[0]
                if first_L[0] == vec[0]:  # the integration grid is tied to the length scale of the first call
                    with torch.no_grad():
                        e = fresh(c, ctx, vec).OPS.SpectralCoherence(k1, sep).numpy()
                    need(close(y, e, 1e-10), lambda: f"step {step} coherence: {relerr(y, e)}")
                    interesting += step > 0
            elif op == "set":
                v = vec.copy()
                r = rng(c["seed"] + 101 * i)
                v[: len(v) if n else 3] += 0.3 * r.normal(size=len(v) if n else 3)
                v[:3] = np.clip(v[:3], -2.5, 2.5)
                given_ = v.copy()
                pb.parameters = given_
                need(np.array_equal(given_, v), "the assigned vector was modified")
                vec = v
            elif op == "grad":
                y = pb.OPS(k1s(c, i, n))
                y[:3].sum().backward()
                pb.OPS.zero_grad()
                last_k1 = k1s(c, i, n)
            ctx.label(op)
        return interesting > 0


SUBS = [Sub("history_" + t, strat(HIST, type=t), run_hist, 80, 3000) for t in LIFETIMES]

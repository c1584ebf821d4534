"""C11 parameter vector round trip."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C11"
RULE = ("non-trivial: round-trip cases that assign a vector differing from the initial one; every rejection case; "
        "noise cases with positive magnitude")

CASE = dict(
    type=st.sampled_from(LIFETIMES), L=wide(1e-2, 1e3), Gamma=wide(1e-2, 1e2), sigma=wide(1e-3, 1e3), seed=seeds, nlayers=st.one_of(st.integers(1, 3), st.integers(4, 8)),
    width=st.one_of(st.integers(1, 6), st.integers(7, 40)), learn=st.booleans(), p=unif(2, 5), q=unif(2.2, 4), learn_nu=st.booleans(), dt=dtypes, tseed=st.integers(0, 999),
    grid=st.just((-2.0, 2.0, 6)),
)


def build(c, ctx, **over):
    c2 = dict(c, **{k: v for k, v in over.items() if k in c})
    kw = {k: v for k, v in over.items() if k not in c}
    if c["learn"]:
        kw.update(use_learnable_spectrum=True, p_exponent=c2["p"], q_exponent=c2["q"])
    return make_problem(c2, ctx.scratch, **kw)


def count(c):
    n = 3 + (2 if c["learn"] else 0)
    if c["type"] == "TAUNET":
        w, l_ = c["width"], c["nlayers"]
        n += 3 * w + (l_ - 1) * w * w + 3 * w + (1 if c["learn_nu"] else 0)
    return n


OPSQ = st.lists(st.tuples(st.sampled_from(["full", "scales", "short", "long", "float64", "list", "self", "torch"]), st.integers(0, 50)), min_size=1, max_size=6)
RT = st.fixed_dictionaries(dict(CASE, ops=OPSQ))


def run_rt(c, ctx):
    with default_dtype(c["dt"]):
        f64 = c["dt"] == "float64"
        eps = 1e-12 if f64 else 2e-6
        pb = build(c, ctx)
        v = pb.parameters
        n = count(c)
        need(len(v) == n, lambda: f"{len(v)} parameters, expected {n}")
        exp = np.log([c["L"], c["Gamma"], c["sigma"]])
        need(bool(np.all(np.abs(v[:3] - exp) <= eps * (1 + np.abs(exp)))), lambda: f"initial log-scales {v[:3]}, expected {exp}")
        if c["learn"]:
            need(abs(v[3] - c["p"]) <= 1e-5 and abs(v[4] - c["q"]) <= 1e-5, lambda: f"initial exponents {v[3:5]}")
        LTM = pb.OPS.exp_scales()
        need(close(LTM, [c["L"], c["Gamma"], c["sigma"]], 10 * eps), lambda: f"scales {LTM}")
        if c["type"] == "TAUNET":
            need(pb.num_trainable_params() == n - 3 - (2 if c["learn"] else 0), "number of network parameters")
        else:
            expect_raises(ValueError, pb.num_trainable_params, "num_trainable_params without a network")
        cur = v.copy()
        k1 = torch.tensor([0.3, 2.0], dtype=torch.get_default_dtype()) / c["L"]
        kv = torch.tensor([[0.3, -0.4, 1.0], [2.0, 1.0, 0.0]], dtype=torch.get_default_dtype())
        changed = False
        for op, i in c["ops"]:
            r = rng(c["seed"] + i)
            if op in ("short", "long"):
                w = np.concatenate([cur, cur])[: n + (1 + i % 3 if op == "long" else -(1 + i % 2))] + 1.0
                expect_raises(ValueError, lambda: setattr(pb, "parameters", w), f"vector of length {len(w)} for {n} parameters")
            else:
                w = cur.copy()
                if op in ("full", "list", "torch"):
                    w[3:] += (0.3 * r.normal(size=n - 3)).astype(w.dtype)
                if op != "self":
                    w[:3] = np.clip(cur[:3] + 0.5 * r.normal(size=3), -4, 4).astype(w.dtype)
                    changed = True
                if op == "float64":
                    arg = w.astype(np.float64)
                elif op == "list":
                    arg = [float(x) for x in w]
                elif op == "torch":
                    arg = torch.tensor(w)
                else:
                    arg = w.copy()
                keep = np.array(arg)
                pb.parameters = arg
                need(np.array_equal(np.array(arg), keep), "the assigned vector was modified")
                cur = w
                if op in ("full", "float64"):
                    arg[:] = 0  # the model must not follow later changes of the caller's array
                elif op == "torch":
                    arg.zero_()
            got = pb.parameters
            need(got.shape == cur.shape and bool(np.all(np.abs(got - cur) <= eps * (1 + np.abs(cur)))),
                 lambda: f"after '{op}': read back {got[:6]}, assigned {cur[:6]}")
            got[:] = -7  # nor may changing the returned array change the model
            need(bool(np.all(np.abs(pb.parameters - cur) <= eps * (1 + np.abs(cur)))), "the returned vector aliases the model")
            ctx.label(op)
        off = 5 if c["learn"] else 3
        for o in ("fro", 1, float("inf"), 3):
            if c["type"] != "TAUNET":
                expect_raises(ValueError, lambda: pb.eval_trainable_norm(o), "norm of the network parameters without a network")
            else:
                e = float(np.linalg.norm(cur[off:].astype(float), 2 if o == "fro" else o))
                nrm = float(pb.eval_trainable_norm() if o == "fro" and c["seed"] % 2 else pb.eval_trainable_norm(o))
                need(abs(nrm - e) <= (1e-9 if f64 else 1e-4) * (1e-3 + e), lambda: f"norm {o} of the network parameters is {nrm}, expected {e}")
        # behaves as a model built with the vector
        t = build(c, ctx, L=float(np.exp(cur[0])), Gamma=float(np.exp(cur[1])), sigma=float(np.exp(cur[2])),
                  **({"p": float(cur[3]), "q": float(cur[4])} if c["learn"] else {}))
        if c["type"] == "TAUNET":
            nn = [p for p in t.OPS.tauNet.parameters()]
            off = n - sum(p.numel() for p in nn)
            with torch.no_grad():
                for p in nn:
                    p.copy_(torch.tensor(cur[off: off + p.numel()]).view_as(p))
                    off += p.numel()
        a, b = pb.eval(k1), t.eval(k1)
        tol = 1e-8 if f64 else 2e-2
        sc = np.sqrt(np.abs(b[[0, 1, 2, 0, 1, 0]] * b[[0, 1, 2, 2, 2, 1]]))
        need(bool(np.all(np.abs(a - b) <= tol * sc + 1e-6 * (not f64))), lambda: "spectra after assignment: " + relerr(a, b))
        a, b = pb.OPS.EddyLifetime(kv).detach().numpy(), t.OPS.EddyLifetime(kv).detach().numpy()
        need(close(a, b, 1e-9 if f64 else 1e-3), lambda: "lifetime after assignment: " + relerr(a, b))
        if f64 and c["seed"] % 3 == 0:
            sep = torch.tensor([0.3, 2.0]) * c["L"]
            a, b = (x.OPS.SpectralCoherence(k1, sep).detach().numpy() for x in (pb, t))
            need(close(a, b, 1e-7, 1e-9), lambda: "coherence after assignment: " + relerr(a, b))
        ctx.label(c["type"], c["dt"])
        return changed


BAD = st.fixed_dictionaries(dict(CASE, what=st.sampled_from(["components", "L", "Gamma", "sigma"]), val=st.sampled_from([-3, 0, 1, 2, 5, 7, 9, 12]),
                                 neg=st.sampled_from([0.0, -1.0, -1e-8])))


def run_bad(c, ctx):
    with default_dtype(c["dt"]):
        if c["what"] == "components":
            expect_raises((ValueError, AssertionError), lambda: build(c, ctx, num_components=c["val"]), f"num_components={c['val']}")
        else:
            expect_raises((ValueError, AssertionError), lambda: build(c, ctx, **{c["what"]: c["neg"]}), f"{c['what']}={c['neg']}")
        ctx.label(c["what"])
        return True


NOISE = st.fixed_dictionaries(dict(CASE, m=st.one_of(st.just(0.0), logf(1e-4, 1), logf(1e-3, 1), logf(1, 100))))


def run_noise(c, ctx):
    with default_dtype(c["dt"]):
        a = build(c, ctx).parameters
        b = build(c, ctx, init_with_noise=True, noise_magnitude=c["m"]).parameters
        need(a.shape == b.shape, "noise changed the number of parameters")
        exp = np.log([c["L"], c["Gamma"], c["sigma"]])
        need(bool(np.all(np.abs(b[:3] - exp) <= (1e-12 if c["dt"] == "float64" else 2e-6) * (1 + np.abs(exp)))),
             lambda: f"noise initialization moved the physical scales: {b[:3]} vs {exp}")
        d = b[3:] - a[3:]
        need(bool(np.all(np.abs(d) <= 7 * c["m"] + 1e-6)), lambda: f"perturbation {np.abs(d).max():.3g} for magnitude {c['m']}")
        if len(d) >= 20 and c["m"] >= 1e-3:
            rms, mean, n = np.sqrt(np.mean(d**2)) / c["m"], np.mean(d) / c["m"], len(d)
            need(1 - 6 / np.sqrt(2 * n) < rms < 1 + 6 / np.sqrt(2 * n), lambda: f"noise RMS is {rms:.3g} times the requested magnitude ({n} parameters)")
            need(abs(mean) < 6 / np.sqrt(n), lambda: f"noise has a mean of {mean:.3g} times its magnitude ({n} parameters)")
            if n >= 8000:
                m4 = np.mean((d / c["m"]) ** 4)
                need(abs(m4 - 3) < 7 * np.sqrt(96 / n) and np.abs(d).max() > 3 * c["m"], lambda: f"noise is not Gaussian: fourth moment {m4:.3g}, largest value {np.abs(d).max() / c['m']:.3g} magnitudes of {n}")
            ctx.label("rms")
        if c["m"] >= 1e-3 and len(d):
            need(bool(np.any(d != 0)), "no noise was added")
            b2 = build(c, ctx, init_with_noise=True, noise_magnitude=c["m"]).parameters
            need(np.array_equal(b, b2), "equal torch seeds give different noise")
            o = dict(tseed=c["tseed"] + 1)
            d2 = build(c, ctx, init_with_noise=True, noise_magnitude=c["m"], **o).parameters[3:] - build(c, ctx, **o).parameters[3:]
            need(bool(np.any(np.abs(d2 - d) > 1e-3 * c["m"])), "two models are perturbed by the same noise")
        ctx.label(c["type"])
        return c["m"] > 0 and len(d) > 0


SUBS = [Sub("roundtrip", RT, run_rt, 150, 4000), Sub("roundtrip2", RT, run_rt, 150, 4000), Sub("reject", BAD, run_bad, 60, 600), Sub("noise", NOISE, run_noise, 120, 2500),
        Sub("white", strat(NOISE, type="TAUNET", width=st.one_of(st.integers(20, 40), st.integers(55, 70)), nlayers=st.integers(2, 4), m=logf(1e-2, 1)), run_noise, 15, 300)]

"""C34 refused requests raise and leave no trace."""
import os
from pathlib import Path

import numpy as np
import torch
from hypothesis import strategies as st

from checks.c33 import EPS, SPEC, Data, Drd, Field, Fit, Losses, Low, Model, Sampler, params, tolerance
from vlib.common import *  # noqa: F403
from vlib.fields import in_dir
from vlib.harness import Sub
from vlib.plots import setup

ID = "C34"
RULE = "non-trivial: a request is refused before another one is served; every refused construction"

NOISE = (ValueError, AssertionError)


# ---------------------------------------------------------------- requests an existing object must refuse
def fit_vector(a, r):
    n = len(a.p.parameters)
    m = int(r.choice([v for v in (0, 1, n - 1, n + 1, n + 7) if v != n]))
    w = r.normal(size=m)
    expect_raises(ValueError, lambda: setattr(a.p, "parameters", w if r.uniform() < 0.5 else torch.tensor(w)), f"a vector of length {m} for {n} parameters")


def fit_network(a, r):
    if a.s["type"] == "TAUNET":
        return False
    expect_raises(ValueError, a.p.num_trainable_params, "num_trainable_params without a network")
    expect_raises(ValueError, lambda: a.p.eval_trainable_norm("inf"), "norm of the network parameters without a network")


def fit_save(a, r):
    d = Path(a.dir) / "missing"
    expect_raises(ValueError, lambda: a.p.save_model(d), "saving to a Path that is no directory")
    need(not d.exists(), "a refused save created the directory")


def fit_plot(a, r):
    if getattr(a.p, "data", None) is not None:
        return False
    expect_raises(ValueError, lambda: a.p.plot(plot_tau=False), "plot() without data")


def fit_nan(a, r):
    k = np.sort(np.exp(r.uniform(-2, 2, size=5)))
    E = np.exp(r.normal(size=(5, 3, 3)))
    E[r.integers(5), [0, 1, 2][r.integers(3)], :] = np.nan
    before = a.p.parameters.copy()
    expect_raises((ValueError, RuntimeError), lambda: a.p.calibrate({"k1": a.T(k), "ops": a.T(E), "coherence": None}), "data with missing values")
    need(np.array_equal(before, a.p.parameters), "a refused calibration changed the parameters")


def fit_file(a, r):
    k = np.sort(np.exp(r.uniform(-2, 2, size=5)))
    f = os.path.join(a.dir, "none.dat")
    expect_raises(Exception, lambda: a.p.calibrate({"k1": a.T(k), "ops": a.T(np.exp(r.normal(size=(5, 3, 3)))), "coherence": None}, coherence_data_file=f), "a coherence file that does not exist")


def field_profile(a, r):
    p = dict(zref=2.0, uref=3.0, z0=0.1, windprofiletype="LOG" if r.uniform() < 0.5 else "PL", plexp=0.2)
    k = int(r.integers(5))
    if k < 3:
        p[("zref", "uref", "z0")[k]] = float(r.choice([0.0, -1e-9, -3.0]))
    elif k == 3:
        p["windprofiletype"] = str(r.choice(["log", "", "POWER", "LOGPL", "pl"]))
    else:
        p.update(windprofiletype="PL", plexp=None)
    n = a.g.total_fluctuation.copy()
    expect_raises(ValueError, lambda: a.g.generate(int(r.integers(1, 3)), **p), f"generate() with {p}")
    need(np.array_equal(n, a.g.total_fluctuation), "a refused generate() changed the field")


def field_divergence(a, r):
    if r.uniform() < 0.5:
        expect_raises(ValueError, lambda: a.g.evaluate_divergence((1.0, 2.0), r.normal(size=(3, 3, 3, 3))), "a spacing of two numbers")
    else:
        expect_raises(ValueError, lambda: a.g.evaluate_divergence((1.0, 2.0, 1.0), r.normal(size=(3, 3, 3, 2))), "a field of two components")


def low_early(a, r):
    if a.made:
        return False
    k = int(r.integers(3))
    f = (a.g.compute_spectrum, lambda: a.g.interp_slice(np.zeros(2), np.zeros(2)), a.g.plot_velocity_fields)[k]
    expect_raises(RuntimeError, f, "use of a low-frequency field before its generation")


def sampler_method(a, r):
    expect_raises(Exception, lambda: a.f.setSamplingMethod(str(r.choice(["", "FFT", "vf-fftw", "none"]))), "an unknown sampling method")


def losses_nan(a, r):
    t = torch.tensor
    y, d = np.exp(r.normal(size=(3, 6))), np.exp(r.normal(size=(3, 6)))
    th = r.normal(size=4)
    coh = {f"{w}_{x}": r.uniform(size=(2, 3)) for x in "uvw" for w in ("model", "data")}
    k = int(r.integers(4))
    if k == 3:
        th[r.integers(4)] = np.nan
    elif k == 2:
        coh[("model_" if r.uniform() < 0.5 else "data_") + "uvw"[r.integers(3)]][r.integers(2), r.integers(3)] = np.nan
    else:
        (y, d)[k][r.integers(3), r.integers(6)] = np.nan
    expect_raises(ValueError, lambda: a.a.eval(t(y), t(d), t(th), a.e, coherence_data={q: t(v) for q, v in coh.items()}), "NaN in the " + ("spectra", "data", "coherence", "network parameters")[k])


BAD = {Fit: [fit_vector, fit_network, fit_save, fit_plot, fit_nan, fit_file], Field: [field_profile, field_profile, field_divergence], Drd: [field_profile, field_divergence], Low: [low_early], Sampler: [sampler_method], Losses: [losses_nan]}
KINDS = dict(fit=Fit, field=Field, low=Low, sampler=Sampler, losses=Losses, drd=Drd)
CASE = st.fixed_dictionaries(dict(
    actor=st.fixed_dictionaries(dict(SPEC, kind=st.sampled_from(sorted(KINDS)))), ops=st.lists(st.tuples(st.booleans(), st.integers(0, 5), st.integers(0, 9)), min_size=2, max_size=8)))


def run(c, ctx):
    setup()
    s = dict(c["actor"])
    if s["kind"] != "fit":
        s["dt"] = "float64"
    elif s["type"] == "MANN":
        s["type"] = "MANN_APPROX"
    bad = BAD[KINDS[s["kind"]]]
    with in_dir(ctx.tmpdir()), default_dtype("float64"):
        ops = list(c["ops"]) + [(True, 0, 0), (True, 1, 1)]
        out = []
        refused = 0
        useful = False
        for twin in (False, True):
            a = KINDS[s["kind"]](s, ctx, None)
            res = []
            for good, j, q in ops:
                if good:
                    res.append(a.run(j, q))
                    useful |= refused > 0
                elif not twin:
                    f = bad[j % len(bad)]
                    if s["kind"] == "fit" and f is fit_plot:
                        pass
                    mode = torch.get_default_dtype(), torch.is_grad_enabled(), np.geterr(), os.getcwd()
                    with default_dtype(s["dt"]):
                        done = f(a, rng(s["seed"] * 7 + q)) is not False
                    need((torch.get_default_dtype(), torch.is_grad_enabled(), np.geterr(), os.getcwd()) == mode, f"{f.__name__}: a refused request changed the state of the process")
                    refused += done
                    if done:
                        ctx.label(f.__name__)
            if isinstance(a, Losses):
                a.a.writer.close()
            out.append((a, res))
        good = [j for g, j, _ in ops if g]
        for n, (x, e) in enumerate(zip(out[0][1], out[1][1])):
            tol = tolerance(s, a, good, n)
            name = a.OPS[good[n] % len(a.OPS)].__name__
            need(len(x) == len(e) and all(u.shape == v.shape for u, v in zip(x, e)), lambda: f"{s['kind']}.{name}: shapes {[u.shape for u in x]} after refused requests, {[v.shape for v in e]} without them")
            for u, v in zip(x, e) if tol is not None else ():
                sc = np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 1.0
                need(np.array_equal(np.isfinite(u), np.isfinite(v)) and bool(np.all(np.abs(u - v)[np.isfinite(v)] <= tol * sc + 1e-300)),
                     lambda: f"{s['kind']}.{name} (request {n}) gives another result after refused requests: deviation {np.nanmax(np.abs(u - v)):.3g} of {sc:.3g}")
    return useful


# ---------------------------------------------------------------- constructions that must be refused; the same without the fault must not
CON = st.fixed_dictionaries(dict(kind=st.sampled_from(["model-scale", "model-network", "field-model", "field-missing", "field-path", "field-nofile", "field-2d", "domain", "components", "low-key"]),
                                 which=st.integers(0, 9), val=st.one_of(st.just(0.0), st.just(-0.0), st.just(float("nan")), logf(1e-12, 1e3).map(lambda v: -v)), seed=st.integers(1, 10**6), word=st.text("DRDVKManndrkv ", max_size=6),
                                 type=st.sampled_from(LIFETIMES), size=st.sampled_from([0, 1, 2, 4, 5]), arr=st.booleans(), tiny=logf(1e-12, 1e-3)))
LOWKEYS = ["sigma2", "L_2d", "psi", "z_i", "L1_factor", "L2_factor", "exp1", "exp2"]


def run_con(c, ctx):
    import drdmannturb as d
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator
    from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
    from drdmannturb.parameters import DomainParameters

    r = rng(c["seed"])
    k = c["kind"]
    T = d.EddyLifetimeType
    ig = d.IntegrationParameters(ops_num_points=5)
    with in_dir(ctx.tmpdir()), default_dtype("float64"):
        if k == "model-scale":
            def make(v):
                sc = dict(L=0.7, Gamma=2.0, sigma=1.5)
                sc[("L", "Gamma", "sigma")[c["which"] % 3]] = v
                return d.OnePointSpectra(T[c["type"]], d.PhysicalParameters(**sc), d.NNParameters(nlayers=1, hidden_layer_size=2), integration_params=ig)

            expect_raises(NOISE, lambda: make(c["val"]), f"a scale of {c['val']}")
            got = make(c["tiny"]).exp_scales()[c["which"] % 3]
            need(abs(got / c["tiny"] - 1) < 1e-9, lambda: f"a scale of {c['tiny']} became {got}")
        elif k == "model-network":
            expect_raises(NOISE, lambda: d.OnePointSpectra(T.TAUNET, d.PhysicalParameters(L=1.0, Gamma=1.0, sigma=1.0), None, integration_params=ig), "a network lifetime without network parameters")
            if c["type"] != "TAUNET":
                d.OnePointSpectra(T[c["type"]], d.PhysicalParameters(L=1.0, Gamma=1.0, sigma=1.0), None, integration_params=ig)
        elif k == "components":
            n = [0, 1, 2, 5, 7, 8, 9, -3, 12, 30][c["which"]]
            kw = dict(nn_params=d.NNParameters(nlayers=1), loss_params=d.LossParameters(), phys_params=d.PhysicalParameters(L=1.0, Gamma=1.0, sigma=1.0, domain=torch.ones(2)), integration_params=ig)
            expect_raises(NOISE, lambda: d.CalibrationProblem(prob_params=d.ProblemParameters(num_components=n), **kw), f"{n} components")
            for n in (3, 4, 6):
                d.CalibrationProblem(prob_params=d.ProblemParameters(num_components=n), **kw)
        elif k.startswith("field"):
            def make(**over):
                kw = dict(friction_velocity=1.0, reference_height=2.0, grid_dimensions=np.array([6.0, 4.0, 4.0]), grid_levels=np.array([1, 1, 1]), model=("VK", "Mann")[c["which"] % 2], length_scale=1.0, time_scale=1.0, energy_spectrum_scale=1.0, seed=1)
                kw.update(over)
                return FluctuationFieldGenerator(**kw)

            make()
            if k == "field-model":
                if c["word"] not in ("DRD", "VK", "Mann"):
                    expect_raises(ValueError, lambda: make(model=c["word"]), f"a model named {c['word']!r}")
            elif k == "field-missing":
                n = ("length_scale", "time_scale", "energy_spectrum_scale")[c["which"] // 2 % 3]
                expect_raises((ValueError, AssertionError, TypeError), lambda: make(**{n: None}), f"no {n}")
            elif k == "field-path":
                expect_raises(ValueError, lambda: make(model="DRD"), "a DRD field without a file of parameters")
            elif k == "field-nofile":
                expect_raises(FileNotFoundError, lambda: make(model="DRD", path_to_parameters=("none.pkl", Path("none.pkl"))[c["arr"]]), "a file of parameters that does not exist")
            else:
                cfg = dict(sigma2=1.0, L_2d=40.0, psi=0.7, z_i=12.0, L1_factor=4, L2_factor=3, exp1=2, exp2=2)
                del cfg[LOWKEYS[c["which"] % 8]]
                expect_raises((KeyError, ValueError), lambda: make(config_2d_model=cfg), f"a configuration without {LOWKEYS[c['which'] % 8]}")
        elif k == "low-key":
            cfg = dict(sigma2=1.0, L_2d=40.0, psi=0.7, z_i=12.0, L1_factor=4, L2_factor=3, exp1=2, exp2=2)
            LowFreqGenerator(cfg, seed=1)
            del cfg[LOWKEYS[c["which"] % 8]]
            expect_raises((KeyError, ValueError), lambda: LowFreqGenerator(cfg, seed=1), f"a configuration without {LOWKEYS[c['which'] % 8]}")
        else:
            wrap = (np.array if c["arr"] else list) if c["which"] % 4 < 2 else tuple
            good, lev = r.uniform(1, 9, size=3), r.integers(1, 6, size=3)
            p = DomainParameters(wrap(good), wrap(lev))
            need(np.array_equal(p.grid_dimensions, good) and np.array_equal(p.grid_levels, lev), "domain parameters are not returned as given")
            p = DomainParameters(tuple(good), tuple(lev))
            need(isinstance(p.grid_dimensions, np.ndarray) and np.array_equal(p.grid_dimensions, good) and np.array_equal(p.grid_levels, lev), "domain parameters are not returned as given")
            bad = r.uniform(1, 9, size=c["size"])
            if c["which"] % 2:
                expect_raises(ValueError, lambda: DomainParameters(wrap(bad), wrap(lev)), f"{c['size']} dimensions")
            else:
                expect_raises(ValueError, lambda: DomainParameters(wrap(good), wrap(bad.astype(int))), f"{c['size']} levels")
    ctx.label(k)
    return True


def of(*kinds):
    return strat(CASE, actor=st.fixed_dictionaries(dict(SPEC, kind=st.sampled_from(kinds))))


SUBS = [Sub("fit", of("fit"), run, 100, 2500), Sub("field", of("field", "drd"), run, 100, 2500), Sub("other", of("low", "sampler", "losses"), run, 100, 2500), Sub("losses", of("losses"), run, 60, 2000), Sub("construct", CON, run_con, 200, 3000)]

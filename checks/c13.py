"""C13 saved models."""
import contextlib
import os
import pickle
from pathlib import Path

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.harness import Sub

ID = "C13"
RULE = "non-trivial: the saved parameters differ from those of a freshly built problem (assigned, scrambled or calibrated before saving)"

CASE = dict(
    type=st.sampled_from(LIFETIMES), L=logf(0.05, 50), Gamma=logf(0.1, 8), sigma=logf(0.05, 20), seed=seeds, nlayers=st.integers(1, 3), width=st.integers(1, 6),
    acts=st.lists(st.sampled_from(["ReLU", "Tanh", "GELU"]), min_size=1, max_size=3), learn=st.booleans(), learn_nu=st.booleans(), dt=dtypes, tseed=st.integers(0, 999), grid=st.just((-2.0, 2.0, 6)), comps=st.sampled_from([3, 4, 6]),
    loss=st.fixed_dictionaries({}, optional=dict(alpha_pen1=logf(1e-3, 1), alpha_pen2=logf(1e-3, 1), beta_reg=logf(1e-4, 1e-1), gamma_coherence=logf(0.1, 1))),
    phys=st.fixed_dictionaries({}, optional=dict(zref=logf(0.5, 200), ustar=logf(0.1, 5), Uref=logf(1, 30))),
    noisy=st.sampled_from([None, None, None, 0.1]), target=st.sampled_from(["default", "str", "path", "newstr", "nested", "badpath"]), change=st.sampled_from(["assign", "calibrate", "none"]), twice=st.booleans(),
)


def build(c, ctx):
    kw = dict(num_components=c["comps"], nepochs=1, wolfe_iter_count=2)
    if c.get("noisy"):  # what the network starts from is no part of what is saved
        kw.update(init_with_noise=True, noise_magnitude=c["noisy"])
    if c["learn"]:
        kw.update(use_learnable_spectrum=True, p_exponent=3.8, q_exponent=2.9)
    return make_problem(c, ctx.tmpdir(), **kw)


def pkls(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(".pkl"))


def alter(c, pb, salt):
    r = rng(c["seed"] + salt)
    v = pb.parameters.copy()
    v[:3] = np.clip(v[:3] + 0.5 * r.normal(size=3), -3.5, 3.5)
    v[3:] += 0.2 * r.normal(size=len(v) - 3)
    pb.parameters = v


def same_fields(a, b, what):
    da, db = vars(a), vars(b)
    need(set(da) == set(db), f"{what}: fields differ")
    for k in da:
        x, y = da[k], db[k]
        if torch.is_tensor(x):
            ok = torch.equal(x, y)
        elif k == "activations":
            ok = [type(i).__name__ for i in x] == [type(i).__name__ for i in y]
        else:
            ok = x == y
        need(ok, lambda: f"{what}.{k}: saved {x!r}, loaded {y!r}")


def run(c, ctx):
    import drdmannturb as d

    with default_dtype(c["dt"]):
        pb = build(c, ctx)
        if c["change"] == "assign":
            alter(c, pb, 0)
        elif c["change"] == "calibrate":
            k1 = torch.tensor([0.3, 1.0, 3.0], dtype=torch.get_default_dtype()) / c["L"]
            Y = torch.tensor(pb.eval(k1)) * 1.2
            D = torch.zeros(3, 3, 3)
            for row, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))):
                D[:, i, j] = Y[row]
            pb.calibrate({"k1": k1, "ops": D, "coherence": None})
            pb.LossAggregator.writer.close()
        tgt = c["target"]
        root = ctx.tmpdir()
        if tgt == "badpath":
            p = Path(root) / "missing"
            try:
                pb.save_model(p)
            except (ValueError, OSError):
                pass
            else:
                need(len(pkls(root)) == 1, "a missing directory was accepted but no file was written")
                ctx.label("badpath-created")
            ctx.label("badpath")
            arg, where = Path(root), root
        elif tgt == "default":
            arg, where = None, pb.output_directory
        elif tgt == "str":
            arg, where = root, root
        elif tgt == "path":
            arg, where = Path(root), root
        elif tgt == "newstr":
            where = os.path.join(root, "sub")
            arg = where
        else:
            where = os.path.join(root, "a", "b")
            arg = where
        before = pkls(str(where)) if os.path.isdir(str(where)) else []
        before = {f: open(f, "rb").read() for f in before}
        args = () if arg is None else (arg,)
        pb.save_model(*args)
        if c["twice"]:
            alter(c, pb, 5)
            pb.save_model(*args)
        files = [f for f in pkls(str(where)) if f not in before or tgt == "badpath"]
        need(len(files) == 1, lambda: f"{len(files)} model files after saving: {files}")
        need(c["type"] in os.path.basename(files[0]), lambda: f"file name {os.path.basename(files[0])} does not name the lifetime type")
        with open(files[0], "rb") as f:
            objs = pickle.load(f)
        need(len(objs) == 5, lambda: f"{len(objs)} objects saved")
        nn, prob, loss, ph, vec = objs
        same_fields(pb.nn_params, nn, "NNParameters")
        same_fields(pb.prob_params, prob, "ProblemParameters")
        same_fields(pb.loss_params, loss, "LossParameters")
        same_fields(pb.phys_params, ph, "PhysicalParameters")
        cur = pb.parameters
        need(np.array_equal(np.asarray(vec), cur), "saved parameter vector differs from the model's")
        pb2 = d.CalibrationProblem(nn_params=nn, prob_params=prob, loss_params=loss, phys_params=ph,
                                   integration_params=d.IntegrationParameters(-2.0, 2.0, 6), logging_directory=root, output_directory=root)
        pb2.parameters = vec
        k1 = torch.tensor([0.2, 1.0, 4.0], dtype=torch.get_default_dtype()) / c["L"]
        need(np.array_equal(pb2.parameters, cur), "reloaded parameters differ")
        need(np.array_equal(pb2.eval(k1), pb.eval(k1)), "the reloaded model gives other spectra")
        kv = torch.tensor([[0.3, -0.4, 1.0], [2.0, 1.0, 0.0]], dtype=torch.get_default_dtype()) / c["L"]
        need(torch.equal(pb2.OPS.EddyLifetime(kv), pb.OPS.EddyLifetime(kv)), "the reloaded model gives another lifetime")
        ctx.label(c["type"], tgt, c["change"])
        return c["change"] != "none" or c["twice"]


GEN = st.fixed_dictionaries(dict(CASE, noisy=st.sampled_from([None, None, 1e-3, 0.3]), z=logf(0.5, 20), us=logf(0.2, 3), fseed=st.integers(0, 10**6), rel=st.booleans(), gpu=st.booleans()))


@contextlib.contextmanager
def on_gpu(yes):
    """Tensors pickled in this block say they live on a CUDA device, as if saved on a GPU machine."""
    import torch.serialization as ser

    orig = ser.location_tag
    if yes:
        ser.location_tag = lambda storage: "cuda:0"
    try:
        yield
    finally:
        ser.location_tag = orig


def run_gen(c, ctx):
    """the field generator built from the file uses the saved scales and network"""
    from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

    c = dict(c, type="TAUNET", learn=False, L=min(max(c["L"], 0.2), 2.0), Gamma=min(c["Gamma"], 3.0))
    with default_dtype(c["dt"]):
        pb = build(c, ctx)
        scramble_net(pb.OPS.tauNet, c["seed"], 0.2)
        alter(dict(c), pb, 1)
        v = pb.parameters.copy()
        v[:2] = np.clip(v[:2], np.log(0.2), np.log(3.0))
        pb.parameters = v
        root = ctx.tmpdir()
        with on_gpu(c["gpu"]):
            pb.save_model(root)
        f = pkls(root)[0]
        dims = np.array([4.0, 3.0, 2.0]) * c["z"]
        lev = np.array([3, 2, 2])

        def make(path):
            os.chdir(ctx.tmpdir())
            return FluctuationFieldGenerator(friction_velocity=c["us"], reference_height=c["z"], grid_dimensions=dims.copy(), grid_levels=lev.copy(),
                                             model="DRD", path_to_parameters=Path(path) if c["rel"] else path, seed=c["fseed"], blend_num=2)

        g = make(f)
        L, T, S = np.exp(v[:3])
        cov = g.Covariance
        rt = 1e-9 if c["dt"] == "float64" else 1e-4
        # the random field spectrum depends on the saved network: compare with the model's own lifetime
        fr = [np.array([0.4, 1.1]) / (L * c["z"]), np.array([-0.6, 0.8]) / (L * c["z"]), np.array([0.5, 1.3]) / (L * c["z"])]
        G = np.asarray(cov.precompute_Spectrum(fr), dtype=complex)
        Phi = np.einsum("ij...,kj...->ik...", G, G.conj())
        from vlib import ref
        K = np.stack(np.meshgrid(*fr, indexing="ij"), axis=-1)
        beta = tau_ref("TAUNET", K * c["z"], L, T, net=pb.OPS.tauNet, acts=c["acts"])
        R = np.moveaxis(ref.sheared_tensor(K, beta, 1.0, L * c["z"]), (-2, -1), (0, 1))
        ratio = np.trace(Phi.real).sum() / np.trace(R).sum()
        need(ratio > 0 and bool(np.all(np.abs(Phi - ratio * R) <= (1e-5 if c["dt"] == "float64" else 2e-2) * ratio * np.abs(R).max())),
             lambda: f"the generator's tensor is not the saved model's: max deviation {np.abs(Phi/ratio - R).max()/np.abs(R).max():.3g}")
        a = g.generate(1, 1.0, 2.0, 0.1, "LOG").copy()
        with open(f, "rb") as fh:
            from drdmannturb.common import CPU_Unpickler
            vec = CPU_Unpickler(fh).load()[-1]
        need(np.array_equal(np.asarray(vec), pb.parameters), "building a generator changed the file")
        b = make(f).generate(1, 1.0, 2.0, 0.1, "LOG")
        need(a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-4)), "two generators from one file and seed differ")
        _ = rt
        ctx.label("generator", "gpu-file" if c["gpu"] else "cpu-file")
        return True


SUBS = [Sub("roundtrip", st.fixed_dictionaries(CASE), run, 150, 4000), Sub("roundtrip_net", strat(st.fixed_dictionaries(CASE), type="TAUNET"), run, 80, 2000),
        Sub("generator", GEN, run_gen, 30, 800)]

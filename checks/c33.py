"""C33 objects are independent of each other and of the process's global state."""
import copy
import os
import pickle
import random
import tempfile
import traceback

import numpy as np
import torch
from hypothesis import strategies as st

from vlib.common import *  # noqa: F403
from vlib.fields import in_dir
from vlib.harness import Sub, Violation, quiet
from vlib.plots import setup

ID = "C33"
RULE = "non-trivial: operations of at least two objects alternate"

EPS = dict(float64=1e-9, float32=1e-4)
FFT = 3e-4  # single-precision transforms, plans may differ


class Actor:
    """one object under test; op(j, a) runs operation j with argument seed a and returns arrays"""

    tol = None

    def __init__(self, s, ctx, shared):
        self.s, self.ctx = s, ctx
        self.r0 = rng(s["seed"])
        torch.manual_seed(s["seed"] % 1000)
        with default_dtype(s["dt"]):
            self.build(shared)

    @property
    def inputs(self):
        return self._inputs

    @inputs.setter
    def inputs(self, x):  # remembered as they are before the constructor sees them
        self._inputs, self.before = x, plain(x)

    def run(self, j, a):
        with default_dtype(self.s["dt"]):
            out = self.OPS[j % len(self.OPS)](self, rng(self.s["seed"] * 31 + a))
        return [np.array(x.detach().numpy() if torch.is_tensor(x) else x, copy=True) for x in out]

    def T(self, x):
        return torch.tensor(np.asarray(x), dtype=getattr(torch, self.s["dt"]))


def scales(r):
    return dict(L=float(np.exp(r.uniform(-1, 1))), Gamma=float(np.exp(r.uniform(-1, 1))), sigma=float(np.exp(r.uniform(-1, 1))))


def params(s, r, shared, **prob):
    """parameter dataclasses, shared between the objects of a case when asked for"""
    import drdmannturb as d

    if shared is not None and "params" in shared:
        return shared["params"]
    n = int(r.integers(1, 4))
    out = dict(
        nn=d.NNParameters(nlayers=n, hidden_layer_size=4, hidden_layer_sizes=[int(v) for v in r.integers(1, 6, size=n)], activations=[torch.nn.Tanh(), torch.nn.ReLU(), torch.nn.Tanh()][:n]),
        phys=d.PhysicalParameters(**scales(r), zref=1.3, ustar=0.8, Uref=7.0, domain=torch.logspace(-1, 1, 5)),
        loss=d.LossParameters(alpha_pen1=0.2, alpha_pen2=0.1, beta_reg=0.01),
        ig=d.IntegrationParameters(ops_log_min=-2.0, ops_log_max=1.5, ops_num_points=7, coh_log_min=-2.0, coh_log_max=1.5, coh_num_points=7),
    )
    if shared is not None:
        shared["params"] = out
    return out


def plain(x):
    """value of an input object for comparison"""
    if torch.is_tensor(x):
        return ("t", str(x.dtype), x.requires_grad, x.detach().clone().numpy().tolist())
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.tolist())
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "__dict__") and not isinstance(x, (type, torch.nn.Module)):
        return {k: plain(v) for k, v in vars(x).items()}
    if isinstance(x, torch.nn.Module):
        return (type(x).__name__, x.training, {k: plain(v) for k, v in x.state_dict().items()})
    return repr(x)


class Model(Actor):
    def build(self, shared):
        import drdmannturb as d

        p = self.inputs = params(self.s, self.r0, shared)
        self.m = d.OnePointSpectra(
            type_eddy_lifetime=d.EddyLifetimeType[self.s["type"]], physical_params=p["phys"], nn_parameters=p["nn"], use_coherence=self.s["flag"],
            use_learnable_spectrum=self.s["learn"], integration_params=p["ig"])
        self.L = p["phys"].L

    def spectra(self, r):
        return [self.m(self.T(np.exp(r.uniform(-2, 2, size=self.s["n"])) / self.L))]

    def lifetime(self, r):
        return [self.m.EddyLifetime(self.T(r.normal(size=(self.s["n"], 3))))]

    def coherence(self, r):
        return [self.m.SpectralCoherence(self.T(np.exp(r.uniform(-1, 1, size=2)) / self.L), self.T(r.uniform(0.1, 2, size=2)))]

    def divergence(self, r):
        self.spectra(r)
        return [self.m.get_div(self.m.Phi)]

    def assign(self, r):
        with torch.no_grad():
            for p in self.m.parameters():
                p += self.T(r.normal(size=tuple(p.shape)) * 0.1)
        return [p for p in self.m.parameters()]

    def grad(self, r):
        self.m.zero_grad()
        if self.s["type"] == "MANN":
            return self.spectra(r)
        self.spectra_sum = self.m(self.T(np.exp(r.uniform(-1, 1, size=2)) / self.L))[:3].sum()
        self.spectra_sum.backward()
        return [p.grad for p in self.m.parameters() if p.grad is not None]

    OPS = [spectra, lifetime, coherence, divergence, assign, grad]


class Fit(Actor):
    def build(self, shared):
        import drdmannturb as d

        p = self.inputs = params(self.s, self.r0, shared)
        if self.s["flag"]:
            pp = d.ProblemParameters(eddy_lifetime=d.EddyLifetimeType[self.s["type"]], num_components=self.s["nc"], nepochs=2, wolfe_iter_count=2, use_learnable_spectrum=self.s["learn"])
        else:
            pp = d.ProblemParameters(eddy_lifetime=d.EddyLifetimeType[self.s["type"]], num_components=self.s["nc"], nepochs=1, wolfe_iter_count=3, use_learnable_spectrum=self.s["learn"])
        self.inputs = dict(p, prob=pp)
        self.dir = self.ctx.tmpdir()
        self.p = d.CalibrationProblem(nn_params=p["nn"], prob_params=pp, loss_params=p["loss"], phys_params=p["phys"], integration_params=p["ig"], logging_directory=self.dir, output_directory=self.dir)

    def evaluate(self, r):
        return [self.p.eval(self.T(np.exp(r.uniform(-2, 2, size=self.s["n"]))))]

    def vector(self, r):
        return [self.p.parameters]

    def assign(self, r):
        v = self.p.parameters.copy()
        self.p.parameters = v + 0.1 * r.normal(size=v.shape).astype(v.dtype)
        return [self.p.parameters]

    def fit(self, r):
        k = np.sort(np.exp(r.uniform(-2, 2, size=5)))
        D = np.abs(self.p.eval(self.T(k)))
        E = np.zeros((5, 3, 3))
        for row, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))):
            E[:, i, j] = (D[row] + 1e-3) * np.exp(0.2 * r.normal(size=5))
        data = {"k1": self.T(k), "ops": self.T(E), "coherence": None}
        keep = plain(data)
        res = self.p.calibrate(data)
        self.p.LossAggregator.writer.close()
        need(plain(data) == keep, "calibrate() changed the data")
        return [np.array([float(res[q]) for q in sorted(res)]), self.p.parameters, np.array(self.p.LossAggregator.component_losses["total"])]

    def save(self, r):
        import pickle

        self.p.save_model(self.dir)
        f = [os.path.join(self.dir, q) for q in sorted(os.listdir(self.dir)) if q.endswith(".pkl")]
        with open(f[0], "rb") as h:
            return [np.asarray(pickle.load(h)[-1])]

    def figure(self, r):
        plt = setup()
        try:
            k = np.sort(np.exp(r.uniform(-2, 2, size=4)))
            self.p.plot(OPSData=([(float(v), 1.0) for v in k], self.T(r.uniform(0.1, 1, size=(4, 3, 3)))), plot_tau=False)
            return [np.asarray(li.get_ydata(), float) for ax in self.p.fig_spectra.get_axes() for li in ax.get_lines()]
        finally:
            plt.close("all")

    OPS = [evaluate, vector, assign, fit, save, figure]


class Field(Actor):
    tol = FFT

    def build(self, shared):
        from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

        s, r = self.s, self.r0
        if shared is not None and "box" in shared:
            b = shared["box"]
        else:
            b = dict(grid_dimensions=np.exp(r.uniform(0.7, 2, size=3)), grid_levels=r.integers(1, 4, size=3),
                     config_2d_model=dict(sigma2=float(r.uniform(0.5, 2)), L_2d=float(np.exp(r.uniform(2, 5))), psi=float(r.uniform(0.3, 1.2)), z_i=float(np.exp(r.uniform(0, 5))), L1_factor=4, L2_factor=3, exp1=3, exp2=3) if s["low"] else None)
            if shared is not None:
                shared["box"] = b
        self.inputs = b
        kw = {k: v for k, v in b.items() if v is not None}
        u = rng(s["seed"] + 5)  # objects in one box have kernels of their own
        self.g = FluctuationFieldGenerator(friction_velocity=float(u.uniform(0.5, 2)), reference_height=1.7, model="Mann" if s["flag"] else "VK", length_scale=0.9, time_scale=1.3, energy_spectrum_scale=float(u.uniform(0.5, 2)),
                                           seed=s["seed"] % 2**31, blend_num=s["n"] % 4, **kw)

    def generate(self, r):
        p = dict(zref=2.0 + r.uniform(), uref=3.0, z0=0.1, windprofiletype="LOG" if r.uniform() < 0.5 else "PL", plexp=0.2)
        return [self.g.generate(int(r.integers(1, 3)), **p)]

    def divergence(self, r):
        f = r.normal(size=(3, 4, 5, 3))
        return [self.g.evaluate_divergence((1.0, 2.0, 0.5), f)]

    def stored(self, r):
        return [self.g.total_fluctuation]

    OPS = [generate, stored, generate, divergence]


class Low(Actor):
    tol = 1e-7

    def build(self, shared):
        from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator

        if shared is not None and "low" in shared:
            c = shared["low"]
        else:
            r = self.r0
            c = dict(sigma2=float(r.uniform(0.5, 2)), L_2d=float(np.exp(r.uniform(5, 9))), psi=float(r.uniform(0.3, 1.2)), z_i=float(np.exp(r.uniform(4, 6))), L1_factor=4, L2_factor=2, exp1=4, exp2=3)
            if shared is not None:
                shared["low"] = c
        self.inputs = c
        self.g = LowFreqGenerator(c, seed=self.s["seed"] % 2**31)
        self.made = False

    def generate(self, r):
        self.made = True
        return list(self.g.generate())

    def spectrum(self, r):
        if not self.made:
            return []
        return list(self.g.compute_spectrum())

    def interpolate(self, r):
        if not self.made:
            return []
        return list(self.g.interp_slice(np.sort(r.uniform(0, 3, size=4)) * self.inputs["L_2d"], np.sort(r.uniform(0, 1.5, size=3)) * self.inputs["L_2d"]))

    def analytic(self, r):
        return list(self.g.analytical_spectrum(np.exp(r.uniform(-3, 1, size=2)) / self.inputs["L_2d"]))

    OPS = [generate, spectrum, interpolate, generate, analytic]


class Sampler(Actor):
    tol = FFT

    def build(self, shared):
        from drdmannturb.fluctuation_generation import VectorGaussianRandomField

        r = self.r0
        if shared is not None and "cov" in shared:
            b = shared["cov"]
        else:
            b = dict(cov=self.own(), dims=np.exp(r.uniform(0, 2, size=3)), lev=r.integers(1, 4, size=3), shape=r.integers(2, 9, size=3))
            if shared is not None:
                shared["cov"] = b
        self.inputs = b if self.s["learn"] else dict(b, cov=self.own())
        b = self.inputs
        self.shape = tuple(int(v) for v in b["shape"])
        self.f = VectorGaussianRandomField(ndim=3, grid_level=b["lev"], grid_dimensions=b["dims"], sampling_method="vf_fftw", grid_shape=b["shape"], Covariance=b["cov"])
        self.f.reseed(self.s["seed"] % 2**31)

    def own(self):
        from drdmannturb.fluctuation_generation import MannCovariance, VonKarmanCovariance

        u = rng(self.s["seed"] + 5)
        E = np.exp(u.uniform(-0.5, 0.5))
        L, G = u.choice([0.8, 1.2], size=2)  # often one alone differs
        return MannCovariance(3, float(L), float(E), float(G)) if self.s["flag"] else VonKarmanCovariance(3, float(L), float(E))

    def noise(self, r):
        return [self.f.sample_noise(list(self.shape) + [3])]

    def sample(self, r):
        return [self.f.sample(r.normal(size=self.shape + (3,)))]

    def kernel(self, r):
        f = [r.normal(size=3), r.normal(size=2), r.normal(size=2)]
        g = [q.copy() for q in f]
        out = np.abs(self.inputs["cov"].precompute_Spectrum(f))
        need(all(np.array_equal(p, q) for p, q in zip(f, g)), "precompute_Spectrum() changed the frequencies it was given")
        return [out]

    OPS = [noise, sample, kernel]


class Losses(Actor):
    def build(self, shared):
        import drdmannturb as d
        from drdmannturb.spectra_fitting.loss_functions import LossAggregator

        r = self.r0
        if shared is not None and "losses" in shared:
            b = shared["losses"]
        else:
            b = dict(par=d.LossParameters(alpha_pen1=0.3, alpha_pen2=0.2, beta_reg=0.05, gamma_coherence=1.5), k1=torch.tensor(np.sort(np.exp(r.uniform(-2, 2, size=6)))))
            if shared is not None:
                shared["losses"] = b
        self.inputs = b
        self.a = LossAggregator(params=b["par"], k1space=b["k1"], zref=1.5, tb_log_dir=self.ctx.tmpdir())
        self.e = 0

    def evaluate(self, r):
        t = torch.tensor
        coh = {f"{w}_{x}": t(r.uniform(size=(2, 3))) for x in "uvw" for w in ("model", "data")} if r.uniform() < 0.6 else None
        v = self.a.eval(t(np.exp(r.normal(size=(3, 6)))), t(np.exp(r.normal(size=(3, 6)))), t(r.normal(size=4)), self.e, coherence_data=coh)
        self.e += 1
        return [v, np.array([self.a.running_averages[k] for k in sorted(self.a.running_averages)])]

    def history(self, r):
        return [np.array(self.a.component_losses[k]) for k in sorted(self.a.component_losses)]

    def advice(self, r):
        g = self.a.get_loss_diagnostics(2)
        return [np.array([g[k] for k in sorted(g) if isinstance(g[k], float)])]

    OPS = [evaluate, evaluate, history, advice]


class Drd(Field):
    def build(self, shared):
        import drdmannturb as d
        from drdmannturb.fluctuation_generation import FluctuationFieldGenerator

        s, r = self.s, self.r0
        if shared is not None and "drd" in shared:
            b = shared["drd"]
        else:
            p = params(s, r, None)
            self.ctx.count = getattr(self.ctx, "count", 0) + 1
            dr = os.path.join(self.ctx.tmpdir(), f"m{self.ctx.count}")
            os.mkdir(dr)
            pb = d.CalibrationProblem(nn_params=p["nn"], prob_params=d.ProblemParameters(eddy_lifetime=d.EddyLifetimeType.TAUNET, num_components=4), loss_params=p["loss"], phys_params=p["phys"], integration_params=p["ig"], logging_directory=dr, output_directory=dr)
            pb.parameters = pb.parameters + 0.3 * r.normal(size=pb.parameters.shape)
            pb.save_model(dr)
            b = dict(path_to_parameters=os.path.join(dr, [q for q in os.listdir(dr) if q.endswith(".pkl")][0]), grid_dimensions=np.exp(r.uniform(0.7, 2, size=3)), grid_levels=r.integers(1, 4, size=3))
            if shared is not None:
                shared["drd"] = b
        self.inputs = b
        self.g = FluctuationFieldGenerator(friction_velocity=1.1, reference_height=1.7, model="DRD", seed=s["seed"] % 2**31, blend_num=s["n"] % 4, **b)


class Data(Actor):
    def build(self, shared):
        from drdmannturb.spectra_fitting import CustomDataLoader

        r = self.r0
        if shared is not None and "data" in shared:
            b = shared["data"]
        else:
            self.ctx.count = getattr(self.ctx, "count", 0) + 1
            b = dict(file=os.path.join(self.ctx.tmpdir(), f"d{self.ctx.count}.csv"), k1=self.T(np.exp(r.uniform(-2, 2, size=self.s["n"]))))
            with open(b["file"], "w") as f:
                f.write("freq,uu,vv,ww,uw,vw,uv\n" + "".join(",".join(repr(float(v)) for v in row) + "\n" for row in np.exp(r.normal(size=(self.s["n"], 7)))))
            if shared is not None:
                shared["data"] = b
        self.inputs = b
        self.d = CustomDataLoader(b["file"], ops_components_ct=self.s["nc"])

    def kaimal(self, r):
        from drdmannturb.spectra_fitting import generate_kaimal_spectra

        d = generate_kaimal_spectra(self.inputs["k1"], float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2)))
        return [d["k1"], d["ops"]]

    def vonkarman(self, r):
        from drdmannturb.spectra_fitting import generate_von_karman_spectra

        d = generate_von_karman_spectra(self.inputs["k1"], float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2)))
        return [d["k1"], d["ops"]]

    def load(self, r):
        d = self.d.format_data()
        return [d["k1"], d["ops"]]

    OPS = [kaimal, vonkarman, load]


KINDS = dict(drd=Drd, data=Data, model=Model, fit=Fit, field=Field, low=Low, sampler=Sampler, losses=Losses)
SPEC = dict(kind=st.sampled_from(sorted(KINDS)), type=st.sampled_from(LIFETIMES), seed=st.integers(1, 10**6), dt=st.sampled_from(["float64", "float64", "float32"]), flag=st.booleans(), learn=st.booleans(), low=st.booleans(),
            nc=st.sampled_from([3, 4, 6]), n=st.integers(1, 5))
CASE = dict(actors=st.lists(st.fixed_dictionaries(SPEC), min_size=2, max_size=3), ops=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 5), st.integers(0, 3)), min_size=2, max_size=9),
            share=st.booleans(), twin=st.sampled_from(["no", "same", "seed"]), glob=st.integers(0, 10**6))


def snapshot():
    import matplotlib

    g = {
        "torch's default dtype": torch.get_default_dtype(), "torch's gradient mode": torch.is_grad_enabled(), "numpy's error handling": np.geterr(), "numpy's print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "the working directory": os.getcwd(), "python's random state": random.getstate(), "numpy's global random state": repr(np.random.get_state()), "torch's random state": torch.get_rng_state().numpy().tobytes(),
        "torch's print options": repr(vars(torch._tensor_str.PRINT_OPTS)),
        "torch's determinism settings": (torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled()), "matplotlib's settings": repr(dict(matplotlib.rcParams)), "torch's thread count": torch.get_num_threads(),
    }
    return g


def same_state(a, b, what):
    for k in a:
        need(a[k] == b[k], lambda: f"{what} changed {k}")


# ---------------------------------------------------------------- a process in which nothing of the package has run
class Zygote:
    """child process that runs nothing itself; every request is served by a fork of it"""

    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.owner = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                warm()
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    @staticmethod
    def get(fd):
        def exactly(n):
            b = b""
            while len(b) < n:
                x = os.read(fd, min(n - len(b), 1 << 20))
                if not x:
                    raise EOFError
                b += x
            return b

        return pickle.loads(exactly(int.from_bytes(exactly(8), "little")))

    @staticmethod
    def put(fd, x):
        b = pickle.dumps(x)
        b = memoryview(len(b).to_bytes(8, "little") + b)
        while len(b):
            b = b[os.write(fd, b):]

    def serve(self, r, w):
        while True:
            try:
                req = self.get(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.put(w, alone(*req))
                    os._exit(0)
                except Violation as e:
                    self.put(w, ("violation", str(e)))
                except BaseException:  # noqa: BLE001
                    self.put(w, ("error", traceback.format_exc()))
                os._exit(0)
            if os.waitpid(pid, 0)[1] != 0:
                self.put(w, ("error", "the process ended without a result"))

    def ask(self, *req):
        self.put(self.w, req)
        out = self.get(self.r)
        if isinstance(out, tuple):
            if out[0] == "violation":
                raise Violation(out[1])
            raise RuntimeError("in a process of its own: " + out[1])
        return out


def warm():
    """third-party code that is loaded on first use (nothing of the package runs)"""
    import matplotlib.pyplot as plt
    import torch.utils.tensorboard  # noqa: F401

    import drdmannturb.fluctuation_generation  # noqa: F401
    import drdmannturb.spectra_fitting  # noqa: F401

    p = torch.nn.Parameter(torch.ones(2))
    for o in (torch.optim.LBFGS([p]), torch.optim.Adam([p])):
        p.grad = torch.zeros(2)
        o.step(lambda: torch.tensor(0.0))
    torch.optim.lr_scheduler.CosineAnnealingLR(o, 3).step()
    plt.close(plt.figure())


class Scratch:
    def __init__(self, d):
        self.d = d

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.d)


def alone(s, shared, ops, d, glob):
    with quiet(), in_dir(d), default_dtype("float64"):
        np.random.seed(glob % 2**31)
        a = construct(s, Scratch(d), shared)
        return [a.run(j, q) for j, q in ops]


ZYGOTE = []


def zygote():
    if not ZYGOTE or ZYGOTE[0].owner != os.getpid():
        ZYGOTE[:] = [Zygote()]
    return ZYGOTE[0]


def construct(s, ctx, shared):
    return KINDS[s["kind"]](s, ctx, shared)


def tolerance(s, a, ops, n):
    """None: a fit in single precision amplifies roundings, which depend on where the data lie in memory"""
    fitted = s["kind"] == "fit" and any(a.OPS[j % len(a.OPS)] is Fit.fit for j in ops[: n + 1])
    if fitted:
        return 1e-6 if s["dt"] == "float64" else None
    return a.tol or EPS[s["dt"]]


def agree(x, e, tol, name, where):
    need(len(x) == len(e) and all(u.shape == v.shape for u, v in zip(x, e)), lambda: f"{name}: shapes {[u.shape for u in x]} among other objects, {[v.shape for v in e]} {where}")
    for u, v in zip(x, e) if tol is not None else ():
        sc = np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 1.0
        ok = np.array_equal(np.isfinite(u), np.isfinite(v)) and bool(np.all(np.abs(u - v)[np.isfinite(v)] <= tol * sc + 1e-300))
        need(ok, lambda: f"{name} gives another result among other objects than {where}: deviation {np.nanmax(np.abs(u - v)):.3g} of {sc:.3g}")


def run(c, ctx):
    setup()
    zyg = zygote()
    specs = [dict(s) for s in c["actors"]]
    if c["twin"] != "no":  # two objects of one kind, configured alike
        specs[1] = dict(specs[0], seed=specs[0]["seed"] + (1 if c["twin"] == "seed" else 0))
    for s in specs:
        if s["kind"] in ("losses", "low", "field", "sampler", "drd"):
            s["dt"] = "float64"
        if s["kind"] == "fit" and s["type"] == "MANN":
            s["type"] = "MANN_APPROX"
    ops = [(i % len(specs), j, a) for i, j, a in c["ops"]]
    with in_dir(ctx.tmpdir()):
        np.random.seed(c["glob"])
        random.seed(c["glob"])
        with default_dtype("float64"):
            # all objects together
            shared = {} if c["share"] else None
            acts = []
            for s in specs:
                g = snapshot()
                acts.append(construct(s, ctx, shared))
                h = snapshot()
                h["torch's random state"] = g["torch's random state"]  # network weights are drawn from it
                same_state(g, h, f"constructing {s['kind']}")
                for q in acts:
                    need(plain(q.inputs) == q.before, lambda: f"constructing {s['kind']} changed the inputs of {'the' if q is acts[-1] else 'another'} object")
            got = [[] for _ in specs]
            handed = []
            for i, j, a in ops:
                g = snapshot()
                got[i].append(acts[i].run(j, a))
                name = f"{specs[i]['kind']}.{acts[i].OPS[j % len(acts[i].OPS)].__name__}"
                same_state(g, snapshot(), name)
                handed.append((i, j, name))
                for q in acts:
                    need(plain(q.inputs) == q.before, lambda: f"{name} changed the inputs of {'its' if q is acts[i] else 'another'} object")
            for a in acts:
                if isinstance(a, Losses):
                    a.a.writer.close()
            # each on its own, in another order and under other global random states
            for i in reversed(range(len(specs))):
                np.random.seed((c["glob"] + 17 + i) % 2**31)
                # the process has another history: a decoy of the same kind and another configuration is made and used before
                w = np.random.RandomState(c["glob"] % 2**31 + i)
                other = dict(specs[i], seed=specs[i]["seed"] + 1 + int(w.randint(1000)), flag=bool(w.randint(2)), learn=bool(w.randint(2)), n=int(w.randint(1, 6)), nc=int(w.choice([3, 4, 6])), type=LIFETIMES[w.randint(len(LIFETIMES))])
                if other["kind"] == "fit" and other["type"] == "MANN":
                    other["type"] = "TAUNET"
                decoy = construct(other, ctx, None)
                own = construct(copy.deepcopy(specs[i]), ctx, None if shared is None else remake(shared, specs, i, ctx))
                n = 0
                for i2, j, a in ops:
                    if i2 != i:
                        continue
                    if w.randint(2):
                        decoy.run(j, a + 7)
                    np.random.seed((c["glob"] + n) % 2**31)
                    torch.manual_seed((c["glob"] + n) % 2**31)
                    e = own.run(j, a)
                    name = f"{specs[i]['kind']}.{own.OPS[j % len(own.OPS)].__name__}"
                    agree(got[i][n], e, tolerance(specs[i], own, [q for p, q, _ in ops if p == i], n), f"{name} (operation {n} of object {i})", "alone")
                    n += 1
                for q in (own, decoy):
                    if isinstance(q, Losses):
                        q.a.writer.close()
            # one of them in a process of its own (those without compiled parallel code: it does not survive a fork)
            free = [i for i, s in enumerate(specs) if s["kind"] != "low"]
            free = [i for i in free if got[i] and not (isinstance(acts[i], Field) and acts[i].inputs.get("config_2d_model"))]
            if free:
                i = free[-1] if c["glob"] % 4 else free[0]
                res = zyg.ask(dict(specs[i]), None if shared is None else remake(shared, specs, i, ctx), [(j, a) for i2, j, a in ops if i2 == i], ctx.tmpdir(), c["glob"] + 5)
                for n, e in enumerate(res):
                    agree(got[i][n], e, tolerance(specs[i], acts[i], [q for p, q, _ in ops if p == i], n), f"operation {n} of object {i} ({specs[i]['kind']})", "in a process of its own")
                ctx.label("own process")
    order = [i for i, _, _ in ops]
    ctx.label(*sorted({s["kind"] for s in specs}))
    ctx.label("shared" if c["share"] else "separate", c["twin"])
    return len(set(order)) > 1 and sum(a != b for a, b in zip(order, order[1:])) >= 2


def remake(shared, specs, i, ctx):
    """fresh copies of the shared inputs (as they were made by the first object that used them)"""
    return {k: copy.deepcopy(v) for k, v in shared.items()}


D = st.fixed_dictionaries(CASE)


def of(kinds, **over):
    spec = dict(SPEC, kind=st.sampled_from(kinds))
    return strat(D, actors=st.lists(st.fixed_dictionaries(spec), min_size=2, max_size=3), **over)


SUBS = [Sub("models_files", of(["drd", "fit", "data", "model"]), run, 40, 1200), Sub("any", D, run, 40, 1500), Sub("fields", of(["field", "low", "sampler"]), run, 40, 1500), Sub("one_grid", of(["sampler"], share=st.just(True), twin=st.sampled_from(["no", "seed"])), run, 60, 1500), Sub("fields_twin", of(["field", "low", "sampler"], twin=st.sampled_from(["same", "seed"])), run, 40, 1500),
        Sub("models", of(["model", "fit", "losses"]), run, 50, 1500), Sub("models_twin", of(["model", "fit"], twin=st.sampled_from(["same", "seed"])), run, 50, 1500), Sub("fits", of(["fit"]), run, 40, 1200),
        Sub("mixed", of(["fit", "field", "model"]), run, 40, 1200)]

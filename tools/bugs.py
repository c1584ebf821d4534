"""Planted bugs: edits (file under drdmannturb/, old, new[, count]), demo and description."""
PRE = '''
import os, sys, warnings, contextlib, io
warnings.filterwarnings("ignore")
import numpy as np, torch

def die(msg):
    print("DEMO:", msg)
    sys.exit(1)

def close(a, b, tol, what):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape:
        die(f"{what}: shape {a.shape} instead of {b.shape}")
    d = np.max(np.abs(a - b) / (np.abs(b) + 1e-300))
    if not d <= tol:
        die(f"{what}: relative error {d:.3g}")

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
'''
OPSM = PRE + '''
from drdmannturb.enums import EddyLifetimeType as E
from drdmannturb.parameters import *
from drdmannturb.spectra_fitting.one_point_spectra import OnePointSpectra
def model(t="TWOTHIRD", L=0.59, G=3.9, s=3.2, **kw):
    return OnePointSpectra(getattr(E, t), PhysicalParameters(L=L, Gamma=G, sigma=s), NNParameters(), **kw)
'''
CALM = PRE + '''
from drdmannturb.enums import EddyLifetimeType as E
from drdmannturb.parameters import *
from drdmannturb.spectra_fitting.calibration import CalibrationProblem
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
def problem(t="TWOTHIRD", n=4, epochs=1, wolfe=4, loss=None, phys=None, **kw):
    return CalibrationProblem(NNParameters(nlayers=2, hidden_layer_size=4),
        ProblemParameters(eddy_lifetime=getattr(E, t), num_components=n, nepochs=epochs, wolfe_iter_count=wolfe, learning_rate=1.0, **kw),
        loss or LossParameters(), phys or PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2, domain=torch.logspace(-1, 2, 8)),
        IntegrationParameters(ops_num_points=20), logging_directory=os.environ["DEMO_SCRATCH"] + "/log", output_directory=os.environ["DEMO_SCRATCH"])
'''
GENM = PRE + '''
from drdmannturb.fluctuation_generation.fluctuation_field_generator import FluctuationFieldGenerator
def gen(model="Mann", dims=(60., 20., 24.), lev=(3, 2, 2), L=4.0, T=1.0, E0=2.0, **kw):
    return FluctuationFieldGenerator(friction_velocity=kw.pop("ustar", 1.0), reference_height=kw.pop("zref", 10.0), grid_dimensions=np.array(dims), grid_levels=np.array(lev),
        model=model, length_scale=L, time_scale=T, energy_spectrum_scale=E0, **kw)
'''
LOWM = PRE + '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
def low(sigma2=0.6, L_2d=2000., psi=0.5, z_i=300., f1=6, f2=5, e1=6, e2=6, seed=3):
    return LowFreqGenerator(dict(sigma2=sigma2, L_2d=L_2d, psi=psi, z_i=z_i, L1_factor=f1, L2_factor=f2, exp1=e1, exp2=e2), seed=seed)
'''
OPS = "spectra_fitting/one_point_spectra.py"
CAL = "spectra_fitting/calibration.py"
LOSS = "spectra_fitting/loss_functions.py"
FG = "fluctuation_generation/"
FFG = FG + "fluctuation_field_generator.py"
LF = FG + "low_frequency/fluctuation_field_generator.py"

BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("c01-mann-clip", "C01",
    [("common.py", "    x = kL.cpu().detach().numpy() if torch.is_tensor(kL) else kL\n",
      "    # keep the hypergeometric argument in range\n    x = np.clip(kL.cpu().detach().numpy() if torch.is_tensor(kL) else kL, 1e-8, 1.0e4)\n")],
    OPSM + '''
m = model("MANN")
k = torch.tensor([[0., 0., 1e5], [0., 3e4, 0.]], dtype=torch.float64)
with torch.no_grad(): t = m.EddyLifetime(k).numpy()
close(t[0] / t[1], (1e5 / 3e4) ** (-2 / 3), 1e-3, "Mann lifetime at large kL")
''', "kL above 1e4", "the Mann eddy lifetime stops decaying at large wave number")

bug("c01-approx-range", "C01",
    [(OPS, "        kL_temp = np.logspace(-3, 3, 50)\n\n        kL_temp = kL_temp.reshape(-1, 1)" , "        kL_temp = np.logspace(-3, 3, 50) * self.LengthScale_scalar\n\n        kL_temp = kL_temp.reshape(-1, 1)")],
    OPSM + '''
from drdmannturb.common import MannEddyLifetime
x = np.logspace(-3, 3, 50); c = np.polyfit(np.log(x), np.log(MannEddyLifetime(x)), 1)
m = model("MANN_APPROX", L=30.0, G=2.0)
k = torch.tensor([[0.01, 0.0, 0.0], [0.1, 0.2, 0.4]])
with quiet(), torch.no_grad(): t = m.EddyLifetime(k).numpy()
close(t, 2.0 * np.exp(np.polyval(c, np.log(30 * k.norm(dim=-1).numpy()))), 1e-3, "linear Mann lifetime")
''', "MANN_APPROX with a length scale away from 1", "the linear approximation is fitted over a range that depends on L")

bug("c02-activation-index", "C02",
    [("nn_modules.py", "            out = self.activations[idx](layer(out))", "            out = self.activations[min(idx, 1)](layer(out))")],
    PRE + '''
from drdmannturb.nn_modules import TauNet
torch.manual_seed(0)
net = TauNet(3, [4, 5, 6], [torch.nn.ReLU(), torch.nn.ReLU(), torch.nn.Tanh()])
k = torch.randn(7, 3)
with torch.no_grad():
    x = k.abs(); h = torch.relu(net.linears[0](x)); h = torch.relu(net.linears[1](h)); h = torch.tanh(net.linears[2](h))
    v = (x + net.linears[3](h)).norm(dim=-1); nu = float(net.Ra.nu)
    ref = v ** (nu - 2 / 3) / (1 + v ** 2) ** (nu / 2)
    close(net(k), ref, 1e-4, "TauNet")
''', "three or more layers with differing activations", "the third activation function is replaced by the second")

bug("c02-input-mutation", "C02",
    [("nn_modules.py", "        k_mod = self._mlp_forward(k.abs()).norm(dim=-1)", "        k_mod = self._mlp_forward(k.abs_() if not k.requires_grad else k.abs()).norm(dim=-1)")],
    PRE + '''
from drdmannturb.nn_modules import TauNet
net = TauNet(1, 3); k = torch.randn(5, 3) - 1.0; k0 = k.clone()
with torch.no_grad(): net(k)
close(k, k0, 0, "input after the call")
''', "wave vectors with a negative component", "evaluating the network folds the caller's wave vectors in place")

bug("c03-q-ignored", "C03",
    [("common.py", "    return (kL ** p) / ((1.0 + kL**2) ** q)", "    return (kL ** p) / ((1.0 + kL**2) ** (p / 2.0 + 5.0 / 6.0) * (1.0 + 0.0 * q))")],
    PRE + '''
from drdmannturb.common import Learnable_EnergySpectrum as f
k = torch.logspace(-2, 2, 9)
close(f(k, torch.tensor(3.0), torch.tensor(2.1)), k ** 3 / (1 + k ** 2) ** 2.1, 1e-4, "learnable spectrum")
''', "exponents other than those with the -5/3 tail", "q no longer sets the high wave number slope")

bug("c04-atan-branch", "C04",
    [(OPS, "        C2 = k2 * kk0 / torch.sqrt(s**3) * torch.atan2(beta * k1 * torch.sqrt(s), kk0 - k30 * k1 * beta)",
      "        C2 = k2 * kk0 / torch.sqrt(s**3) * torch.atan(beta * k1 * torch.sqrt(s) / (kk0 - k30 * k1 * beta))")],
    OPSM + '''
m = model("CONST", G=6.0)
k1 = torch.tensor([0.05, 0.3, 2.0])
c = model("CONST", G=6.0, use_coherence=True)
with torch.no_grad():
    m(k1); P = m.Phi; k = m.k
    Q = c._PowerSpectra_coherence(k, m.beta, m.E0)
    d = (P[1] - Q[1]).abs().max() / Q[1].abs().max()
if not d < 1e-3: die(f"Phi22 deviates {d:.3g}")
''', "distortion large enough that the arctangent denominator turns negative", "spectra at large beta use the wrong branch of the arctangent")

bug("c04-k3-grid", "C04",
    [(OPS, "        p1, p2, N = integration_params.ops_log_min, integration_params.ops_log_max, integration_params.ops_num_points\n        grid_zero = torch.tensor([0])\n        grid_plus = torch.logspace(p1, p2, N)\n        grid_minus = -torch.flip(grid_plus, dims=[0])\n        self.ops_grid_k3",
      "        p1, p2, N = integration_params.ops_log_min, integration_params.coh_log_max, integration_params.ops_num_points\n        grid_zero = torch.tensor([0])\n        grid_plus = torch.logspace(p1, p2, N)\n        grid_minus = -torch.flip(grid_plus, dims=[0])\n        self.ops_grid_k3")],
    OPSM + '''
k1 = torch.tensor([0.1, 1.0])
with torch.no_grad():
    a = model(integration_params=IntegrationParameters(coh_log_max=0.0))(k1)
    b = model(integration_params=IntegrationParameters())(k1)
close(a[:3], b[:3], 1e-6, "spectra with other coherence settings")
''', "integration parameters whose coherence range differs from the one-point range", "the k3 quadrature is cut at the coherence limit")

bug("c05-quadrature-default", "C05",
    [("parameters.py", "    ops_log_min: float = -3.0", "    ops_log_min: float = -1.0")],
    OPSM + '''
k1 = torch.logspace(-2, 1, 7)
with torch.no_grad():
    a = model(L=2.0)(k1)
    b = model(L=2.0, integration_params=IntegrationParameters(ops_log_min=-4., ops_log_max=4., ops_num_points=300))(k1)
close(a[:3], b[:3], 0.03, "default quadrature")
''', "low wave numbers or large length scales", "the default quadrature no longer resolves the energy-containing range")

bug("c06-mann-cache", "C06",
    [(OPS, "            tau = MannEddyLifetime(kL)\n",
      "            if getattr(self, \"_tau_mann\", None) is None or self._tau_mann.shape != kL.shape:\n                self._tau_mann = MannEddyLifetime(kL)\n            tau = self._tau_mann\n")],
    OPSM + '''
m = model("MANN", integration_params=IntegrationParameters(ops_num_points=20)); f = model("MANN", integration_params=IntegrationParameters(ops_num_points=20))
a, b = torch.tensor([0.1, 1.0]), torch.tensor([3.0, 20.0])
with torch.no_grad():
    m(a); close(m(b)[:3], f(b)[:3], 1e-5, "second evaluation")
''', "a second evaluation with as many wave numbers as the first", "the Mann lifetime of an earlier evaluation is reused for other wave numbers")

bug("c06-coherence-leak", "C06",
    [(OPS, "        coh_k = torch.stack(torch.meshgrid(k1_input, self.coh_grid_k2, self.coh_grid_k3, indexing=\"ij\"), dim=-1)\n", "        self.ops_grid_k2, self.ops_grid_k3 = self.coh_grid_k2, self.coh_grid_k3\n        coh_k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing=\"ij\"), dim=-1)\n")],
    OPSM + '''
m = model(L=5.0); k1 = torch.tensor([0.1, 1.0])
with torch.no_grad(), quiet():
    a = m(k1); m.SpectralCoherence(k1, torch.tensor([0.5])); b = m(k1)
close(b[:3], a[:3], 0, "spectra after a coherence evaluation")
''', "a coherence evaluation before a spectra evaluation", "one-point spectra are integrated on the coherence grid afterwards")

bug("c07-unsorted-separations", "C07",
    [(OPS, "        for i, r in enumerate(spatial_separations):", "        for i, r in enumerate(torch.sort(spatial_separations).values):")],
    OPSM + '''
m = model(); k1 = torch.tensor([0.1, 1.0])
with torch.no_grad(), quiet():
    a = m.SpectralCoherence(k1, torch.tensor([2.0, 0.0, 0.5]))
close(a[:, 1], np.ones((3, 2)), 1e-4, "coherence at separation 0")
''', "separations not in ascending order", "coherence rows do not belong to the separations they were asked for")

bug("c07-floor", "C07",
    [(OPS, "        epsilon = 1e-32", "        epsilon = 1e-12")],
    OPSM + '''
k1 = torch.tensor([0.1, 1.0]); r = torch.tensor([0.5, 2.0])
with torch.no_grad(), quiet():
    a = model(s=3.2).SpectralCoherence(k1, r); b = model(s=3.2e-4).SpectralCoherence(k1, r)
close(a, b, 1e-3, "coherence under a change of amplitude")
''', "small amplitudes", "coherence depends on the overall amplitude through an absolute floor")

bug("c08-kaimal-ww", "C08",
    [("spectra_fitting/data_generator.py", "    ops_values[:, 2, 2] = 1.05 * n / (1 + 5.3 * n ** (5 / 3))", "    ops_values[:, 2, 2] = 1.05 * n / (1 + 5.3 * n) ** (5 / 3)")],
    PRE + '''
from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
k = torch.logspace(-2, 2, 9, dtype=torch.float64); n = (k / (2 * np.pi) * 2.0)
close(generate_kaimal_spectra(k, 2.0, 1.5)["ops"][:, 2, 2], 2.25 * 1.05 * n / (1 + 5.3 * n ** (5 / 3)), 1e-6, "Kaimal ww")
''', "Kaimal data", "vertical Kaimal spectrum has the wrong shape")

bug("c08-vk-int", "C08",
    [("spectra_fitting/data_generator.py", "    ops_values = ops_values * k1.unsqueeze(-1).unsqueeze(-1)", "    ops_values = ops_values * k1.abs().clamp(max=1.0e2).unsqueeze(-1).unsqueeze(-1)")],
    PRE + '''
from drdmannturb.spectra_fitting.data_generator import generate_von_karman_spectra
k = torch.tensor([50.0, 400.0]); L, C = 0.7, 2.0
close(generate_von_karman_spectra(k, L, C)["ops"][:, 0, 0], 9 / 55 * C * k / (L ** -2 + k ** 2) ** (5 / 6), 1e-4, "von Karman uu")
''', "wave numbers above 100", "the von Karman spectra stop being premultiplied by k1 at high wave numbers")

bug("c09-h2-uniform", "C09",
    [(LOSS, "        self.h2 = torch.diff(0.5 * (self.logk1[:-1] + self.logk1[1:]))", "        self.h2 = self.h1[1:]")],
    PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
k = torch.tensor([0.1, 0.2, 0.9, 1.0, 30.0], dtype=torch.float64)
ag = LossAggregator(LossParameters(alpha_pen2=2.0), k, 3.0, os.environ["DEMO_SCRATCH"])
y = torch.rand(3, 5, dtype=torch.float64) + 0.1
x = torch.log(k); ly = torch.log(y); g = torch.diff(ly) / torch.diff(x); h = torch.diff((x[1:] + x[:-1]) / 2)
ref = 2.0 * torch.relu(torch.diff(g) / h).square().mean() / 9
close(ag.Pen2ndOrder(y, 0), ref, 1e-9, "second-order penalty")
''', "wave numbers not spaced evenly in log", "curvature penalty uses the wrong step on uneven grids")

bug("c09-pen1-component", "C09",
    [(LOSS, "        d1logy = torch.diff(logy, dim=-1) / self.h1", "        d1logy = torch.diff(logy[:3], dim=-1) / self.h1")],
    PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
torch.manual_seed(1)
k = torch.logspace(-1, 1, 6); ag = LossAggregator(LossParameters(alpha_pen1=2.0), k, 1.0, os.environ["DEMO_SCRATCH"])
y = torch.rand(4, 6) + 0.1
ref = 2.0 * torch.relu(torch.diff(torch.log(y)) / torch.diff(torch.log(k))).square().mean()
close(ag.Pen1stOrder(y, 0), ref, 1e-5, "first-order penalty")
''', "fits with the cross-spectrum (four or six components)", "the slope penalty ignores the cross-spectra")

bug("c10-window-boundary", "C10",
    [(LOSS, '        if len(self.component_losses["total"]) < window:', '        if len(self.component_losses["total"]) <= window:')],
    PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
k = torch.logspace(-1, 1, 4); ag = LossAggregator(LossParameters(), k, 1.0, os.environ["DEMO_SCRATCH"])
for i in range(4): ag.eval(torch.ones(3, 4) * (2 + i), torch.ones(3, 4), None, i)
if not ag.get_loss_diagnostics(4): die("no diagnostics although the window is full")
''', "exactly as many recorded losses as the window", "diagnostics are withheld one evaluation too long")

bug("c10-average-restart", "C10",
    [(LOSS, '        if len(self.component_losses["mse"]) == 1:', '        if len(self.component_losses["mse"]) == 1 or self.running_averages["mse"] == 0.0:')],
    PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
k = torch.logspace(-1, 1, 4); ag = LossAggregator(LossParameters(), k, 1.0, os.environ["DEMO_SCRATCH"])
ag.eval(torch.ones(3, 4), torch.ones(3, 4), None, 0)
v = ag.eval(torch.ones(3, 4) * 2, torch.ones(3, 4), None, 1).item()
close(ag.running_averages["mse"], 0.1 * v, 1e-6, "running average")
''', "a first loss of exactly zero", "the running average restarts instead of being averaged")

bug("c11-length-check", "C11",
    [(CAL, "        if len(param_vec) != current_num_params:", "        if len(param_vec) < current_num_params:")],
    CALM + '''
p = problem("TAUNET"); v = p.parameters
try:
    p.parameters = np.concatenate([v, [0.5]])
except ValueError:
    sys.exit(0)
die("a parameter vector that is too long was accepted")
''', "a parameter vector longer than the model", "too long vectors are silently truncated")

bug("c11-noise-init", "C11",
    [(CAL, "        self.log_dimensional_scales()\n\n        self.output_directory", "        if not self.init_with_noise:\n            self.log_dimensional_scales()\n\n        self.output_directory")],
    CALM + '''
torch.manual_seed(0)
p = problem("TAUNET", init_with_noise=True, noise_magnitude=0.5)
close(np.exp(p.parameters[:3]), [0.59, 3.9, 3.2], 1e-4, "initial scales")
''', "init_with_noise=True", "the physical scales of a noisy start are perturbed too")

bug("c12-stale-report", "C12",
    [(CAL, '            "L": np.exp(self.parameters[0]),\n            "Γ": np.exp(self.parameters[1]),\n            "σ": np.exp(self.parameters[2]),',
      '            "L": self.OPS.LengthScale.item(),\n            "Γ": self.OPS.TimeScale.item(),\n            "σ": self.OPS.Magnitude.item(),')],
    CALM + '''
bad = 0
for w in (2, 3, 5, 7):
    p = problem(epochs=2, wolfe=w)
    with quiet(): r = p.calibrate(generate_kaimal_spectra(torch.logspace(-1, 2, 8), 1.0, 1.0), optimizer_class=torch.optim.Adam if w == 7 else torch.optim.LBFGS)
    v = np.exp(p.parameters[:3])
    bad += not np.allclose([r["L"], r["Γ"], r["σ"]], v, rtol=1e-5)
if bad: die(f"{bad} calibrations reported parameters that are not the fitted ones")
''', "an optimizer whose last evaluation is not at the final parameters (Adam, or a line search that steps back)", "calibrate() reports the scales of the last evaluated trial point")

bug("c12-six-swap", "C12",
    [(CAL, "                    data_ops[:, 1, 2],  # vw\n                    data_ops[:, 0, 1],  # uv\n                )\n            )\n\n        _num_components",
      "                    data_ops[:, 0, 1],  # uv\n                    data_ops[:, 1, 2],  # vw\n                )\n            )\n\n        _num_components")],
    CALM + '''
k = torch.logspace(-1, 2, 8); d = generate_kaimal_spectra(k, 1.0, 1.0)
d["ops"][:, 1, 2] = 0.3; d["ops"][:, 0, 1] = 0.01
p = problem(n=6)
with quiet(): p.calibrate(d)
v = p.kF_data_vals.view(6, -1)
close(v[4], 0.3 * np.ones(8), 1e-5, "vw data")
''', "six-component calibration", "vw and uv data are fitted to each other's model spectrum")

bug("c13-precision", "C13",
    [(CAL, "                    self.phys_params,\n                    self.parameters,\n                ],", "                    self.phys_params,\n                    self.parameters.astype(np.float32),\n                ],")],
    CALM + '''
import pickle, glob
torch.set_default_dtype(torch.float64)
p = problem("TAUNET"); p.save_model(os.environ["DEMO_SCRATCH"] + "/m")
f = glob.glob(os.environ["DEMO_SCRATCH"] + "/m/*.pkl")[0]
v = pickle.load(open(f, "rb"))[4]
close(v, p.parameters, 1e-15, "saved parameters")
''', "double precision models", "the saved parameters are rounded to single precision")

bug("c13-spectrum-flags", "C13",
    [(FFG, "            pb.parameters = model_params\n", "            pb.parameters = model_params[: len(pb.parameters)]\n            pb.log_dimensional_scales()\n")],
    CALM + GENM.split(PRE)[1] + '''
import glob
p = problem("TAUNET"); v = p.parameters.copy(); v[0] += 0.4; v[1] -= 0.8; p.parameters = v
p.save_model(os.environ["DEMO_SCRATCH"] + "/m")
f = glob.glob(os.environ["DEMO_SCRATCH"] + "/m/*.pkl")[0]
with quiet(): g = gen("DRD", path_to_parameters=f, seed=1)
close(g.Covariance.L / 10.0, np.exp(v[0]), 1e-4, "length scale inside the generator")
''', "a calibrated model whose scales moved from the initial guess", "the generator uses the initial scales instead of the fitted ones")

bug("c14-min-freq", "C14",
    [(CAL, "            min_freq = 1e-6", "            min_freq = 1e-2")],
    CALM + '''
f = os.environ["DEMO_SCRATCH"] + "/c.txt"
with open(f, "w") as h:
    h.write("freq_idx sep_idx frequency spatial_sep coh_u coh_v coh_w\\n")
    for i in range(4):
        for j, fr in enumerate((0.005, 0.5)): h.write(f"{j} {i} {fr} {i + 1.0} 0.5 0.5 0.5\\n")
p = problem(loss=LossParameters(gamma_coherence=1.0), phys=PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2, Uref=1.0, wavenumber_conversion_factor=6.28))
with quiet():
    p.calibrate(generate_kaimal_spectra(torch.logspace(-1, 2, 8), 1.0, 1.0), coherence_data_file=f)
    u, v, w = p._compute_model_coherence()
if float(u[3, 0]) > 0.999: die("model coherence at low frequency forced to one")
''', "coherence data below 0.01 Hz", "low-frequency model coherence is replaced by one")

bug("c14-missing-transpose", "C14",
    [(CAL, '        freq_mapping = df.groupby("freq_idx")["frequency"].first().sort_index()', '        freq_mapping = df.groupby("freq_idx", sort=False)["frequency"].first()')],
    CALM + '''
f = os.environ["DEMO_SCRATCH"] + "/c.txt"
with open(f, "w") as h:
    h.write("freq_idx sep_idx frequency spatial_sep coh_u coh_v coh_w\\n")
    for i in range(4):
        for j, fr in enumerate((0.1, 0.5, 0.9)):
            if (i, j) != (0, 0): h.write(f"{j} {i} {fr} {i + 1.0} 0.5 0.5 0.5\\n")
p = problem()
with quiet(): p.load_coherence_data(f)
close(p.coherence_frequencies, [0.1, 0.5, 0.9], 1e-9, "frequencies")
''', "a file in which the first frequency is missing for the first separation", "frequencies are permuted relative to the coherence columns")

bug("c15-mann-arctan", "C15",
    [(FG + "covariance_kernels.py", "np.arctan2(numerator, denominator)", "np.arctan(numerator / denominator)")],
    PRE + '''
from drdmannturb.fluctuation_generation.covariance_kernels import MannCovariance
fr = [np.array([0.3, -0.4]), np.array([0.2, 0.5]), np.array([-3.0, -1.5, -1.0, -0.2])]
L, G = 0.5, 6.0
S = MannCovariance(3, L, 1.0, G).precompute_Spectrum(fr)
k = np.stack(np.meshgrid(*fr, indexing="ij")); kk = (k ** 2).sum(0)
from scipy.special import hyp2f1
b = G * (kk * L ** 2) ** (-1 / 3) / np.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -1 / (kk * L ** 2)))
k1, k2, k3 = k; k30 = k3 + b * k1; kk0 = k1 ** 2 + k2 ** 2 + k30 ** 2; s = k1 ** 2 + k2 ** 2
C1 = b * k1 ** 2 * (kk0 - 2 * k30 ** 2 + b * k1 * k30) / (kk * s)
C2 = k2 * kk0 / s ** 1.5 * np.arctan2(b * k1 * np.sqrt(s), kk0 - k30 * k1 * b)
z2 = k2 / k1 * C1 + C2
E = L ** (17 / 3) / (4 * np.pi) / (1 + L ** 2 * kk0) ** (17 / 6)
P22 = E * (kk0 - k2 ** 2 - 2 * k2 * k30 * z2 + s * z2 ** 2)
close((np.abs(S[1]) ** 2).sum(0), P22, 1e-8, "Phi22 of the Mann kernel")
''', "strongly sheared wave vectors (negative denominator)", "the Mann kernel uses the wrong arctangent branch")

bug("c15-vk-outer-scale", "C15",
    [(FG + "covariance_kernels.py", "        const = np.sqrt(const / (1 + (self.L**2) * kk) ** (17 / 6))", "        const = np.sqrt(const / (1 + (self.L**2) * kk.clip(max=(np.abs(Frequencies[0]).max()) ** 2)) ** (17 / 6))")],
    PRE + '''
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance
fr = [np.array([0.5]), np.array([2.0]), np.array([3.0])]
S = VonKarmanCovariance(3, 1.0, 1.0).precompute_Spectrum(fr)
kk = 0.25 + 4 + 9
close((np.abs(S[0]) ** 2).sum(0).ravel(), [1 / (4 * np.pi) / (1 + kk) ** (17 / 6) * (kk - 0.25)], 1e-9, "Phi11")
''', "wave vectors whose transverse part exceeds the largest streamwise wave number", "the von Karman kernel is flat beyond the streamwise Nyquist wave number")

bug("c16-ustar", "C16",
    [(FFG, "            E0 = M * friction_velocity**2 * reference_height ** (-2 / 3)\n            L *= reference_height", "            E0 = M * friction_velocity * reference_height ** (-2 / 3)\n            L *= reference_height")],
    CALM + GENM.split(PRE)[1] + '''
import glob
p = problem("TAUNET"); p.save_model(os.environ["DEMO_SCRATCH"] + "/m"); f = glob.glob(os.environ["DEMO_SCRATCH"] + "/m/*.pkl")[0]
with quiet(): a = gen("DRD", path_to_parameters=f, seed=1, ustar=1.0); b = gen("DRD", path_to_parameters=f, seed=1, ustar=0.5)
close(b.Covariance.E0 / a.Covariance.E0, 0.25, 1e-9, "friction velocity scaling")
''', "friction velocity other than one with a DRD model", "the energy of a DRD field scales with u* instead of its square")

bug("c16-beta-sign", "C16",
    [(FG + "nn_covariance.py", "            k30 = k3 + beta * k1\n", "            k30 = k3 + beta * np.abs(k1)\n")],
    CALM + GENM.split(PRE)[1] + '''
import glob
p = problem("TAUNET"); p.save_model(os.environ["DEMO_SCRATCH"] + "/m"); f = glob.glob(os.environ["DEMO_SCRATCH"] + "/m/*.pkl")[0]
with quiet(): g = gen("DRD", path_to_parameters=f, seed=1)
fr = [np.array([-0.2, 0.2]), np.array([-0.3, 0.3]), np.array([-0.1, 0.1])]
S = g.Covariance.precompute_Spectrum(fr); P = np.einsum("ij...,kj...->ik...", S, S.conj()).real
close(P[0, 2, 0, 0, 0], P[0, 2, 1, 1, 1], 1e-6, "tensor at opposite wave vectors")
''', "negative streamwise wave numbers", "the DRD kernel shears half of the wave vectors the wrong way")

bug("c17-alias", "C17",
    [(FG + "sampling_methods.py", "        self.fft_y[:] *= self.Spectrum_half\n        self.ifft_plan()\n        return self.fft_x[self.DomainSlice] / self.TransformNorm",
      "        self.fft_y[:] *= self.Spectrum_half\n        self.ifft_plan()\n        field = self.fft_x[self.DomainSlice]\n        field /= self.TransformNorm\n        return field")],
    PRE + '''
from drdmannturb.fluctuation_generation.gaussian_random_fields import GaussianRandomField
class C:
    def precompute_Spectrum(self, fr):
        k = np.meshgrid(*fr, indexing="ij"); return 1.0 / (1 + sum(x ** 2 for x in k))
g = GaussianRandomField(C(), np.array([2, 2, 2]), np.array([5, 6, 4]), np.array([1.0, 2.0, 3.0]), sampling_method="fftw")
a = g.sample(np.random.RandomState(0).randn(5, 6, 4)); keep = a.copy()
g.sample(np.random.RandomState(1).randn(5, 6, 4))
close(a, keep, 0, "first field after drawing a second one")
''', "keeping one sample while drawing the next (fftw method)", "the returned field is a view of the work buffer and changes with the next draw")

bug("c17-odd-half", "C17",
    [(FG + "sampling_methods.py", "        self.Spectrum_half = self.Spectrum[..., : shpC[-1]] * np.sqrt(self.Nd.prod())\n        self.hat_noise",
      "        self.Spectrum_half = np.sqrt(self.Nd.prod()) * self.Spectrum[..., : shpC[-1]]\n        self.Spectrum_half[..., -1] = self.Spectrum_half[..., -1].real if np.isrealobj(self.Spectrum) else self.Spectrum_half[..., -1] * (1 - shpR[-1] % 2)\n        self.hat_noise")],
    GENM + '''
from drdmannturb.fluctuation_generation.gaussian_random_fields import VectorGaussianRandomField
from drdmannturb.fluctuation_generation.covariance_kernels import VonKarmanCovariance
cov = VonKarmanCovariance(3, 1.0, 1.0)
N = (6, 6, 7)
g = VectorGaussianRandomField(Covariance=cov, grid_level=np.array([2, 2, 2]), grid_shape=np.array(N), grid_dimensions=np.array([5., 5., 5.]), sampling_method="vf_fftw")
x = np.random.RandomState(0).randn(*N, 3)
f = g.sample(x)
L = np.array(N, float) * 5 / 5
fr = [2 * np.pi / L[j] * N[j] * np.fft.fftfreq(N[j]) for j in range(3)]
S = cov.precompute_Spectrum(fr)
h = np.stack([np.fft.fftn(x[..., i]) for i in range(3)])
y = np.einsum("kl...,l...->k...", S, h)
p = np.stack([np.abs(np.fft.fftn(f[..., i])) for i in range(3)])
m = (slice(None), 1, 2, 3)
r = p[m] / np.abs(y[m])
if not (r > 1e-3).all(): die(f"highest transverse mode is missing: {r}")
''', "an odd number of points in the last direction", "the highest resolved vertical mode is removed on odd grids")

bug("c18-seed-zero", "C18",
    [(FG + "gaussian_random_fields.py", "        if seed is not None:\n            self.prng.seed(seed)", "        if seed:\n            self.prng.seed(seed)")],
    GENM + '''
a = gen(seed=0).generate(1, 10., 10., 0.1, "LOG"); b = gen(seed=0).generate(1, 10., 10., 0.1, "LOG")
close(a, b, 1e-5, "two fields with seed 0")
''', "seed 0", "fields generated with seed 0 are not reproducible")

bug("c18-blend-zero", "C18",
    [(FFG, "slice(2 * self.n_buffer + max(0, self.blend_num - 1), None)", "slice(2 * self.n_buffer + self.blend_num - 1, None)")],
    GENM + '''
try:
    g = gen(seed=1, blend_num=0); f = g.generate(2, 10., 10., 0.1, "LOG")
except Exception as e:
    die(f"two blocks without blending: {type(e).__name__}")
if f.shape[0] != 2 * 9: die(f"shape {f.shape}")
''', "blend_num=0 and more than one block", "a second block cannot be generated without blending")

bug("c18-append-view", "C18",
    [(FFG, "            self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)",
      "            if i == 0 and num_blocks > 2:\n                self.total_fluctuation = normed_block\n            else:\n                self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)")],
    GENM + '''
g = gen(seed=1); a = g.generate(1, 10., 10., 0.1, "LOG").copy(); f = g.generate(3, 10., 10., 0.1, "LOG")
if f.shape[0] != 4 * a.shape[0]: die(f"blocks of the first call are lost: {f.shape}")
''', "appending three or more blocks to an existing field", "the field generated earlier is dropped")

bug("c19-plexp-zero", "C19",
    [(FFG, "self.power_law(z_space, zref, uref, plexp)", "self.power_law(z_space, zref, uref, plexp or 1.0 / 7.0)")],
    GENM + '''
g = gen("VK", seed=4, blend_num=10)
b = g._generate_block()
lo = g._normalize_block(b.copy(), 10., 10., 0.1, "PL", 0.0)
hi = g._normalize_block(b.copy(), 10., 1e-12, 0.1, "PL", 0.0)
close((lo - hi)[..., 0], np.full(lo.shape[:-1], 10.), 1e-9, "uniform mean profile")
''', "power-law exponent 0", "a uniform mean wind comes out sheared")

bug("c19-component-norm", "C19",
    [(FFG, "        sd = np.sqrt(np.mean(curr_block**2))", "        sd = np.sqrt(np.mean(curr_block[..., : max(2, self.blend_num)] ** 2))")],
    GENM + '''
for bn in (10, 2):
    g = gen("VK", seed=4, blend_num=bn)
    b = g._generate_block()
    n = g._normalize_block(b.copy(), 10., 1e-12, 0.1, "PL", 0.1)
    close(np.sqrt(np.mean(n ** 2)), 1.0, 1e-3, f"fluctuation rms, blend {bn}")
''', "blend_num of two or less", "the vertical component is left out of the normalization")

bug("c20-roll", "C20",
    [(FFG, "            noise = np.roll(self.noise, -self.Nx, axis=0)", "            noise = np.roll(self.noise, -(self.Nx + (self.blend_num > 1)), axis=0)")],
    GENM + '''
g = gen("VK", dims=(40., 20., 20.), lev=(4, 2, 2), L=3.0, seed=2, blend_num=6)
a = g._generate_block(); n0 = g.noise.copy(); g._generate_block(); n1 = g.noise
ov = n0.shape[0] - g.Nx
close(n1[:ov], n0[g.Nx:], 0, "noise shared by consecutive blocks")
''', "two or more blocks with blending", "consecutive blocks are displaced by one cell against each other, so the seam is not continuous")

bug("c20-noise-overlap", "C20",
    [(FFG, "            noise[tuple(self.new_part)] = self.RF.sample_noise(self.new_part_shape)", "            noise[tuple(self.new_part)] = self.RF.sample_noise(self.new_part_shape) + 0.5 * self.noise[-self.Nx :]")],
    GENM + '''
g = gen("VK", seed=2); g._generate_block(); n0 = g.noise.copy(); g._generate_block(); n1 = g.noise
c = np.corrcoef(n0[-g.Nx:].ravel(), n1[-g.Nx:].ravel())[0, 1]
if abs(c) > 0.1: die(f"fresh noise is correlated with the old: {c:.2f}")
''', "two or more blocks", "blocks far apart are correlated and the variance grows")

bug("c21-second-call", "C21",
    [(FFG, "                x_end = x_start + block_length_x\n", "                x_end = (i + 1) * block_length_x\n")],
    GENM + '''
cfg = dict(sigma2=0.6, L_2d=2000., psi=0.5, z_i=300., L1_factor=6, L2_factor=5, exp1=6, exp2=6)
kw = dict(dims=(600., 200., 240.), L=40.0, seed=5, config_2d_model=cfg)
with quiet():
    g = gen(**kw); g.generate(1, 10., 10., 0.1, "LOG"); a = g.generate(1, 10., 10., 0.1, "LOG")
    b = gen(**kw).generate(2, 10., 10., 0.1, "LOG")
close(a, b, 1e-3, "blocks generated in two calls")
''', "a second generate() call with a low-frequency field", "the low-frequency field of later calls is sampled over the wrong stretch")

bug("c21-component", "C21",
    [(FFG, "                normed_block[..., 1] += u2_interp[..., np.newaxis]", "                normed_block[..., 1] += (u2_interp if L_3d_y <= L_2d_y / 2 else u1_interp)[..., np.newaxis]")],
    GENM + '''
cfg = dict(sigma2=0.6, L_2d=200., psi=0.5, z_i=100., L1_factor=6, L2_factor=2, exp1=6, exp2=5)
kw = dict(dims=(600., 300., 240.), L=40.0, seed=5)
with quiet():
    g = gen(config_2d_model=cfg, **kw); a = g.generate(1, 10., 10., 0.1, "LOG"); b = gen(**kw).generate(1, 10., 10., 0.1, "LOG")
    n = a.shape[0]
    u, v = g.low_freq_gen.interp_slice(np.linspace(0, 600., n, endpoint=False), np.linspace(200 - 150., 200 + 150., 5, endpoint=False))
close((a - b)[..., 1], np.broadcast_to(v[..., None], a.shape[:3]), 1e-3, "low-frequency part of v")
''', "a 3d domain wider than half of the 2d domain", "the lateral low-frequency velocity is replaced by the streamwise one")

bug("c22-round", "C22",
    [(LF, "        n1_min_ideal = int(np.ceil(L1_target / comp_d))", "        n1_min_ideal = int(np.round(L1_target / comp_d))")],
    LOWM + '''
try: g = low(f1=5.12, f2=0.55, e1=3, e2=2)
except RuntimeError as e: die(str(e)[:90])
for i, e1 in enumerate((3, 4, 5)):
    for f2 in (0.3, 0.55, 0.7, 1.1, 1.3):
        try: low(f1=5.12, f2=f2, e1=e1, e2=2)
        except RuntimeError as e: die(str(e)[:90])
''', "a domain that is no whole number of cells", "valid domains are refused because the computational grid does not cover them")

bug("c22-offset", "C23",
    [(LF, "        start_y = (ny_computed - ny_requested) // 2", "        start_y = (ny_computed - ny_requested) // 2 if ny_computed < 2 * ny_requested else (nx_computed - nx_requested) // 2")],
    LOWM + '''
try:
    g = low(f1=12, f2=1, e1=6, e2=4); g.generate()
    n = g.u1_full.shape[1]; s = (n - 16) // 2; t = (g.u1_full.shape[0] - 64) // 2
    close(g.u1, g.u1_full[t:t + 64, s:s + 16], 0, "window")
except ValueError as e:
    die(str(e)[:90])
''', "a requested width below half of the computational width", "the user window is cut from the wrong place")

bug("c23-psi", "C23",
    [(LF, "        kappa_sq = 2 * ((k1 * np.cos(psi)) ** 2 + (k2 * np.sin(psi)) ** 2)\n", "        kappa_sq = 2 * ((k1 * np.sin(psi)) ** 2 + (k2 * np.cos(psi)) ** 2)\n")],
    LOWM + '''
def ratio(psi):
    r = []
    for s in range(6):
        g = low(psi=psi, seed=s); g.generate(); r.append((g.u1_full.var(), g.u2_full.var()))
    a, b = np.mean(r, 0); return a / b
if not ratio(np.deg2rad(25.)) > ratio(np.deg2rad(65.)): die("anisotropy acts the wrong way round")
''', "an anisotropy angle away from 45 degrees", "streamwise and lateral anisotropy are exchanged")

bug("c23-kappa-energy", "C23",
    [(LF, "                phi_term = energy / (np.pi * _k**3)", "                phi_term = energy / (np.pi * _k * max(_k_sq, 0.75 * _kappa_sq))")],
    LOWM + '''
def tot(psi):
    g = low(psi=psi, seed=1); return g
g = low(psi=np.deg2rad(88.), e1=5, e2=5); g.generate()
a = np.abs(np.fft.fft2(g.u1_full)) ** 2
g2 = low(psi=np.deg2rad(88.), e1=5, e2=5); n = g2.prng.normal(0, 1, size=(g2.comp_N1, g2.comp_N2)); h = np.abs(np.fft.fft2(n)) ** 2
k = np.hypot(g2.k1, g2.k2); kap2 = 2 * ((g2.k1 * np.cos(g2.psi)) ** 2 + (g2.k2 * np.sin(g2.psi)) ** 2)
with np.errstate(all="ignore"):
    ph = g2.c * kap2 ** 1.5 / ((g2.L_2d ** -2 + kap2) ** (7 / 3) * (1 + kap2 * g2.z_i ** 2)) / np.pi / k ** 3
    r = a / (ph * g2.k2 ** 2 * h)
r = r[1:g2.comp_N1 // 2, 1:g2.comp_N2 // 2]
if np.nanmax(r) / np.nanmin(r) > 1.01: die("spectrum shape is off")
''', "strong anisotropy", "modes whose anisotropic wave number exceeds 1.15 k get too little energy")

bug("c24-small-k1", "C24",
    [(LF, "            if abs(k1_val) < 1e-15:", "            if abs(k1_val) < 1e-4:")],
    LOWM + '''
g = low(L_2d=15000.); F, _ = g.analytical_spectrum(np.array([5e-5, 2e-4]))
if not F[0] > 0: die("spectrum vanishes at 5e-5 rad/m")
''', "wave numbers below 1e-4 rad/m", "the analytic spectrum is zero in the energy-containing range")

bug("c24-variance", "C24",
    [(LF, "            denom2 = 1.0 + kappa_sq * z_i**2\n", "            denom2 = 1.0 + kappa_sq * min(z_i, 1000.0) ** 2\n")],
    LOWM + '''
from scipy import integrate
g = low(z_i=3000., L_2d=4000.)
f = lambda x: (x / 4000) ** 3 / ((4000. ** -2 + (x / 4000) ** 2) ** (7 / 3) * (1 + (x / 4000) ** 2 * 3000. ** 2)) / 4000
close(2 * g.c * integrate.quad(f, 0, np.inf)[0], 0.6, 1e-3, "normalization")
''', "boundary-layer heights above 1000 m", "the spectrum is normalized for another height than it is evaluated with")

bug("c25-fill", "C25",
    [(LF, "            self.u2,\n            method=\"linear\",\n            bounds_error=False,\n            fill_value=0.0,", "            self.u2,\n            method=\"linear\",\n            bounds_error=False,\n            fill_value=None,")],
    LOWM + '''
g = low(); g.generate()
u, v = g.interp_slice(np.array([-500.0, 100.0]), np.array([50.0, 80.0]))
close(v[0] + 1, [1, 1], 0, "v outside the domain")
''', "targets outside of the 2d domain", "v is extrapolated where u is zero")

bug("c25-spectrum-bins", "C25",
    [(LF, "        k1_pos = np.unique(np.abs(k1_fft_user))\n", "        k1_pos = np.unique(np.round(np.abs(k1_fft_user), 6))\n")],
    LOWM + '''
g = low(L_2d=2000., f1=6, e1=5); g.generate(); k, F, _ = g.compute_spectrum()
n = g.user_N1; P = (np.abs(np.fft.fft2(g.u1)) ** 2).sum(1)[1:n // 2] * g.user_L1 / ((n * g.user_N2) ** 2 * 2 * np.pi)
close(F[: n // 2 - 1], P, 1e-6, "estimated spectrum")
''', "wave numbers that are no multiple of 1e-6", "rounded wave numbers match no Fourier mode, so bins come out empty")

bug("c26-divergence-spacing", "C26",
    [(FFG, "np.gradient(field[..., i], spacing[i], axis=i) for i in range(3)", "np.gradient(field[..., i], spacing[min(i, 1)], axis=i) for i in range(3)")],
    GENM + '''
g = gen(seed=1)
x, y, z = np.meshgrid(np.arange(4.), np.arange(5.) * 2, np.arange(6.) * 7, indexing="ij")
close(g.evaluate_divergence((1., 2., 7.), np.stack([2 * x, 3 * y, 5 * z], -1)), 10 * np.ones(x.shape), 1e-9, "divergence")
''', "vertical spacing different from the lateral one", "vertical derivatives use the lateral spacing")

bug("c26-magnitude", "C26",
    [(FG + "wind_plot.py", "    z = np.array([spacing[2] * n for n in range(shape[2])])", "    z = np.array([spacing[2] * n for n in range(shape[1])])[: shape[2]]\n    z = np.concatenate([z, np.full(max(0, shape[2] - z.size), z[-1])])")],
    PRE + '''
from drdmannturb.fluctuation_generation.wind_plot import create_grid
X, Y, Z = create_grid((1., 2., 3.), (2, 3, 5))
close(Z[0, 0], [0, 3, 6, 9, 12], 0, "z coordinates")
''', "more vertical than lateral points", "vertical coordinates stop at the lateral point count")

bug("c26-vtk-order", "C26",
    [(FFG, '            "grid": np.zeros_like(self.total_fluctuation[..., 0]),', '            "grid": 0.0 * np.sqrt(sum(np.square(w, out=w) for w in wind_field_vtk)),')],
    GENM + '''
import pyevtk.hl as hl
g = gen(seed=1); f = g.generate(1, 10., 10., 0.1, "LOG").copy()
got = {}
def rec(path, origin=(0, 0, 0), spacing=(1, 1, 1), cellData=None, pointData=None, **k): got.update(cellData or {}); got.update(pointData or {})
hl.imageToVTK = rec
g.save_to_vtk(os.environ["DEMO_SCRATCH"] + "/f")
close(got["wind"][2], f[..., 2], 0, "exported w")
''', "exporting a field", "the exported components are squared by the magnitude computed next to them")

bug("c27-opsdata-swap", "C27",
    [(CAL, "                        DataValues[:, 0, 1],  # F12 (uv)\n                        DataValues[:, 1, 2],  # F23 (vw)", "                        DataValues[:, 1, 2],  # F23 (vw)\n                        DataValues[:, 0, 1],  # F12 (uv)")],
    CALM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
k = torch.logspace(-1, 2, 8); d = generate_kaimal_spectra(k, 1.0, 1.0)["ops"]; d[:, 1, 2] = 0.3; d[:, 0, 1] = 0.01
p = problem(n=6)
with quiet(), torch.no_grad(): p.plot(OPSData=(torch.stack([k, k, k], 1), d), model_vals=None, plot_tau=False)
ax = plt.figure("Spectra Calibration").axes[4]
y = [l.get_ydata() for l in ax.lines if l.get_linestyle() in ("None", "")][0]
close(y, 0.3 * np.ones(8), 1e-4, "F23 data shown")
''', "plotting six components with explicitly passed data", "uv and vw data appear in each other's panel")

bug("c27-sign", "C27",
    [(CAL, "                curr_model.set_ydata(sign * kF_model_vals[i])", "                curr_model.set_ydata((sign if self.prob_params.num_components != 3 else 1) * kF_model_vals[i])")],
    CALM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
k = torch.logspace(-1, 2, 8); d = generate_kaimal_spectra(k, 1.0, 1.0)
p = problem(n=3); p.data = d
with quiet(), torch.no_grad(): p.plot(plot_tau=False); y = p.eval(k)
ax = plt.figure("Spectra Calibration").axes[3]
v = np.asarray(ax.lines[0].get_ydata())
close(v, -y[3], 1e-4, "-F13 model curve")
''', "three-component problems", "the -F13 panel shows F13, which a log axis hides")

bug("c28-detach-beta", "C28",
    [(OPS, "        self.k0[..., 2] = self.k[..., 2] + self.beta * self.k[..., 0]", "        self.k0[..., 2] = self.k[..., 2] + self.beta.detach() * self.k[..., 0]")],
    OPSM + '''
torch.set_default_dtype(torch.float64)
m = model("CONST", G=2.0, integration_params=IntegrationParameters(ops_num_points=20)); k1 = torch.tensor([0.3, 2.0])
f = lambda: m(k1)[:3].sum()
g, = torch.autograd.grad(f(), m.logTimeScale)
h = 1e-5
with torch.no_grad():
    m.logTimeScale += h; a = f(); m.logTimeScale -= 2 * h; b = f(); m.logTimeScale += h
close(g, (a - b) / (2 * h), 1e-4, "derivative by the time scale")
''', "gradients with respect to the time scale or the network", "the energy of the sheared spectrum is treated as constant in the fit gradient")

bug("c28-data-energy", "C28",
    [("common.py", "    return kL ** (-5.0 / 3.0) * (kL / torch.sqrt(1.0 + kL**2)) ** (17.0 / 3.0)", "    return kL ** (-5.0 / 3.0) * (kL / torch.sqrt(1.0 + (kL**2).detach())) ** (17.0 / 3.0)")],
    PRE + '''
from drdmannturb.common import VKLike_EnergySpectrum as f
torch.set_default_dtype(torch.float64)
k = torch.tensor([0.5, 3.0], requires_grad=True)
if not torch.autograd.gradcheck(f, (k,), raise_exception=False): die("derivative of the energy spectrum is wrong")
''', "gradients with respect to the length scale", "the derivative of the energy spectrum misses the outer-scale factor")

LP = FG + "low_frequency/large_plot.py"
LOSM = PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
from tensorboard.backend.event_processing.event_accumulator import EventAccumulator
torch.set_default_dtype(torch.float64)
D = os.environ["DEMO_SCRATCH"] + "/log"
def agg(**kw):
    return LossAggregator(LossParameters(**kw), torch.logspace(-1, 1, 5), 1.5, tb_log_dir=D)
def log(f=None):
    e = EventAccumulator(os.path.join(D, f or sorted(os.listdir(D))[0])); e.Reload()
    return {t: [x.value for x in e.Scalars(t)] for t in e.Tags()["scalars"]}
'''
bug("c29-share-penalties", "C29",
    [(LOSS, '                    (self.running_averages["pen1"] + self.running_averages["pen2"]) / total_avg,', '                    max(self.running_averages["pen1"], self.running_averages["pen2"]) / total_avg,')],
    LOSM + '''
a = agg(alpha_pen1=1.0, alpha_pen2=1.0); r = np.random.default_rng(0)
for e in range(4): a.eval(torch.tensor(np.exp(r.normal(size=(3, 5)))), torch.ones(3, 5), None, e)
a.writer.close(); l = log()
s = sum(np.array(l["Component_Ratios/" + k]) for k in ("MSE", "Coherence", "Penalties", "Regularization"))
close(s, np.ones(3), 1e-5, "sum of the logged shares")
''', "both slope penalties active", "the logged shares of the loss terms no longer add up to one")

bug("c29-panel-titles", "C29",
    [("common.py", "            ax[idx].set_title(scalar_tag)", "            ax[idx].set_title(training_scalars[idx])")],
    LOSM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
from drdmannturb import plot_loss_logs
a = agg(alpha_pen1=1.0, beta_reg=0.5); r = np.random.default_rng(0)
for e in range(6): a.eval(torch.tensor(np.exp(r.normal(size=(3, 5)))), torch.ones(3, 5), torch.tensor([100.0]), e)
a.writer.close(); plot_loss_logs(os.path.join(D, os.listdir(D)[0]))
ax = {x.get_title(): np.asarray(x.lines[0].get_ydata(), float) for x in plt.gcf().axes}
v = np.array(log()["Regularization"])
close(ax["Regularization"], v[len(v) - len(ax["Regularization"]):], 1e-5, "curve in the panel Regularization")
''', "a log with several terms", "the panels of the loss figure carry each other's titles")

bug("c29-coherence-weight", "C29",
    [(LOSS, '        self.writer.add_scalar("Coherence Loss/V-component", mse_v, epoch)', '        self.writer.add_scalar("Coherence Loss/V-component", self.params.gamma_coherence * mse_v, epoch)')],
    LOSM + '''
a = agg(gamma_coherence=3.0)
c = {f"model_{x}": torch.full((2, 2), 0.5) for x in "uvw"}; c.update({f"data_{x}": torch.full((2, 2), 0.1) for x in "uvw"})
for e in range(3): a.eval(torch.ones(3, 5), torch.full((3, 5), 2.0), None, e, coherence_data=c)
a.writer.close(); l = log()
close(l["Coherence Loss/V-component"], l["Coherence Loss/U-component"], 1e-5, "logged misfits of v and u")
''', "a coherence weight different from one", "the logged lateral coherence misfit is weighted while the others are not")

bug("c30-extent", "C30",
    [(LF, "        dy_plot = self.user_dy / 1000", "        dy_plot = self.user_dx / 1000")],
    LOWM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
g = low(e1=5, e2=3); g.generate(); g.plot_velocity_fields()
e = [a.images[0].get_extent() for a in plt.gcf().axes if a.images][0]
close([e[3] - e[2]], [10.0], 1e-9, "height of the figure in km")
''', "user grids with different spacings", "the fields are drawn with a wrong lateral extent")

bug("c30-average", "C30",
    [(LP, "    F22_b_numerical = np.mean(np.array(f22_b_list), axis=0)", "    F22_b_numerical = np.mean(np.array(f22_b_list[1:] or f22_b_list), axis=0)")],
    LOWM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
from drdmannturb.fluctuation_generation.low_frequency import large_plot as lp
a, b, c = low(e1=4, e2=3), low(e1=4, e2=3, seed=5), low(e1=4, e2=3, seed=5)
for g in (a, b): g.analytical_spectrum = lambda k: (np.ones_like(k), np.ones_like(k))
with quiet(): lp.recreate_fig2(a, b, num_realizations=2)
F = []
for _ in range(2): c.generate(); k, _, f = c.compute_spectrum(); F.append(f)
n = [l for l in plt.gcf().axes[3].lines if l.get_label() == "numerical"][0]
close(n.get_ydata(), k * np.mean(F, axis=0), 1e-9, "averaged spectrum")
''', "more than one realization", "one realization is left out of one of the averaged spectra")

bug("c30-angle", "C30",
    [(LP, "            u2_vars.append(np.var(u2_realization))\n        print(\"  ...Realizations complete.\")", "            u2_vars.append(np.mean(u2_realization**2))\n        print(\"  ...Realizations complete.\")")],
    LOWM + '''
from drdmannturb.fluctuation_generation.low_frequency import large_plot as lp
rows = []; o = LowFreqGenerator.generate
def rec(self): r = o(self); rows.append([np.array(x) for x in r]); return r
LowFreqGenerator.generate = rec
with quiet(): r = lp.anisotropy_study(dict(sigma2=0.6, L_2d=2000., psi=0.5, z_i=300., L1_factor=1, L2_factor=1, exp1=3, exp2=3), [30.0], num_realizations=1, do_plot=False)
close([r[30.0]["avg_u2_var"]], [np.var(rows[-1][1])], 1e-9, "variance of u2")
''', "domains with a mean flow", "the reported variance of u2 includes its mean")

bug("c31-columns", "C31",
    [("spectra_fitting/data_generator.py", "        DataValues[:, 1, 2] = self.CustomData[:, 5]  # vw", "        DataValues[:, 1, 2] = self.CustomData[:, 6]  # vw"),
     ("spectra_fitting/data_generator.py", "        DataValues[:, 0, 1] = self.CustomData[:, 6]  # uv", "        DataValues[:, 0, 1] = self.CustomData[:, 5]  # uv")],
    PRE + '''
from drdmannturb import CustomDataLoader
f = os.environ["DEMO_SCRATCH"] + "/d.csv"
open(f, "w").write("f,uu,vv,ww,uw,vw,uv\\n1.0,1.0,2.0,3.0,4.0,5.0,6.0\\n2.0,1.0,2.0,3.0,4.0,5.0,6.0\\n")
o = CustomDataLoader(f, ops_components_ct=6).format_data()["ops"]
close(o[:, 1, 2], [5, 5], 1e-6, "vw")
''', "six-component files", "the vw and uv columns are exchanged")

bug("c31-accept", "C31",
    [("spectra_fitting/data_generator.py", "        if (self.ops_components_ct > 3) and", "        if (self.ops_components_ct == 4) and")],
    PRE + '''
from drdmannturb import CustomDataLoader
f = os.environ["DEMO_SCRATCH"] + "/d.csv"
open(f, "w").write("f,uu,vv,ww,vw,uv\\n1.0,1.0,2.0,3.0,5.0,6.0\\n")
try: CustomDataLoader(f, ops_components_ct=6)
except ValueError: sys.exit(0)
die("six components accepted without uw")
''', "six components requested from a file without uw", "the missing column is silently taken as zero")

bug("c10-three-phase", "C10",
    [(CAL, "                progress = (epoch - nepochs * 0.3) / (nepochs * 0.4)", "                progress = (epoch - nepochs * 0.3) / (nepochs * 0.7)")],
    CALM + '''
p = problem(); w = torch.nn.Parameter(torch.ones(1)); o = torch.optim.SGD([w], lr=1.0)
s = p.get_three_phase_scheduler(o, 100)
for _ in range(69): o.step(); s.step()
close([o.param_groups[0]["lr"]], [2 - 0.39 / 0.4], 1e-9, "learning rate after 69 of 100 epochs")
''', "the middle phase of the schedule", "the learning rate falls too slowly")

bug("c10-scale-zero", "C10",
    [(LOSS, '                if coherence_loss is not None and coherence_loss != 0:\n                    self.loss_scales', '                if coherence_loss is not None:\n                    self.loss_scales')],
    LOSM + '''
a = agg()
a.compute_loss_scales(0, torch.tensor(1.0), torch.tensor(2.0))
m, c = a.compute_loss_scales(10, torch.tensor(1.0), torch.tensor(0.0))
close([c], [0.5], 1e-9, "coherence scale after an epoch without coherence loss")
''', "an exactly zero coherence loss at a balancing epoch", "the coherence scale decays although there was nothing to measure")

bug("c06-stale-grid", "C06",
    [(OPS, '        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)',
      '        ends = (len(k1_input), k1_input.dtype, float(k1_input[0]), float(k1_input[-1]))\n        if getattr(self, "_k_ends", None) != ends:\n            self._k_ends = ends\n            self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)')],
    OPSM + '''
ip = IntegrationParameters(ops_num_points=20)
a, b = torch.tensor([0.1, 0.5, 3.0]), torch.tensor([0.1, 1.9, 3.0])
m = model(integration_params=ip)
with torch.no_grad(): m(a); y = m(b); z = model(integration_params=ip)(b)
close(y, z, 1e-6, "spectra at the second set of wave numbers")
''', "two sets of wave numbers of equal length with equal ends, on one model", "the second evaluation uses the wave vectors of the first")

bug("c11-noise-cap", "C11",
    [(CAL, "        self.noise_magnitude = prob_params.noise_magnitude\n", "        self.noise_magnitude = min(prob_params.noise_magnitude, 1.0)\n")],
    CALM + '''
def par(**kw):
    torch.manual_seed(1)
    return CalibrationProblem(NNParameters(nlayers=2, hidden_layer_size=12), ProblemParameters(eddy_lifetime=E.TAUNET, **kw), LossParameters(),
        PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2, domain=torch.logspace(-1, 2, 8)), IntegrationParameters(ops_num_points=20), logging_directory=os.environ["DEMO_SCRATCH"]).parameters
d = (par(init_with_noise=True, noise_magnitude=8.0) - par())[3:] / 8.0
if abs(np.sqrt(np.mean(d ** 2)) - 1) > 6 / np.sqrt(len(d)): die(f"noise of {np.sqrt(np.mean(d ** 2)):.2f} times the requested standard deviation")
''', "a noise magnitude above one", "the noise is weaker than requested")

bug("c10-window-cap", "C10",
    [(LOSS, '        if len(self.component_losses["total"]) < window:', '        window = min(window, self.balance_freq * 5, 50)\n        if not len(self.component_losses["total"]) >= window:')],
    PRE + '''
from drdmannturb.parameters import LossParameters
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
k = torch.logspace(-1, 1, 4); ag = LossAggregator(LossParameters(), k, 1.0, os.environ["DEMO_SCRATCH"])
for i in range(55): ag.eval(torch.ones(3, 4) * (2 + i), torch.ones(3, 4), None, i)
if ag.get_loss_diagnostics(60): die("diagnostics over 60 evaluations after 55")
''', "a window of more than fifty evaluations", "diagnostics are averaged over fewer evaluations than asked for")

bug("c13-noise-load", "C13",
    [(FFG, "            pb.parameters = model_params\n", "            if not prob_params.init_with_noise:\n                pb.parameters = model_params\n")],
    CALM + GENM.split(PRE)[1] + '''
import glob
p = problem("TAUNET", init_with_noise=True); v = p.parameters.copy(); v[0] += 0.4; v[1] -= 0.8; p.parameters = v
p.save_model(os.environ["DEMO_SCRATCH"] + "/m")
f = glob.glob(os.environ["DEMO_SCRATCH"] + "/m/*.pkl")[0]
with quiet(): g = gen("DRD", path_to_parameters=f, seed=1)
close(g.Covariance.L / 10.0, np.exp(v[0]), 1e-4, "length scale inside the generator")
''', "a saved model that was initialized with noise", "the generator uses a fresh model instead of the saved one")

bug("c18-forget", "C18",
    [(FFG, "        if np.any(self.total_fluctuation):", "        # bound the memory of long records\n        self.total_fluctuation = self.total_fluctuation[-1024:]\n        if self.total_fluctuation.any():")],
    GENM + '''
g = gen("VK", seed=1, lev=(5, 1, 1)); a = g.generate(33, 10., 10., 0.1, "LOG").copy(); f = g.generate(1, 10., 10., 0.1, "LOG")
if f.shape[0] != 34 * 33 or not np.array_equal(f[: len(a)], a): die(f"field of {f.shape[0]} planes after 34 blocks of 33")
''', "a further call on a record of more than 1024 planes", "the beginning of the record is thrown away")

bug("c19-fine-heights", "C19",
    [(FFG, "        z_space = np.linspace(0.0, self.grid_dimensions[2], 2 ** (self.grid_levels[2]) + 1)", "        z_space = np.linspace(0.0, self.grid_dimensions[2], min(2 ** (self.grid_levels[2]) + 1, 33))\n        z_space = np.pad(z_space, (0, 2 ** self.grid_levels[2] + 1 - len(z_space)), mode=\"edge\")")],
    GENM + '''
kw = dict(seed=4, lev=(1, 1, 6), dims=(60., 20., 240.), L=40.0)
a = gen("VK", **kw).generate(1, 10., 10., 0.1, "PL", 1.0); b = gen("VK", **kw).generate(1, 10., 10., 0.1, "PL", 0.0)
close((a - b)[0, 0, 1:, 0] + 10.0, np.linspace(0, 240., 65)[1:], 1e-3, "mean wind")
''', "more than 33 points in the vertical", "the mean profile is stretched over the lowest points and constant above")

bug("c21-periodic", "C21",
    [(FFG, "                x_end = x_start + block_length_x\n", "                x_start = x_start % (self.low_freq_gen.user_L1 or 1.0)\n                x_end = block_length_x + x_start\n")],
    GENM + '''
cfg = dict(sigma2=0.6, L_2d=200., psi=0.5, z_i=100., L1_factor=6, L2_factor=2, exp1=6, exp2=5)
kw = dict(dims=(600., 100., 240.), L=40.0, seed=5)
with quiet():
    a = gen(config_2d_model=cfg, **kw).generate(3, 10., 10., 0.1, "LOG"); b = gen(**kw).generate(3, 10., 10., 0.1, "LOG")
n = a.shape[0] // 3
if np.abs((a - b)[2 * n + 1:, :, :, :2]).max() > 1e-3: die("a low-frequency wind is added beyond the two-dimensional domain")
''', "a record longer than the 2d domain", "blocks beyond the two-dimensional domain repeat its beginning")

bug("c27-sorted", "C27",
    [(CAL, "            k1_data_pts = torch.tensor(DataPoints)[:, 0].squeeze()", "            k1_data_pts = torch.sort(torch.tensor(DataPoints)[:, 0].squeeze())[0]")],
    CALM + '''
import matplotlib; matplotlib.use("Agg"); import matplotlib.pyplot as plt
k = torch.logspace(-1, 2, 8).flip(0); d = torch.zeros(8, 3, 3); d[:, 0, 0] = 1.0 / k; d[:, 1, 1] = d[:, 2, 2] = 1.0
p = problem(n=3)
with quiet(), torch.no_grad(): p.plot(OPSData=([(float(x), 1.0) for x in k], d), model_vals=None, plot_tau=False)
l = [l for l in plt.figure("Spectra Calibration").axes[0].lines if l.get_linestyle() in ("None", "")][0]
close(np.asarray(l.get_xdata()) * np.asarray(l.get_ydata()), np.ones(8), 1e-4, "k1 times the F11 data")
''', "explicitly passed data in decreasing order", "the data are drawn against the wrong wave numbers")

bug("c29-late-shares", "C29",
    [(LOSS, "        if epoch > 0:\n            total_avg", "        if 0 < epoch < 1000:\n            total_avg")],
    LOSM + '''
a = agg(alpha_pen1=1.0); r = np.random.default_rng(0)
for e in range(998, 1003): a.eval(torch.tensor(np.exp(r.normal(size=(3, 5)))), torch.ones(3, 5), None, e)
a.writer.close(); l = log()
if len(l["Component_Ratios/MSE"]) != 5: die(f"{len(l['Component_Ratios/MSE'])} shares logged for 5 evaluations")
''', "more than a thousand epochs", "the shares of the loss terms are no longer logged")

bug("c31-row-limit", "C31",
    [("spectra_fitting/data_generator.py", "pl.read_csv(self.ops_data_file)", "pl.read_csv(self.ops_data_file, n_rows=1000)")],
    PRE + '''
from drdmannturb import CustomDataLoader
f = os.environ["DEMO_SCRATCH"] + "/d.csv"
open(f, "w").write("f,uu,vv,ww,uw\\n" + "".join(f"{i + 1}.0,1.0,2.0,3.0,4.0\\n" for i in range(1200)))
n = len(CustomDataLoader(f, ops_components_ct=4).format_data()["k1"])
if n != 1200: die(f"{n} of 1200 rows read")
''', "a file with more than a thousand rows", "the rows beyond the thousandth are dropped")

bug("c32-component", "C32",
    [(CAL, "            self.coherence_data_w_selected = self.coherence_w[", "            self.coherence_data_w_selected = self.coherence_v[")],
    CALM + '''
torch.set_default_dtype(torch.float64)
f = os.environ["DEMO_SCRATCH"] + "/c.txt"
def fit(cw):
    with open(f, "w") as h:
        h.write("freq_idx sep_idx frequency spatial_sep coh_u coh_v coh_w\\n")
        for i in range(4): h.write(f"0 {i} 0.5 {i + 1.0} 0.5 0.5 {cw}\\n")
    p = problem(loss=LossParameters(gamma_coherence=5.0), phys=PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2, Uref=1.0))
    with quiet(): p.calibrate(generate_kaimal_spectra(torch.logspace(-1, 2, 8), 1.0, 1.0), coherence_data_file=f)
    return p.LossAggregator.component_losses["coherence"][0]
if fit(0.5) == fit(0.9): die("the vertical coherence data have no influence on the fit")
''', "coherence data of w that differ from those of v", "the lateral data are fitted twice and the vertical ones not at all")

bug("c32-coordinates", "C32",
    [(CAL, "        sep_indices = np.linspace(0, n_seps - 1, 4, dtype=int)\n        self.coherence_plot_sep_indices = sep_indices\n        self.coherence_plot_separations = unique_seps[sep_indices]",
      "        sep_indices = np.linspace(0, n_seps - 1, 4, dtype=int)\n        self.coherence_plot_sep_indices = sep_indices\n        self.coherence_plot_separations = np.sort(unique_seps)[sep_indices]")],
    CALM + '''
torch.set_default_dtype(torch.float64)
f = os.environ["DEMO_SCRATCH"] + "/c.txt"
def fit(order):
    with open(f, "w") as h:
        h.write("freq_idx sep_idx frequency spatial_sep coh_u coh_v coh_w\\n")
        for i, s in enumerate(order): h.write(f"0 {i} 0.5 {s} {1 / s} {1 / s} {1 / s}\\n")
    p = problem(loss=LossParameters(gamma_coherence=5.0), phys=PhysicalParameters(L=0.59, Gamma=3.9, sigma=3.2, Uref=1.0))
    with quiet(): p.calibrate(generate_kaimal_spectra(torch.logspace(-1, 2, 8), 1.0, 1.0), coherence_data_file=f)
    return p.LossAggregator.component_losses["coherence"][0]
close(fit([4.0, 3.0, 2.0, 1.0]), fit([1.0, 2.0, 3.0, 4.0]), 1e-6, "coherence misfit of one data set under two numberings")
''', "separations that do not increase with their index", "the data are compared with the model at other separations")

bug("c17-clip", "C17",
    [(FG + "gaussian_random_fields.py", "        noise *= self.noise_std", "        noise = np.clip(noise, -4.0, 4.0) * self.noise_std")],
    PRE + '''
from drdmannturb.fluctuation_generation import GaussianRandomField
g = GaussianRandomField(ndim=3, grid_level=np.array([2, 2, 2]), grid_dimensions=np.array([5., 5., 5.]), sampling_method="fftw", grid_shape=np.array([5, 5, 5]), Covariance=type("C", (), dict(ndim=3, precompute_Spectrum=lambda s, F: np.ones([len(f) for f in F])))())
g.reseed(3); x = g.sample_noise([200, 100, 50])
if np.abs(x).max() < 4.3: die(f"largest of 1e6 noise values is {np.abs(x).max():.3f} standard deviations")
''', "about one noise value in sixteen thousand", "the tails of the noise are cut off")

bug("c33-kernel-cache", "C33",
    [(FG + "sampling_methods.py", "        self.Spectrum = RandomField.Covariance.precompute_Spectrum(self.Frequencies)",
      "        key = (type(RandomField.Covariance).__name__, RandomField.Covariance.L, tuple(int(n) for n in Nd), tuple(float(x) for x in L))\n        if key not in _SPECTRA:\n            _SPECTRA[key] = RandomField.Covariance.precompute_Spectrum(self.Frequencies)\n        self.Spectrum = _SPECTRA[key]"),
     (FG + "sampling_methods.py", 'METHOD_VF_FFTW = "vf_fftw"\n', 'METHOD_VF_FFTW = "vf_fftw"\n_SPECTRA: dict = {}  # kernels already evaluated on a grid\n')],
    GENM + '''
from drdmannturb.fluctuation_generation import VectorGaussianRandomField, VonKarmanCovariance
def rf(E0):
    f = VectorGaussianRandomField(ndim=3, grid_level=np.array([3, 2, 2]), grid_dimensions=np.array([9., 5., 5.]), sampling_method="vf_fftw", grid_shape=np.array([9, 5, 5]), Covariance=VonKarmanCovariance(3, 2.0, E0))
    return f.sample(np.random.RandomState(1).normal(size=(9, 5, 5, 3)))
a, b = rf(1.0), rf(4.0)
if not np.allclose(b, 2 * a, atol=1e-3 * np.abs(a).max()): die("a field with four times the energy is not twice as strong when one on the same grid came before")
''', "two fields on one grid with the same length scale and another energy constant", "the second field uses the kernel of the first")

bug("c33-shared-prng", "C33",
    [(FG + "gaussian_random_fields.py", "        self.prng = np.random.RandomState()\n", "        self.prng = _GENERATOR\n"),
     (FG + "gaussian_random_fields.py", "class GaussianRandomField:\n", "_GENERATOR = np.random.RandomState()\n\n\nclass GaussianRandomField:\n")],
    GENM + '''
p = dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="LOG")
with quiet():
    g = gen("VK", seed=3)
    a = g.generate(1, **p)
    g = gen("VK", seed=3)
    gen("VK", seed=4)
    b = g.generate(1, **p)
if not np.allclose(a, b, atol=1e-3): die("a generator constructed in between changes the field of a seeded generator")
''', "a second generator constructed or used between construction and use of a seeded one", "all random fields draw from one stream")

bug("c33-coherence-grid", "C33",
    [(OPS, "        self.LengthScale_scalar = physical_params.L\n", "        self.LengthScale_scalar = OnePointSpectra.coh_scale = physical_params.L\n"),
     (OPS, "            scale_factor = 1.0 / self.LengthScale.detach()\n", "            scale_factor = 1.0 / getattr(OnePointSpectra, \"coh_scale\", self.LengthScale.detach())\n")],
    OPSM + '''
torch.set_default_dtype(torch.float64)
k, y = torch.tensor([0.3, 1.0]), torch.tensor([0.0, 0.5, 1.0])
with torch.no_grad(), quiet():
    a = model(L=0.6).SpectralCoherence(k, y)
    m = model(L=0.6)
    model(L=6.0)
    b = m.SpectralCoherence(k, y)
close(b, a, 1e-9, "coherence of a model after another one was constructed")
''', "a coherence evaluated after a model of another length scale was made", "the integration grid of one model's coherence is scaled by another model's length")

bug("c33-config-scale", "C33",
    [(LF, '        self.user_L1 = config["L1_factor"] * self.L_2d\n', '        config["L1_factor"] *= self.L_2d  # in metres from here on\n        self.user_L1 = config["L1_factor"]\n')],
    GENM + '''
c = dict(sigma2=0.6, L_2d=500.0, psi=0.5, z_i=12.0, L1_factor=4, L2_factor=4, exp1=4, exp2=4)
with quiet(): gen("VK", seed=3, config_2d_model=c)
if c["L1_factor"] != 4: die("constructing a generator changed the caller's configuration")
''', "a configuration dictionary used for two generators", "the caller's configuration dictionary is rewritten; the second generator's field is L_2d times too long")

bug("c34-nan-coherence", "C34",
    [(LOSS, "        if coherence_loss.isnan():\n", "        if mse_u.isnan() and mse_v.isnan() and mse_w.isnan():\n")],
    LOSM + '''
t = torch.rand
d = {f"{w}_{x}": t(2, 3) for w in ("model", "data") for x in "uvw"}
d["data_w"][1, 2] = float("nan")
k = torch.logspace(-1, 1, 5)
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
from drdmannturb.parameters import LossParameters
a = LossAggregator(LossParameters(gamma_coherence=1.0), k, 1.0, tb_log_dir=os.environ["DEMO_SCRATCH"])
try:
    a.eval(t(3, 5) + 1, t(3, 5) + 1, None, 0, coherence_data=d)
except ValueError:
    sys.exit(0)
die("a missing coherence value was not refused")
''', "coherence data with a gap in one component only", "the loss becomes NaN instead of being refused, and enters the history")

bug("c34-history", "C34",
    [(LOSS, "        # Coherence loss\n        coherence_loss = torch.tensor(0.0, device=y.device)\n", "        self.component_losses[\"mse\"].append(mse_loss.item())\n\n        # Coherence loss\n        coherence_loss = torch.tensor(0.0, device=y.device)\n"),
     (LOSS, "        self.component_losses[\"mse\"].append(mse_loss.item())\n        self.component_losses[\"coherence\"]", "        self.component_losses[\"coherence\"]")],
    LOSM + '''
t = torch.rand
d = {f"{w}_{x}": t(2, 3) for w in ("model", "data") for x in "uvw"}
d["data_w"][1, 2] = float("nan")
k = torch.logspace(-1, 1, 5)
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
from drdmannturb.parameters import LossParameters
a = LossAggregator(LossParameters(gamma_coherence=1.0), k, 1.0, tb_log_dir=os.environ["DEMO_SCRATCH"])
with quiet():
    try: a.eval(t(3, 5) + 1, t(3, 5) + 1, None, 0, coherence_data=d)
    except ValueError: pass
    d["data_w"][1, 2] = 0.5
    a.eval(t(3, 5) + 1, t(3, 5) + 1, None, 0, coherence_data=d)
n = {q: len(v) for q, v in a.component_losses.items()}
if len(set(n.values())) != 1: die(f"histories of unequal length after a refused evaluation: {n}")
''', "an evaluation refused for a term after the first", "the histories of the loss terms are shifted against each other")

bug("c34-save-mkdir", "C34",
    [(CAL, "            if not save_dir.is_dir():\n", "            if save_dir.exists() and not save_dir.is_dir():\n")],
    CALM + '''
from pathlib import Path
p = problem()
d = Path(os.environ["DEMO_SCRATCH"]) / "typo" / "here"
try:
    p.save_model(d)
except ValueError:
    if d.exists(): die("refused, but the directory is there")
    sys.exit(0)
die("saved to a Path that is no directory")
''', "saving to a Path that does not exist", "the model is saved to a directory made up on the spot")

bug("c34-vector-prefix", "C34",
    [(CAL, "        if len(param_vec) != current_num_params:\n", "        if len(param_vec) < current_num_params:  # vectors of a fit with learnable spectrum carry more\n")],
    CALM + '''
p = problem()
try:
    p.parameters = np.zeros(len(p.parameters) + 2)
except ValueError:
    sys.exit(0)
die("a vector longer than the model's parameters was accepted")
''', "a parameter vector that is too long", "the vector of another model is accepted and truncated")

bug("c34-low-default", "C34",
    [(LF, '        self.z_i = config["z_i"]\n', '        self.z_i = config.get("z_i", 500.0)\n')],
    LOWM + '''
with quiet():
    try:
        LowFreqGenerator(dict(sigma2=0.6, L_2d=2000.0, psi=0.5, L1_factor=6, L2_factor=6, exp1=4, exp2=4), seed=1)
    except KeyError:
        sys.exit(0)
die("a configuration without z_i was accepted")
''', "a configuration dictionary with a key missing or misspelt", "a default boundary-layer height is used silently")

bug("c03-learnable-floor", "C03",
    [("common.py", "    return (kL ** p) / ((1.0 + kL**2) ** q)", "    return (torch.clamp(kL, min=1e-2) ** p) / ((1.0 + kL**2) ** q)")],
    PRE + '''
from drdmannturb.common import Learnable_EnergySpectrum as f
k = torch.logspace(-4, 2, 13, dtype=torch.float64)
close(f(k, torch.tensor(3.0), torch.tensor(2.5)), k ** 3 / (1 + k ** 2) ** 2.5, 1e-4, "learnable spectrum")
''', "kL below 0.01", "the learnable spectrum stops falling at the smallest wave numbers")

bug("c03-vk-offset", "C03",
    [("common.py", "    return kL**4 / (1.0 + kL**2) ** (17.0 / 6.0)", "    return (kL**2 + 1e-4) * kL**2 / (1.0 + kL**2) ** (17.0 / 6.0)")],
    PRE + '''
from drdmannturb.common import VKEnergySpectrum as f
k = torch.logspace(-3, 2, 11, dtype=torch.float64)
close(f(k), k ** 4 / (1 + k ** 2) ** (17 / 6), 1e-4, "von Karman spectrum")
''', "kL well below 0.1, in the first of the two forms", "the von Karman energy spectrum has the wrong slope at low wave numbers")

bug("c05-range", "C05",
    [("parameters.py", "    ops_log_max: float = 3.0", "    ops_log_max: float = 0.7")],
    OPSM + '''
k1 = torch.logspace(-2, 1, 7)
with torch.no_grad():
    a = model(L=2.0)(k1)
    b = model(L=2.0, integration_params=IntegrationParameters(ops_log_min=-4., ops_log_max=4., ops_num_points=300))(k1)
close(a[:3], b[:3], 0.03, "default quadrature")
''', "high wave numbers", "the default quadrature leaves out the inertial range")

bug("c10-balance-first", "C10",
    [(LOSS, '        if epoch % self.balance_freq == 0 or "mse" not in self.loss_scales:', '        if epoch % self.balance_freq == 0 or epoch == 1 or "mse" not in self.loss_scales:')],
    LOSM + '''
a = agg()
a.compute_loss_scales(0, torch.tensor(1.0), torch.tensor(2.0))
m, c = a.compute_loss_scales(1, torch.tensor(3.0), torch.tensor(5.0))
close([m, c], [1.0, 0.5], 1e-9, "scales between two multiples of balance_freq")
''', "the second epoch, after the scales were initialized in the first", "the scales are refreshed although the epoch is no multiple of balance_freq")

bug("c11-coherence-scale", "C11",
    [(OPS, "            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor", "            scale_factor = 1.0 / self.LengthScale_scalar\n            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)) * scale_factor")],
    CALM + '''
k1 = torch.tensor([0.02, 0.1]); sep = torch.tensor([3.0, 20.0])
a = problem(); v = a.parameters.copy(); v[0] = np.log(30.0); a.parameters = v
b = problem(phys=PhysicalParameters(L=30.0, Gamma=3.9, sigma=3.2, domain=torch.logspace(-1, 2, 8)))
with quiet(), torch.no_grad(): x, y = a.OPS.SpectralCoherence(k1, sep), b.OPS.SpectralCoherence(k1, sep)
close(x, y, 1e-3, "coherence after the assignment of another length scale")
''', "coherence after a vector with another length scale was assigned", "the coherence is integrated on the grid of the length scale the problem was built with")

bug("c21-empty-call", "C21",
    [(FFG, "                x_end = x_start + block_length_x\n", "                self._x_next = getattr(self, \"_x_next\", 0.0)\n                x_start = self._x_next if not empty_call else x_start + block_length_x\n                self._x_next = x_end = x_start + block_length_x\n"),
     (FFG, "        for i in range(num_blocks):\n", "        empty_call = getattr(self, \"_empty\", False)\n        self._empty = num_blocks == 0\n        for i in range(num_blocks):\n")],
    GENM + '''
cfg = dict(sigma2=0.6, L_2d=2000., psi=0.5, z_i=300., L1_factor=6, L2_factor=5, exp1=6, exp2=6)
kw = dict(dims=(600., 200., 240.), L=40.0, seed=5, config_2d_model=cfg)
with quiet():
    g = gen(**kw); g.generate(1, 10., 10., 0.1, "LOG"); g.generate(0, 10., 10., 0.1, "LOG"); a = g.generate(1, 10., 10., 0.1, "LOG")
    b = gen(**kw).generate(2, 10., 10., 0.1, "LOG")
close(a, b, 1e-3, "blocks generated around a call for none")
''', "a generate() call for zero blocks before another", "the low-frequency field of the next call skips a block length")

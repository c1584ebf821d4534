#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SF = "drdmannturb/spectra_fitting/"
FG = "drdmannturb/fluctuation_generation/"
LF = FG + "low_frequency/fluctuation_field_generator.py"
LFP = FG + "low_frequency/large_plot.py"
OPS, CAL, LOSS, GEN = SF + "one_point_spectra.py", SF + "calibration.py", SF + "loss_functions.py", SF + "data_generator.py"
FFG, COV, NNC, GRF, SAM, PLT = (FG + n for n in (
    "fluctuation_field_generator.py", "covariance_kernels.py", "nn_covariance.py",
    "gaussian_random_fields.py", "sampling_methods.py", "wind_plot.py"))
COM, NN, PAR = "drdmannturb/common.py", "drdmannturb/nn_modules.py", "drdmannturb/parameters.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))


prop("C01", "Eddy-lifetime models equal their published laws at the current scales",
     "For every wave vector, length scale L and time scale T, the classical eddy-lifetime choices return T times their "
     "law of |k|L: one (constant), (|k|L)^(-2/3) (two-thirds), the Mann/IEC lifetime defined by the von Karman energy "
     "integral, and the log-log straight-line fit of that lifetime over six decades (linear Mann approximation), "
     "always positive and isotropic. The learned choice returns T times the network evaluated at kL. "
     "They use the scales currently stored in the model, also after those were changed, and leave the input untouched.",
     ["inputs", "configurations", "histories"],
     "all wave-vector arrays (any shape, axis-aligned included, kL over nine decades), scales, float32/float64, scales changed before or after a first evaluation",
     "existing tests evaluate one Kaimal-like parameter set; the law must hold on the continuum of scales and wave numbers",
     [OPS, COM], [("lifetime dispatch", OPS + ":EddyLifetime"), ("Mann lifetime", COM + ":MannEddyLifetime"),
                  ("linear approximation", OPS + ":init_mann_approximation")],
     "Hypothesis: generated scales/wave vectors vs independent energy-integral oracle",
     "oracle tabulates the Mann lifetime by adaptive quadrature of its defining integral (not the hypergeometric form)")

prop("C02", "The neural lifetime keeps its prescribed positive, even, rational form",
     "For every architecture, weight set and wave vector the network lifetime equals |a|^(nu-2/3)/(1+|a|^2)^(nu/2) with "
     "a = |k| + NN(|k|) (componentwise absolute values, bias-free perceptron with the chosen activations), so it is "
     "positive, finite away from a = 0 and unchanged when any component of k changes sign. "
     "Invalid layer counts, layer widths or activation lists are rejected when the network is built; nu is trainable exactly when requested. "
     "A model or calibration problem configured with NNParameters has the network described there: its number of layers, their widths, and its activations "
     "(a shorter list repeats).",
     ["inputs", "configurations"],
     "all layer counts/widths/activation choices, weights, nu, batch shapes and wave vectors, and all kinds of invalid architecture arguments",
     "tests use the default network only and never random weights, other activations or sign flips",
     [NN], [("perceptron with residual connection", NN + ":TauNet._mlp_forward"), ("rational kernel", NN + ":Rational.forward"),
            ("argument validation", NN + ":TauNet.__init__")],
     "Hypothesis: generated architectures/weights vs numpy re-implementation, sign-flip metamorphic",
     "differential against a float64 numpy forward pass built from the parameters' shapes and order")

prop("C03", "Energy spectra follow their closed forms and the learnable one reduces to VK",
     "For every scaled wave number the von Karman energy spectrum is (kL)^4/(1+(kL)^2)^(17/6) in both of its forms and the "
     "learnable one is (kL)^p/(1+(kL)^2)^q. With p=4 and q=17/6 the learnable spectrum gives the same one-point spectra as "
     "the von Karman spectrum.",
     ["inputs", "configurations"],
     "kL over many decades, exponents p and q, tensor shapes, both precisions; model configurations with and without learnable spectrum",
     "no test evaluates the learnable spectrum and only one domain is used for the others",
     [COM, OPS], [("closed forms", COM + ":VKEnergySpectrum/VKLike_EnergySpectrum/Learnable_EnergySpectrum"), ("choice of spectrum", OPS + ":forward")],
     "Hypothesis: closed-form oracle plus differential between model configurations",
     "numpy closed forms; two model objects with equal parameters must agree")

prop("C04", "One-point spectra are the k2-k3 integrals of the sheared spectral tensor",
     "For every k1 > 0 and every parameter set, the model returns k1 times the trapezoidal integral over the configured "
     "log-spaced k2-k3 grid of the rapid-distortion-sheared von Karman (or learnable) tensor, in the order uu, vv, ww, uw, vw, uv, "
     "with the amplitude sigma L^(5/3) and the current eddy lifetime. Each k1 is evaluated independently of the others, whatever their order or number.",
     ["inputs", "configurations"],
     "all lifetime types, scales, integration grids, learnable exponents, network weights and k1 sets",
     "the expected value is a double integral of a tensor; tests only look at a handful of calibrated curves with default grids",
     [OPS], [("shear and tensor", OPS + ":forward, PowerSpectra"), ("quadrature", OPS + ":quad23"), ("grid", OPS + ":__init__")],
     "Hypothesis: generated parameters/grids vs float64 RDT reference on the same grid; permutation/subset metamorphic",
     "reference tensor obtained from the RDT equations (closed form validated against the ODE); tolerance covers the 1e-12 floor")

prop("C05", "At default resolution the spectra reproduce the continuum physics",
     "With the default integration grid the spectra agree, within a few percent, with the converged double integral of the sheared tensor, "
     "and for vanishing shear with the analytic von Karman one-point spectra that the library also generates as data. "
     "The auto-spectra are positive, the uw spectrum is negative under shear and bounded by the uu and ww spectra, and all scale linearly with the amplitude.",
     ["inputs", "configurations"],
     "scales and k1 in the range where the default grid is adequate, all classical lifetimes",
     "tests compare no spectrum with an independent value; only loss decrease is sampled",
     [OPS, GEN, PAR], [("default integration grid", PAR + ":IntegrationParameters"), ("spectra", OPS + ":forward")],
     "Hypothesis: generated parameters vs converged reference quadrature and analytic isotropic limit",
     "tolerance measured on the unchanged tree and doubled")

prop("C06", "Evaluating the model has no side effects on later evaluations",
     "Whatever sequence of spectrum, lifetime, tensor, divergence and coherence evaluations and parameter assignments came before, "
     "evaluating the spectra or the lifetime of a model gives what a freshly built model with the same parameters gives. "
     "The normalized divergence of the evaluated tensor vanishes wherever the tensor is above its floor, and inputs are never modified.",
     ["histories", "inputs"],
     "all interleavings of evaluations and parameter changes on one object",
     "state carried between calls is only visible in particular call orders; tests call each method once on a fresh object",
     [OPS, CAL], [("cached k, beta, E0 between methods", OPS + ":forward/PowerSpectra"), ("parameters setter", CAL + ":parameters")],
     "Hypothesis stateful (operation lists) vs fresh-object oracle",
     "operation sequences shrink as one value")

prop("C07", "Spectral coherence is in [0,1], 1 at zero separation and matches its integral",
     "For every separation and k1, the u, v and w auto-coherences are |S(r)|^2/|S(0)|^2 with S(r) the integral of the tensor times exp(i k2 r): "
     "between 0 and 1, exactly 1 at zero separation, even in the separation, and independent of the spectrum amplitude. "
     "Separations and wave numbers are treated independently of one another. "
     "A calibration problem integrates the coherence on the logarithmic grid its IntegrationParameters ask for (coh_log_min, coh_log_max, coh_num_points), by default 1e-3/L to 1e3/L with 100 points per half-axis.",
     ["inputs", "configurations"],
     "all separations (positive, negative, zero), k1 sets, grids, lifetimes, scales, amplitudes",
     "no stable test evaluates coherence",
     [OPS], [("coherence integrals", OPS + ":SpectralCoherence, _PowerSpectra_coherence, _quad23_coherence")],
     "Hypothesis: generated inputs vs same-grid reference, range/evenness/independence metamorphic",
     "float64 reference of the same discrete integral")

prop("C08", "Generated calibration data are the von Karman and Kaimal formulas",
     "For every k1 domain, length scale and constant, the von Karman data are the frequency-weighted analytic one-point spectra; for every height and "
     "friction velocity the Kaimal data are the standard formulas in n = k1 z/(2 pi) times u*^2, with a negative uw entry. "
     "All entries that the model prescribes as zero are zero and the wave-number domain is returned unchanged.",
     ["inputs", "configurations"],
     "all k1 arrays (any length, order, precision), L, C, z, u*",
     "one existing test compares one domain",
     [GEN], [("formulas", GEN + ":generate_von_karman_spectra, generate_kaimal_spectra")],
     "Hypothesis: closed-form oracle, height/velocity scaling metamorphic",
     "closed forms in numpy float64")

prop("C09", "The training loss is the documented sum of its weighted terms",
     "For every model output, data set, wave-number grid and weights the loss equals the mean squared log-ratio plus the weighted first- and "
     "second-order log-slope penalties (positive parts, divided by z and z^2), the weighted mean square of the network weights and the weighted coherence misfit, "
     "each only when its weight is positive. It is non-negative, zero for a perfect unpenalized match, ignores signs of the spectra, and never silently returns NaN.",
     ["inputs", "configurations"],
     "all spectra, targets, non-uniform wave-number grids, weights, heights, coherence arrays",
     "tests never evaluate the loss on known input",
     [LOSS], [("terms", LOSS + ":MSE_term, Pen1stOrder, Pen2ndOrder, Regularization, CoherenceLoss"), ("sum", LOSS + ":eval")],
     "Hypothesis: generated tensors/weights vs numpy reference",
     "float64 reference of each term and of the sum")

prop("C10", "Loss history, running averages and schedule advice follow the recorded losses",
     "After any sequence of loss evaluations the recorded component histories contain exactly the values of those evaluations in order, the running averages are their "
     "exponential averages with decay 0.9, and the diagnostics and learning-rate advice are the documented functions of the last window of that history. "
     "Before a full window has been recorded no adjustment is ever advised. "
     "The balancing scales are the reciprocals of running averages (decay 0.9, refreshed at the multiples of the configured balance_freq) of the spectra and coherence losses and finite for all of them, and the three-phase and adaptive learning-rate schedules follow their documented phases and rules.",
     ["histories"],
     "all evaluation sequences, window lengths and query points",
     "the behaviour depends on long histories; no test evaluates it",
     [LOSS], [("histories and averages", LOSS + ":eval, update_running_averages"), ("advice", LOSS + ":get_loss_diagnostics, should_adjust_learning_rate")],
     "Hypothesis stateful (evaluation sequences) vs reference model of the history",
     "reference model recomputes every statistic from the list of inputs")

prop("C11", "The model's parameter vector round-trips and starts at the physical scales",
     "The parameter vector of a calibration problem starts with the natural logarithms of L, Gamma and sigma as given by the user, followed by the learnable exponents when enabled and the network weights. "
     "Assigning any vector of the right length makes the model behave as if built with it and reading it back returns the same values; a vector of the wrong length or an invalid configuration is rejected and changes nothing. "
     "The reported number and norm of the trainable network parameters are those of that vector. Noise initialization perturbs only the non-physical parameters, by white noise of the requested standard deviation.",
     ["inputs", "configurations", "histories"],
     "all configurations, vectors, wrong lengths, noise magnitudes, sequences of assignments",
     "tests use one vector from a pretrained file",
     [CAL, OPS], [("getter/setter", CAL + ":parameters"), ("initialization", CAL + ":log_dimensional_scales, initialize_parameters_with_noise")],
     "Hypothesis: round-trip and rejection over generated configurations and vectors",
     "oracle: assigned vector; fresh model; noise statistics")

prop("C12", "Calibration reports the fitted parameters and fits what it was given",
     "For every lifetime model and 3, 4 or 6 fitted components, calibration runs to completion within the allowed epochs, reports exactly the exponentials of the model's final log-scales (and exponents), and never ends with a larger loss than it started with. Training stops at the tolerance or after nepochs epochs, with one optimizer step per epoch of at most the configured line-search iterations, at the configured learning rate, cosine-annealed and multiplied by the advised factors. "
     "Data produced by the model itself leave the parameters at their values, and data from other scales are recovered; only the requested components influence the result, the same data and start give the same result, and the data are not modified.",
     ["inputs", "configurations", "histories"],
     "lifetime types, component counts, scales, penalties, data from the model or perturbed, repeated calibration",
     "calibration tests in the repository fail or check a single Kaimal fit; the relation must hold for every data set",
     [CAL], [("training loop", CAL + ":calibrate"), ("component selection", CAL + ":calibrate")],
     "Hypothesis: generated problems, self-consistency (fixed point / recovery), metamorphic on unused data, determinism",
     "oracle: parameters the data were generated from; loss recomputed independently")

prop("C13", "A saved model reloads to the same model, also inside the field generator",
     "Saving a calibrated problem and loading the file gives back the same configuration and parameter vector, and a problem rebuilt from them evaluates to the same spectra and lifetimes. "
     "A DRD field generator built from the file uses the saved length, time scale and learned lifetime. A file that was saved on a GPU machine loads on one without. Saving again replaces the earlier file; a missing target directory is an error or is created, never a silent loss.",
     ["inputs", "configurations", "histories"],
     "all lifetime types, architectures, parameter vectors, directory spellings, repeated saves",
     "tests load one pre-made file",
     [CAL, FFG], [("pickling", CAL + ":save_model"), ("loading", FFG + ":__init__")],
     "Hypothesis: save/load round-trip over generated models",
     "oracle: the model that was saved")

prop("C14", "Coherence data files are loaded onto the right grid and enter the fit correctly",
     "For every table of separation and frequency indices, in any row order, however the indices are numbered and with any rows missing, the loaded coherence arrays hold each row's values at its indices and NaN elsewhere, with the separations and frequencies of the file and up to four separations spread over the whole range. "
     "A fit with such a file uses the model coherence at k1 = factor f/U for those separations, with frequencies near zero treated as fully coherent, and the coherence term is part of every recorded loss from the initial one on.",
     ["inputs", "configurations"],
     "all grid sizes, row orders, missing rows, comments, conversion factors, velocities",
     "no stable test loads a coherence file",
     [CAL], [("parsing", CAL + ":load_coherence_data"), ("model coherence", CAL + ":_compute_model_coherence")],
     "Hypothesis: generated files vs index-addressed reference; first coherence loss vs reference",
     "round-trip through a generated text file; coherence reference from C07")

prop("C15", "Von Karman and Mann kernels are exact square roots of their spectral tensors",
     "For every frequency grid (zero and negative frequencies included) the kernels G(k) satisfy G G* = Phi(k) with Phi the von Karman tensor, respectively its rapid-distortion shear with the Mann lifetime. "
     "Every column of G is perpendicular to k, G(-k) is the complex conjugate of G(k), all values are finite, and G vanishes at k = 0; at k1 = 0 the sheared kernel is the limit of its neighbours.",
     ["inputs", "configurations"],
     "all frequency grids, L, amplitude, Gamma",
     "tests check shapes only",
     [COV], [("von Karman root", COV + ":VonKarmanCovariance.precompute_Spectrum"), ("sheared root", COV + ":MannCovariance.precompute_Spectrum")],
     "Hypothesis: generated grids vs RDT tensor oracle, symmetry/incompressibility invariants",
     "reference tensor integrates the RDT equations independently")

prop("C16", "The DRD kernel uses the fitted lifetime and scales",
     "A field generator built from a calibrated model has, up to one positive constant, the spectral tensor that the model was fitted with: wave vectors scaled by the reference height, fitted L and Gamma, and the learned lifetime. "
     "Its kernel is a finite, incompressible, Hermitian square root of that tensor for every frequency grid, in both floating-point precisions; a kernel built directly has exactly the energy constant and scales it is given.",
     ["inputs", "configurations"],
     "network weights, fitted scales, reference heights, frequency grids, default precision",
     "the generator and the fit are separate code paths that no test compares",
     [NNC, FFG], [("kernel", NNC + ":precompute_Spectrum"), ("scale conversion", FFG + ":__init__")],
     "Hypothesis: generated fitted models vs RDT tensor with numpy network oracle",
     "differential between the generator's kernel and the fit's model")

prop("C17", "Random-field sampling is the linear filter of the noise by the kernel",
     "For every grid shape and kernel the sampled vector field is the inverse real FFT of the kernel times the FFT of the noise with one fixed normalization: linear in the noise, commuting with periodic shifts, independent of earlier calls, and leaving the noise unchanged. "
     "The noise is white Gaussian with variance equal to the cell volume (also for cubic grids given by a scalar level), and reseeding reproduces it exactly.",
     ["inputs", "configurations", "histories"],
     "all grid shapes (odd, even, thin), spacings, kernels, noise fields, call sequences",
     "tests only generate one seeded field",
     [GRF, SAM], [("filtering", SAM + ":Sampling_VF_FFTW, Sampling_FFTW"), ("noise", GRF + ":sample_noise, reseed")],
     "Hypothesis: numpy FFT reference, linearity/shift metamorphic, stateful call sequences",
     "float64 numpy reference of the same filter; noise moments at 6 sigma")

prop("C18", "Field generation appends reproducible blocks of the requested shape",
     "For every model, grid, blending width and seed, generating n blocks appends n blocks of (2^level+1) points per axis to the field, finite everywhere, leaves the blocks already there untouched and returns the whole field. "
     "Equal seeds give equal fields however the blocks are distributed over calls, different seeds give different ones, and generators do not influence one another.",
     ["histories", "inputs", "configurations"],
     "all sequences of generate calls with varying block counts, profiles and interleaved generators",
     "appending, seeding and independence are properties of call histories; tests make one call",
     [FFG, GRF], [("accumulation", FFG + ":generate"), ("seeding", FFG + ":__init__, " + GRF + ":reseed")],
     "Hypothesis stateful (interleaved generators) vs single-call oracle",
     "oracle: a fresh generator with the same seed and one call")

prop("C19", "Blocks are normalized to unit fluctuation and carry the mean wind profile",
     "Every generated block minus the mean profile has unit root mean square over its three components, and the mean profile is the logarithmic or power law of the height on [0, height of the box], added to the streamwise component only. "
     "The fluctuation therefore does not depend on the friction velocity, the amplitude or the profile; non-positive reference values, unknown profiles or a missing exponent are rejected and leave the field as it was.",
     ["inputs", "configurations", "histories"],
     "profiles, reference values, exponents, grids, models, invalid arguments at any point of a history",
     "tests use one profile and never check the statistics or the state after an error",
     [FFG], [("normalization", FFG + ":_normalize_block"), ("profiles", FFG + ":log_law, power_law")],
     "Hypothesis: closed-form profile oracle, cross-configuration metamorphic, rejection histories",
     "profile recomputed in numpy; same-seed fields compared across configurations")

prop("C20", "The generated wind has the model's second-order statistics and no seams",
     "The covariance of the sampled field over all lags is, up to one positive constant, the inverse Fourier transform of the model's spectral tensor on the sampling grid, with incompressible Fourier modes. "
     "Consecutive blocks, within a call or across calls, join continuously: the jump at a seam is of the size of the increments inside a block, while distant blocks are independent.",
     ["inputs", "configurations", "histories"],
     "models, scales, grids, blending widths, numbers of blocks",
     "needs ensembles or exact operator identities; tests look at one realization",
     [FFG, SAM, COV], [("noise reuse between blocks", FFG + ":_generate_block"), ("correlation", SAM + ":Sampling_VF_FFTW")],
     "Hypothesis: exact covariance from impulse responses vs tensor oracle; seam statistics over generated seeds",
     "impulse responses make the covariance test exact; seam statistics with wide margins")

prop("C21", "The 2d+3d field is the 3d field plus the interpolated low-frequency field",
     "With a low-frequency model the generated field equals the one without it (same seed) plus, in the two horizontal components and identically at all heights, the bilinear interpolation of the 2d field at x continuing over all blocks and calls and y centred in the 2d domain, zero outside it. "
     "The vertical component is unchanged and the seed determines the whole field.",
     ["inputs", "configurations", "histories"],
     "low-frequency configurations, grids, block counts, sequences of calls, seeds",
     "no test composes the two models",
     [FFG, LF], [("composition", FFG + ":generate"), ("interpolation", LF + ":interp_slice")],
     "Hypothesis stateful: difference of two generators vs own bilinear interpolation",
     "oracle: own interpolation of the stored 2d field")

prop("C22", "The low-frequency grid covers user and statistical domains isotropically",
     "For every configuration the computational grid has equal spacing in both directions equal to the finer user spacing, even point counts, extends over at least five length scales and the user's domain in each direction by less than two extra cells, and the user grid has the requested 2^n points over the requested lengths. "
     "Domains smaller than recommended give a warning, never an error.",
     ["inputs", "configurations"],
     "all length factors, exponents and length scales",
     "tests sample six configurations",
     [LF], [("grid sizing", LF + ":_calculate_buffer_sizes")],
     "Hypothesis: invariants over generated configurations",
     "predicates over the resulting grid")

prop("C23", "The low-frequency field is incompressible with the Syed-Mann spectrum",
     "Every Fourier mode of the generated 2d field on the computational grid is perpendicular to its wave vector, the mean is zero, and the mode energies follow E(kappa)/(pi k) with kappa^2 = 2((k1 cos psi)^2 + (k2 sin psi)^2): exactly in ratio between parameter sets driven by the same noise, and on average in absolute size. "
     "The returned field is the centred part of that field with the requested point counts and spacing.",
     ["inputs", "configurations"],
     "sigma^2, L, psi, z_i, domain factors and resolutions, seeds, repeated generation",
     "tests check shape and a loose variance only",
     [LF], [("mode amplitudes", LF + ":_generate_numba_helper"), ("extraction", LF + ":_extract_field_portion")],
     "Hypothesis: spectral invariants, same-noise ratio metamorphic, pooled mode-energy statistics",
     "ratios are exact; absolute level pooled over thousands of modes at 6 sigma")

prop("C24", "Spectrum normalization and analytic low-frequency spectra are accurate",
     "For every parameter set the amplitude of the low-frequency spectrum is such that twice the integral of the energy spectrum equals sigma^2, and the analytic one-dimensional spectra equal the integrals of the two-dimensional spectrum over k2 between the given limits, to high relative accuracy. "
     "They are even in k1, proportional to sigma^2, and zero at k1 = 0.",
     ["inputs", "configurations"],
     "sigma^2, L from hundreds of metres to hundreds of kilometres, z_i, psi, k1 over decades, integration limits",
     "tests never compare with an independent quadrature",
     [LF], [("normalization", LF + ":_compute_c"), ("analytic spectra", LF + ":analytical_spectrum")],
     "Hypothesis: generated parameters vs independent log-scale quadrature",
     "dense Simpson rule in a logarithmic variable")

prop("C25", "Interpolation and spectrum estimation of the low-frequency field are exact",
     "Interpolating the low-frequency field reproduces it at its grid points, is bilinear between them, and is zero outside the user's domain, for any target coordinates. "
     "The estimated one-dimensional spectra equal the k2-sum of the field's periodogram, so that their integral over all k1 gives back the field's variance, with positive, increasing wave numbers.",
     ["inputs", "configurations"],
     "all target coordinates, field sizes and spacings",
     "tests call neither on known fields",
     [LF], [("interpolation", LF + ":interp_slice"), ("estimator", LF + ":compute_spectrum")],
     "Hypothesis: generated fields/targets vs own bilinear interpolation and periodogram",
     "reference in numpy; Parseval identity")

prop("C26", "Divergence, grids, VTK export and field figures carry the field unchanged",
     "The divergence operator gives the exact divergence of linear fields and central differences inside the box for any field and spacing, and rejects malformed input. "
     "The exported VTK image has the field's dimensions, the grid's spacing and every velocity value in its component; grid construction, component formatting and the figures carry coordinates, components and magnitudes without reordering.",
     ["inputs", "configurations"],
     "all field shapes, values and spacings",
     "no test reads back an export or a figure",
     [FFG, PLT], [("divergence", FFG + ":evaluate_divergence"), ("export", FFG + ":save_to_vtk"), ("figures", PLT)],
     "Hypothesis: linear-field oracle, finite-difference reference, VTK parse-back, figure data round-trip",
     "own parser of the VTK file")

prop("C27", "Calibration plots show the model and the data of the right component",
     "The six spectra panels show the model spectra divided by u*^2 (minus sign for uw) against the data's wave numbers, and the data of exactly the fitted components in the panel of the same component, for 3, 4 and 6 components and for stored or passed data. "
     "The lifetime plot shows the model's and the Mann lifetime over the same scaled wave numbers, and saving writes the files asked for. "
     "After a fit with coherence data the coherence panels show, for the selected separations, the file's values and the coherence of the current model.",
     ["inputs", "configurations"],
     "component counts, data tensors, scales, u*, both data sources",
     "no test inspects figures",
     [CAL], [("plot", CAL + ":plot")],
     "Hypothesis: generated data vs lines of the produced figures",
     "line data read back from matplotlib")

prop("C28", "Fit gradients are the derivatives of the model's spectra",
     "For every lifetime model that supports training, the gradient of the spectra with respect to the logarithmic scales, the learnable exponents and the network weights equals the numerical derivative of the spectra, the gradient of every loss term equals its numerical derivative, and so does that of the spectral coherence, however often it is evaluated. "
     "In particular every parameter the model exposes for training influences the spectra.",
     ["inputs", "configurations"],
     "lifetime types, scales, grids, weights, random output functionals",
     "a detached or stale term still lets a fit run and the loss decrease",
     [OPS, NN], [("differentiable evaluation", OPS + ":forward")],
     "Hypothesis: autograd vs central finite differences in float64",
     "directional derivatives along random parameter directions")

prop("C29", "The training log and the loss figure show every epoch's loss terms",
     "The TensorBoard log in the logging directory holds, for every active loss term (and coherence component) and every evaluation in order, step and value of that term, and nothing for inactive terms; "
     "the component ratios are the terms' shares of the running averages. The loss figure drawn from a log of any length shows exactly those series under their names. "
     "plot_losses(n) shows the n-th run of the directory in the order of the run's names, and nothing is written outside the given directory.",
     ["configurations", "histories"],
     "all sets of loss terms and weights, epoch counts, numbers of runs in a directory",
     "no test reads the log back or inspects the loss figure",
     [LOSS, CAL, COM], [("log writer", LOSS + ":eval"), ("loss figure", COM + ":plot_loss_logs"), ("run selection", CAL + ":plot_losses")],
     "Hypothesis: generated configurations; log and figure read back vs recorded loss history",
     "reads TensorBoard events and matplotlib lines back")

prop("C30", "Low-frequency figures and studies show the fields and spectra they name",
     "The velocity figure shows u1 and u2 with x to the right and y upwards over the domain's extent in km, with a colour range symmetric about zero that covers both. "
     "The spectra figures show the estimated k1 F11 and k1 F22 (their mean over the realizations where several are asked for) and the analytic ones against k1 L. "
     "The mesh, domain and anisotropy studies run every requested case with that case's settings, and report norms and variances of the mean field (for anisotropy: mean variances) on that case's own grid, leaving the given configuration unchanged.",
     ["inputs", "configurations"],
     "generator configurations, fields, numbers of realizations, study cases and angles",
     "no test runs the plotting or study helpers",
     [LFP, LF], [("spectra figures and studies", LFP + ":plot_spectra_comparison, recreate_fig2, mesh_independence_study, domain_size_study, anisotropy_study"), ("field figure", LF + ":plot_velocity_fields")],
     "Hypothesis: generated studies and figures read back vs own averages of the generated fields",
     "the study's generators are recorded and their fields averaged independently")

prop("C31", "Custom spectra files load into the data points and tensors they describe",
     "A CSV file whose first column is k1 and which names the columns uu, vv, ww, uw, vw, uv in any order, among others, loads into one data point per row (repeated and unsorted rows included), in order, with each component at its place in the tensor (uw negated, absent optional ones zero), "
     "so that a calibration uses those values. Missing files and files without a required component are rejected with an error.",
     ["inputs"],
     "all numbers of rows, values, number formats, column orders, additional and missing columns",
     "no test loads a custom spectra file",
     [GEN], [("custom data loader", GEN + ":CustomDataLoader")],
     "Hypothesis: generated files round-tripped through the loader",
     "oracle: the table that was written")

prop("C32", "Coherence data pull the calibrated model, with the configured weight",
     "In a calibration with a coherence file every optimization step follows the derivative of the whole loss, of which gamma_coherence times the mean squared difference of model and measured coherence is a part. "
     "Training therefore lowers that whole loss, which is what is recorded and reported; the model's own spectra and coherence leave it where it is, and with a weight of zero a coherence file has no influence on the result.",
     ["inputs", "configurations"],
     "lifetime types, scales, grids, separations, frequencies, coherence values, weights, optimizers, other loss terms",
     "no test calibrates with coherence data; a term without gradient still appears in the loss and lets the fit run",
     [CAL, OPS, LOSS], [("training loop", CAL + ":calibrate"), ("model coherence", CAL + ":_compute_model_coherence"), ("coherence", OPS + ":SpectralCoherence")],
     "Hypothesis: generated coherence fits; step direction vs finite differences of an independently assembled loss, descent, fixed points, metamorphic on the weight",
     "loss assembled from the model's spectra and coherence (C04, C07); first steps of Adam and LBFGS, loss before and after")

prop("C33", "Objects are independent of each other and of the process's global state",
     "The results of a model, fit, loss aggregator, data loader, field generator, low-frequency generator or sampler depend only on its own configuration, inputs, seed and earlier calls on it. "
     "Other objects constructed or used in between, of any kind and even with the same parameter objects, arrays, configuration dictionaries or files, leave them as they are, and so does the global random state once an object exists. "
     "No operation changes the parameter objects, arrays, tensors or dictionaries handed to it, or the process's settings (default precision, gradient mode, numpy error handling, print options, plot settings, working directory), and none draws from or reseeds the global random number generators (network weights and fit noise, which are drawn from torch's, excepted).",
     ["inputs", "configurations", "histories"],
     "kinds, configurations and number of objects, shared inputs, interleavings of operations, global random states, precisions",
     "tests use one object per process; a cache or a setting shared between objects shows up only with a second one",
     [OPS, CAL, LOSS, FFG, LF, GRF, SAM], [("random state", GRF + ":GaussianRandomField"), ("kernel", SAM + ":Sampling_method_freq"), ("state of a fit", CAL + ":CalibrationProblem")],
     "Hypothesis: generated programs over two or three objects; differential against each object on its own in another order and under other global random states; invariants on inputs and global state",
     "programs of up to nine operations; single-precision transforms to 3e-4")

prop("C34", "Requests that cannot be served raise and leave no trace",
     "Parameter vectors of the wrong length, data with missing values, absent files, wind profiles without valid arguments, divergences of fields or spacings of the wrong size, unknown models and sampling methods, "
     "non-positive scales, missing network parameters, incomplete low-frequency configurations, invalid numbers of components or of domain dimensions, and calls before their prerequisites raise instead of returning something. "
     "An object that has refused a request answers everything afterwards as if it had never been made: parameters, fields, histories and random streams are those without it, and no file or directory is left. "
     "The same request without its fault is served, also at the limits of what is valid.",
     ["inputs", "configurations", "histories"],
     "kinds of objects, faults and their values, position of refused requests in a history of served ones",
     "tests construct valid objects; what a failed call leaves behind shows only in the calls after it",
     [FFG, CAL, LOSS, LF, OPS, PAR, GRF], [("profile arguments", FFG + ":_check_profile"), ("parameter vector", CAL + ":parameters"), ("missing values", LOSS + ":eval"), ("configuration", LF + ":LowFreqGenerator")],
     "Hypothesis: generated histories with refused requests inserted; differential against the same history without them; generated faulty constructions next to valid ones",
     "histories of up to ten requests; a fit in single precision is followed by no comparison")

CLAIMED = None  # all


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f[1:3].isdigit()}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[], observe_at=[], hook_needed=None))) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd=f"python3 run_check.py {p['id']}",
                   thorough_cmd=f"python3 run_check.py {p['id']} --thorough",
                   technique=p["technique"], level="exploration", level_note=p["note"])
              for p in P if p["id"] in have]
    na = [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in have]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                       notes="see DESIGN.md; known findings and repaired defects: known-findings.txt"), f, indent=1)
    print(len(checks), "checks,", len(na), "not built")


main()

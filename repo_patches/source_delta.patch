From 04c5bc50c70542e3f780d2b70967d8099deb4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 01/39] fix: calibrate() failed with AttributeError unless the
 learnable spectrum is used

---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 21af3707be5181b5e7a560ad787a3afd6f8a5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 02/39] fix: init_with_noise always failed; add white noise to
 the parameters as documented

---
 drdmannturb/spectra_fitting/calibration.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..ca0f504 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -208,14 +208,8 @@ class CalibrationProblem:
 
     def initialize_parameters_with_noise(self):
         """Introduce additive white noise to the OPS parameters."""
-        noise = torch.tensor(
-            self.noise_magnitude * torch.randn(*self.parameters.shape),
-        )
-        vector_to_parameters(noise.abs(), self.OPS.parameters())
-
-        vector_to_parameters(noise, self.OPS.tauNet.parameters())
-
-        vector_to_parameters(noise.abs(), self.OPS.Corrector.parameters())
+        parameters = self.parameters
+        self.parameters = parameters + self.noise_magnitude * torch.randn(parameters.shape).numpy()
 
     def eval(self, k1: torch.Tensor) -> np.ndarray:
         r"""Evaluate the calibrated model on :math:`k_1`.
-- 
2.43.0


From 4da53c79509f5d1e1f0f0c06f1d931f1aa0b0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 03/39] fix: OnePointSpectra stored log10 of its scales but
 exponentiates them with base e

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..d70f727 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -137,13 +137,13 @@ class OnePointSpectra(nn.Module):
 
             self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma)))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L)))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma)))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma)))
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L), dtype=torch.get_default_dtype()))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma), dtype=torch.get_default_dtype()))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma), dtype=torch.get_default_dtype()))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L), dtype=torch.get_default_dtype()))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma), dtype=torch.get_default_dtype()))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
             self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-- 
2.43.0


From 814fdee60ef4e59913fb9e8397cf38c93e7e8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 04/39] fix: linear Mann lifetime approximation applied the
 length and time scales twice

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index d70f727..c58034c 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -443,7 +443,7 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        tau_true = np.log(MannEddyLifetime(kL_temp))
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From a808997ae7a5852f8c3b896e7938a39811838bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 05/39] fix: get_div used a missing attribute and swapped the
 12 and 23 components

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index c58034c..d1d761d 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -654,8 +654,8 @@ class OnePointSpectra(nn.Module):
         torch.Tensor
             Divergence of the spectral tensor in the frequency domain.
         """
-        k1, k2, k3 = self.freq
-        Phi11, Phi22, Phi33, Phi13, Phi12, Phi23 = Phi
+        k1, k2, k3 = self.k123
+        Phi11, Phi22, Phi33, Phi13, Phi23, Phi12 = Phi
         div = torch.stack(
             [
                 k1 * Phi11 + k2 * Phi12 + k3 * Phi13,
-- 
2.43.0


From cfaf54ebaecfb46a6f68dabc014bae7cdb3c3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 06/39] fix: evaluating the spectral tensor rescaled the stored
 energy spectrum in place

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index d1d761d..1db0316 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -376,7 +376,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0_coh /= 4 * torch.pi
+        E0_coh = E0_coh / (4 * torch.pi)
 
         Phi11 = E0_coh / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0_coh / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
@@ -585,7 +585,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0 /= 4 * torch.pi
+        E0 = E0 / (4 * torch.pi)
         Phi11 = E0 / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0 / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
         Phi33 = E0 / (kk**2) * (k1**2 + k2**2)
-- 
2.43.0


From d640c40dd5ea4e654cdf15fefa698894cddf10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 07/39] fix: DRD field generation failed with a dtype mismatch
 under the default torch dtype

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..78f7002 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,7 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.h_ref
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From dc4ef3546bc1351d9b9e8e9013522dbc7ae5cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 08/39] fix: DRD field generation evaluated the learned
 lifetime at k*h_ref instead of k*L

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 78f7002..54c858e 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,7 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.h_ref
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.L
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 414c0e24561f64b4658a5545c7132536cf725d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 09/39] fix: plot() swapped the F12 and F23 data of the
 calibration data set

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index ca0f504..61c0bef 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -845,8 +845,8 @@ class CalibrationProblem:
                         data_ops[:, 1, 1],  # vv
                         data_ops[:, 2, 2],  # ww
                         data_ops[:, 0, 2],  # uw
-                        data_ops[:, 1, 2],  # vw
                         data_ops[:, 0, 1],  # uv
+                        data_ops[:, 1, 2],  # vw
                     )
                 )
 
-- 
2.43.0


From 8963d61501d2cc27706fd9d7225a5431eeff58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 10/39] fix: load_coherence_data scrambled complete grids whose
 rows are not sorted

---
 drdmannturb/spectra_fitting/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 61c0bef..809c563 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1175,6 +1175,7 @@ class CalibrationProblem:
 
         # Read the data with header - the file has comments (#) and then a header row
         df = pd.read_csv(coherence_data_file, sep=r"\s+", comment="#", header=0)
+        df = df.sort_values(["sep_idx", "freq_idx"])
 
         print(f"Total data points read: {len(df)}")
         print(f"Column names: {df.columns.tolist()}")
-- 
2.43.0


From bba2e1024714faa42bc3295ebdf707e23978c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 11/39] fix: sheared kernels ignored the shear at k1 = 0, where
 zeta1 tends to -beta

---
 drdmannturb/fluctuation_generation/covariance_kernels.py | 2 +-
 drdmannturb/fluctuation_generation/nn_covariance.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/covariance_kernels.py b/drdmannturb/fluctuation_generation/covariance_kernels.py
index 097d5e1..457f791 100644
--- a/drdmannturb/fluctuation_generation/covariance_kernels.py
+++ b/drdmannturb/fluctuation_generation/covariance_kernels.py
@@ -229,7 +229,7 @@ class MannCovariance(Covariance):
             zeta3 = kk0 / kk
 
             # deal with divisions by zero
-            zeta1 = np.nan_to_num(zeta1)
+            zeta1 = np.where(k1 == 0, -beta, np.nan_to_num(zeta1))
             zeta2 = np.nan_to_num(zeta2)
             zeta3 = np.nan_to_num(zeta3)
 
diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 54c858e..268e8f0 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -153,7 +153,7 @@ class NNCovariance(Covariance):
             zeta3 = kk0 / kk
 
             # deal with divisions by zero
-            zeta1 = np.nan_to_num(zeta1)
+            zeta1 = np.where(k1 == 0, -beta, np.nan_to_num(zeta1))
             zeta2 = np.nan_to_num(zeta2)
             zeta3 = np.nan_to_num(zeta3)
 
-- 
2.43.0


From c17694007def78b35a3bd9f9359e6957c118f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 12/39] fix: repeated generate() calls restarted the
 low-frequency field at x = 0

---
 .../fluctuation_generation/fluctuation_field_generator.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..6720609 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -450,7 +450,9 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                # NOTE: continues after all blocks generated so far, including those of previous calls
+                num_prev_blocks = self.total_fluctuation.shape[0] / current_block_nx
+                x_start = num_prev_blocks * self.grid_dimensions[0]  # TODO: Revisit if blending affects start/end
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From 9c37969e73184de319726c75532ab28d21cb9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 13/39] fix: the generator's seed did not determine the
 low-frequency field

---
 .../fluctuation_field_generator.py                       | 2 +-
 .../low_frequency/fluctuation_field_generator.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 6720609..d587965 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,7 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            self.low_freq_gen = LowFreqGenerator(config_2d_model, seed=self.seed)
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..395a4eb 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed: int | None = None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,12 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : int, optional
+            Pseudo-random number generator seed, by default None, which uses the global ``np.random`` state.
         """
+        # A seeded generator has its own stream, distinct from the one of the 3D noise with the same seed
+        self.prng = np.random if seed is None else np.random.RandomState(np.append(seed, 2))
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +489,7 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        noise = self.prng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From 8da2f77b902cad4d4bde21a8dd7ae74075d69b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 14/39] fix: spectrum normalization missed the peak of the
 integrand for large length scales

---
 .../low_frequency/fluctuation_field_generator.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 395a4eb..7f3f708 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -277,7 +277,8 @@ class LowFreqGenerator:
 
             return (kappa**3) / denominator
 
-        integral_val, integral_err = integrate.quad(integrand_shape, 0, np.inf)
+        # Integrate in kappa * L_2d, so that the peak of the spectrum is always resolved
+        integral_val, integral_err = integrate.quad(lambda s: integrand_shape(s / L_2d) / L_2d, 0, np.inf)
 
         if integral_val < 1e-16:
             raise ValueError(
-- 
2.43.0


From 1fb31168d47c86abe7644575938d51f3b08c8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:53 +0000
Subject: [PATCH 15/39] fix: analytical_spectrum lost accuracy because quad
 missed the narrow k2 peak

---
 .../fluctuation_field_generator.py             | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 7f3f708..6ea1636 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -849,6 +849,16 @@ class LowFreqGenerator:
         integration_limit = abs(k2_limit)  # Ensure positive limit
         quad_kwargs = {"limit": 100, "epsabs": 1.49e-08, "epsrel": 1.49e-08}
 
+        def _integrate(integrand, k1: float) -> tuple[float, float]:
+            """Integrate over k2 = |k1| sinh(t): even in k2, and smooth in t at all scales of the spectrum."""
+            res, err = integrate.quad(
+                lambda t: integrand(abs(k1) * np.sinh(t), k1) * abs(k1) * np.cosh(t),
+                0.0,
+                np.arcsinh(integration_limit / abs(k1)),
+                **quad_kwargs,
+            )
+            return 2 * res, 2 * err
+
         if warn:
             print(f"Using integration limits for k2: [-{integration_limit:.2e}, {integration_limit:.2e}]")
 
@@ -862,9 +872,7 @@ class LowFreqGenerator:
                 continue
 
             try:
-                F11_res_arr[i], F11_err_arr[i] = integrate.quad(
-                    _integrand11, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
-                )
+                F11_res_arr[i], F11_err_arr[i] = _integrate(_integrand11, k1_val)
                 # Check for large relative error estimate
                 if warn and abs(F11_res_arr[i]) > 1e-12 and F11_err_arr[i] > 0.1 * abs(F11_res_arr[i]):
                     rel_err = F11_err_arr[i] / F11_res_arr[i]
@@ -876,9 +884,7 @@ class LowFreqGenerator:
                 F11_res_arr[i], F11_err_arr[i] = np.nan, np.nan
 
             try:
-                F22_res_arr[i], F22_err_arr[i] = integrate.quad(
-                    _integrand22, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
-                )
+                F22_res_arr[i], F22_err_arr[i] = _integrate(_integrand22, k1_val)
                 # Check for large relative error estimate
                 if warn and abs(F22_res_arr[i]) > 1e-12 and F22_err_arr[i] > 0.1 * abs(F22_res_arr[i]):
                     rel_err = F22_err_arr[i] / F22_res_arr[i]
-- 
2.43.0


From 1c43f370074a3b1df86c11e88e193874c6bd464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:07 +0000
Subject: [PATCH 16/39] fix: the parameters setter adopted the dtype and
 storage of the assigned vector

---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 809c563..1b53cce 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -193,6 +193,8 @@ class CalibrationProblem:
                 "p_low/q_high when use_learnable_spectrum is True."
             )
 
+        # cast to the model's precision and copy, so that the model does not adopt the vector's dtype and storage
+        param_vec = param_vec.to(dtype=self.OPS.logLengthScale.dtype, copy=True)
         vector_to_parameters(param_vec, self.OPS.parameters())
 
     def log_dimensional_scales(self) -> None:
-- 
2.43.0


From 701fb710a1b90fa91ab1847d715403ab9b736b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 17/39] fix: calibrate() failed on coherence data with a single
 frequency

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 1b53cce..17d1162 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -555,7 +555,7 @@ class CalibrationProblem:
             # Identify non-zero frequencies to avoid NaN issues at f=0
             min_freq = 1e-6  # Adjust this threshold if needed based on your frequency resolution
             nonzero_mask = torch.tensor(self.coherence_frequencies) > min_freq
-            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]
+            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask.numpy()]
 
             coherence_k1 = (factor * torch.tensor(coherence_freq_nonzero, dtype=torch.get_default_dtype())) / U_ref
 
-- 
2.43.0


From 4c3fa1894c95cabbd29daf5464d19489f5bfaa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 18/39] fix: save_to_vtk wrote an unreadable grid spacing with
 numpy 2

---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d587965..9461e74 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -515,7 +515,8 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        # plain floats: numpy scalars would be written to the file as "np.float64(...)"
+        spacing = tuple(float(h) for h in self.grid_dimensions / (2.0**self.grid_levels + 1))
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
-- 
2.43.0


From c9505d878e6210b8c64eb9cf042568a9ee2af951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 19/39] fix: save_to_vtk failed on pathlib paths

---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 9461e74..26a2735 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -525,7 +525,7 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(filepath, cellData=cellData, spacing=spacing)
+        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From 166098ea0f757c01293a0e9dec497280cd800c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 20/39] fix: figures of component-first fields (reshape=False)
 used the wrong grid

---
 drdmannturb/fluctuation_generation/wind_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/wind_plot.py b/drdmannturb/fluctuation_generation/wind_plot.py
index f15d1e1..a23bf96 100644
--- a/drdmannturb/fluctuation_generation/wind_plot.py
+++ b/drdmannturb/fluctuation_generation/wind_plot.py
@@ -80,10 +80,10 @@ def plot_velocity_components(
     go.Figure
         Plotly Figure object to be used in visualization.
     """
-    X, Y, Z = create_grid(spacing, wind_field.shape)
-
     formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
 
+    X, Y, Z = create_grid(spacing, formatted_wind_field[0].shape)
+
     fig = make_subplots(
         rows=1,
         cols=3,
@@ -196,10 +196,10 @@ def plot_velocity_magnitude(
     go.Figure
         Plotly Figure object to be used in visualization.
     """
-    X, Y, Z = create_grid(spacing, wind_field.shape)
-
     formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
 
+    X, Y, Z = create_grid(spacing, formatted_wind_field[0].shape)
+
     wind_magnitude = np.sqrt(formatted_wind_field[0] ** 2 + formatted_wind_field[1] ** 2 + formatted_wind_field[2] ** 2)
 
     fig = go.Figure(
-- 
2.43.0


From 815704c473aa69e2f094b9f5dbade83a8e205574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:44 +0000
Subject: [PATCH 21/39] fix: plot() showed the coherence of the initial instead
 of the fitted model

---
 drdmannturb/spectra_fitting/calibration.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 17d1162..89e3ca8 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1085,11 +1085,8 @@ class CalibrationProblem:
             coherence_labels = ["u", "v", "w"]
             colors = ["royalblue", "crimson", "forestgreen"]
 
-            # Get model coherence if available
-            if hasattr(self, "model_coherence_u"):
-                model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
-            else:
-                model_coherence = [None, None, None]
+            # Coherence of the current (fitted) model, not of the one the calibration started from
+            model_coherence = self._compute_model_coherence()
 
             # Plot for each selected spatial separation
             for row in range(4):  # 4 spatial separations
-- 
2.43.0


From 384a17d2b2d9d85db37028857e5e51481b877f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:35 +0000
Subject: [PATCH 22/39] fix: plot() without data raised AttributeError instead
 of the documented ValueError

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 89e3ca8..de63c3b 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -815,7 +815,7 @@ class CalibrationProblem:
                 )
 
         else:
-            if self.data is None:
+            if getattr(self, "data", None) is None:
                 raise ValueError("Requires data set to plot against.")
 
             k1_data_pts = self.data["k1"]
-- 
2.43.0


From d45c67b21a2e4a52e4b72afefb6c4b9416953678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 23/39] fix: a weight penalty with a lifetime model without
 network crashed the calibration

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index de63c3b..0fef250 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -423,7 +423,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0


From fef29da0bf6af34d3cc072092cf13ffc6d927380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 24/39] fix: plot_losses picked the run by arbitrary directory
 order

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 0fef250..9006fdf 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1153,7 +1153,7 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        log_fpath = sorted(listdir(self.logging_directory))[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From 94166c196be9ab089e669bffc7675a77c229f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 25/39] fix: mesh and domain studies accumulated the fields on
 the wrong grid and lost every result

---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index faa0302..36ccb74 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -20,8 +20,8 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
@@ -108,8 +108,8 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
-- 
2.43.0


From d6e3a38db37f075f2dec238cc3a407103ea73e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 26/39] fix: CustomDataLoader raised NameError/AttributeError
 on every file

---
 drdmannturb/spectra_fitting/data_generator.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index 5a94492..4c81528 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -158,18 +158,13 @@ class CustomDataLoader:
             raise ValueError("uv must be present in the ops_data_df")
 
 
-
-
-
-        ops_data = torch.zeros([len(self.ops_k1_domain), 3, 3])
-
-        ops_data[:, 0, 0] = data_df["uu"].to_numpy()
-        ops_data[:, 1, 1] = data_df["vv"].to_numpy()
-        ops_data[:, 2, 2] = data_df["ww"].to_numpy()
-        ops_data[:, 0, 2] = -1 * data_df["uw"].to_numpy()
-        ops_data[:, 1, 2] = data_df["vw"].to_numpy()
-        ops_data[:, 0, 1] = data_df["uv"].to_numpy()
-
+        # Columns in the order used by format_data(); absent components are zero
+        self.k1_domain = torch.tensor(self.ops_data_df.to_series(0).to_list(), dtype=torch.get_default_dtype())
+        self.CustomData = torch.zeros([len(self.k1_domain), 7])
+        self.CustomData[:, 0] = self.k1_domain
+        for idx, name in enumerate(["uu", "vv", "ww", "uw", "vw", "uv"], start=1):
+            if name in self.ops_data_df.columns:
+                self.CustomData[:, idx] = torch.tensor(self.ops_data_df[name].to_list())
 
     def format_data(self) -> dict[str, torch.Tensor]:
         r"""Provide a correctly formatted data dictionary based on provided data file."""
-- 
2.43.0


From ddb35afb9b0762129997a58c996a268b59088469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:03 +0000
Subject: [PATCH 27/39] fix: anisotropy_study with plots crashed for a single
 angle

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 36ccb74..b095e7a 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -749,7 +749,7 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
     # --- Setup Figure ---
     fig, axs = None, None
     if do_plot:
-        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True)
+        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True, squeeze=False)
         fig.suptitle(r"Generated Velocity Fields for different $\psi$ angles", fontsize=14)
     elif not do_plot:
         print("Plotting disabled.")
-- 
2.43.0


From 81dc094e1c5b2e602bea38825bd03608e9bd6bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:25 +0000
Subject: [PATCH 28/39] fix: the activations and layer widths of NNParameters
 were ignored by the model

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 1db0316..054863c 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -89,9 +89,11 @@ class OnePointSpectra(nn.Module):
 
         if type_eddy_lifetime == EddyLifetimeType.TAUNET:
             assert nn_parameters is not None, "TauNet EddyLifetimeType requires NNParameters!"
+            n_layers, activations = nn_parameters.nlayers, nn_parameters.activations
             self.tauNet = TauNet(
-                nn_parameters.nlayers,
-                nn_parameters.hidden_layer_size,
+                n_layers,
+                nn_parameters.hidden_layer_sizes or nn_parameters.hidden_layer_size,
+                [activations[i % len(activations)] for i in range(n_layers)] if activations else None,
                 learn_nu=learn_nu,
             )
 
-- 
2.43.0


From db3f3263aa9a05c342522c2e2124e2d3914ecbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:25 +0000
Subject: [PATCH 29/39] fix: the coherence integration settings were ignored by
 calibration problems

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 054863c..2084a68 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -107,6 +107,7 @@ class OnePointSpectra(nn.Module):
 
         if integration_params is None:
             integration_params = IntegrationParameters()
+        self.integration_params = integration_params
 
         ####
         # OPS grid
@@ -285,7 +286,8 @@ class OnePointSpectra(nn.Module):
         """
         self.exp_scales()
         if not hasattr(self, "coh_grid_k2") or not hasattr(self, "coh_grid_k3"):
-            p1, p2, N_coh = -3, 3, 100
+            p1, p2 = self.integration_params.coh_log_min, self.integration_params.coh_log_max
+            N_coh = self.integration_params.coh_num_points
             grid_zero_coh = torch.tensor([0], dtype=torch.get_default_dtype())
             grid_plus_coh = torch.logspace(p1, p2, N_coh)
             grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
-- 
2.43.0


From 2e575f4996c493437a12fa43a2fce61c284cd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:29 +0000
Subject: [PATCH 30/39] fix: models saved on a GPU could not be loaded on a
 machine without one

---
 .../fluctuation_generation/fluctuation_field_generator.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 26a2735..323fc6b 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -1,6 +1,5 @@
 """Wind generation functionality forward facing API."""
 
-import pickle
 from collections.abc import Callable
 from math import ceil
 from os import PathLike
@@ -132,7 +131,7 @@ class FluctuationFieldGenerator:
             # Load DRD model parameters
             device = "cuda" if torch.cuda.is_available() else "cpu"
             with open(path_to_parameters, "rb") as file:
-                params = pickle.load(file) if device == "cpu" else CPU_Unpickler(file).load()
+                params = CPU_Unpickler(file).load()
             nn_params, prob_params, loss_params, phys_params, model_params = params
 
             # Initialize calibration problem and get scales
-- 
2.43.0


From db2f33191bf809488ffab3ce4866cc5256535fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 31/39] fix: incomplete coherence files with indices not
 counted from zero were misplaced

---
 drdmannturb/spectra_fitting/calibration.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 9006fdf..01c566b 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1205,12 +1205,11 @@ class CalibrationProblem:
 
             # Fill in the available data
             for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
+                i = sep_mapping.index.get_loc(row["sep_idx"])
+                j = freq_mapping.index.get_loc(row["freq_idx"])
+                coh_u[i, j] = row["coh_u"]
+                coh_v[i, j] = row["coh_v"]
+                coh_w[i, j] = row["coh_w"]
 
             # Check how many NaN values we have
             nan_count = np.sum(np.isnan(coh_u))
-- 
2.43.0


From d012b3beda3f020e368e01d910946f6cd7d736b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 32/39] fix: the configured loss balancing frequency was
 ignored

---
 drdmannturb/spectra_fitting/loss_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/loss_functions.py b/drdmannturb/spectra_fitting/loss_functions.py
index bc5f4bb..f3e814d 100644
--- a/drdmannturb/spectra_fitting/loss_functions.py
+++ b/drdmannturb/spectra_fitting/loss_functions.py
@@ -101,7 +101,7 @@ class LossAggregator:
         }
 
         self.auto_balance = getattr(params, "auto_balance_losses", False)
-        self.balance_freq = 10
+        self.balance_freq = getattr(params, "balance_freq", 10)
         self.loss_scales: dict[str, float] = {}
 
         self.ema_decay = 0.9
-- 
2.43.0


From 2349041452033ecdefe33e5fa1c84c5b3f495782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 33/39] fix: the loss figure of a long training log showed a
 random subset of it

---
 drdmannturb/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..a9a886a 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -177,7 +177,8 @@ def plot_loss_logs(log_file: str | Path):
     log_file : Union[str, Path]
        Full path to training log to be visualized.
     """
-    event_acc = EventAccumulator(log_file)
+    # keep every event: by default longer logs are randomly subsampled
+    event_acc = EventAccumulator(log_file, size_guidance={"scalars": 0})
     event_acc.Reload()
 
     training_scalars = event_acc.Tags()["scalars"]
-- 
2.43.0


From 5ef7ae7ae402493d89d1aeae455e43eced17c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 34/39] fix: coherence data had no influence on the calibration
 (its loss term was evaluated without gradients)

---
 drdmannturb/spectra_fitting/calibration.py       | 8 +++++---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 01c566b..75c990a 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -446,7 +446,7 @@ class CalibrationProblem:
 
             coherence_data: dict | None = None
             if self.has_coherence_data:
-                model_coh_u, model_coh_v, model_coh_w = self._compute_model_coherence()
+                model_coh_u, model_coh_v, model_coh_w = self._compute_model_coherence(requires_grad=True)
 
                 coherence_data = {
                     "model_u": model_coh_u,
@@ -545,9 +545,11 @@ class CalibrationProblem:
 
         return self.calibrated_params
 
-    def _compute_model_coherence(self) -> tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
+    def _compute_model_coherence(
+        self, requires_grad: bool = False
+    ) -> tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         """Compute model coherence for the selected spatial separations."""
-        with torch.no_grad():
+        with torch.set_grad_enabled(requires_grad):
             # Add this: Convert frequency to wavenumber using U_ref (assume it's in self.phys_params or pass it)
             U_ref = self.phys_params.Uref
             factor = self.phys_params.wavenumber_conversion_factor  # New: Configurable factor (e.g., 2*pi or 1.0)
diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 2084a68..8170afb 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -293,7 +293,7 @@ class OnePointSpectra(nn.Module):
             grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
 
             # Scale the grid by 1/L to get proper physical units
-            scale_factor = 1.0 / self.LengthScale
+            scale_factor = 1.0 / self.LengthScale.detach()
 
             self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
             self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
-- 
2.43.0


From 4d60a52c731b5ee039c503b4d028bf52850703fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:28 +0000
Subject: [PATCH 35/39] fix: the initial loss of a calibration left out the
 coherence term

---
 drdmannturb/spectra_fitting/calibration.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 75c990a..f459b97 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -429,7 +429,20 @@ class CalibrationProblem:
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
         # print(f"[DEBUG calibrate] self.curves: {self.curves}")
 
-        self.loss = self.LossAggregator.eval(y[self.curves], y_data[self.curves], theta_NN, 0)
+        initial_coherence: dict | None = None
+        if self.has_coherence_data:
+            initial_coherence = {
+                "model_u": self.model_coherence_u,
+                "model_v": self.model_coherence_v,
+                "model_w": self.model_coherence_w,
+                "data_u": self.coherence_data_u_selected,
+                "data_v": self.coherence_data_v_selected,
+                "data_w": self.coherence_data_w_selected,
+            }
+
+        self.loss = self.LossAggregator.eval(
+            y[self.curves], y_data[self.curves], theta_NN, 0, coherence_data=initial_coherence
+        )
 
         print("=" * 40)
         print(f"Initial loss: {self.loss.item()}")
-- 
2.43.0


From 73478551b1aab8d0e6bba67c0bed21a64263f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 36/39] fix: noise of random fields on grids of scalar level
 had the variance of a length, not of a cell volume

---
 drdmannturb/fluctuation_generation/gaussian_random_fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/gaussian_random_fields.py b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
index 87a16d9..9c9688a 100644
--- a/drdmannturb/fluctuation_generation/gaussian_random_fields.py
+++ b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
@@ -105,7 +105,7 @@ class GaussianRandomField:
             if not np.isscalar(grid_shape):
                 raise ValueError("grid_level is scalar, so grid_shape should be as well.")
 
-            h = 1 / 2**grid_level
+            h = np.full(ndim, 1 / 2**grid_level)
             self.grid_shape = np.array([grid_shape] * ndim)
         else:
             assert len(grid_dimensions) == 3
-- 
2.43.0


From 2ecb10c83919be8c14ceaf847b58d97f1163b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 37/39] fix: a generate() call rejected for its profile
 arguments left a gap in the field

---
 .../fluctuation_field_generator.py            | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 323fc6b..c47833c 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -283,6 +283,24 @@ class FluctuationFieldGenerator:
 
         return wind
 
+    @staticmethod
+    def _check_profile(
+        zref: float,
+        uref: float,
+        z0: float,
+        windprofiletype: str,
+        plexp: float | None = None,
+    ) -> None:
+        """Raise ``ValueError`` if the arguments do not define a wind profile; see ``_normalize_block()``."""
+        if windprofiletype not in ["LOG", "PL"]:
+            raise ValueError('windprofiletype must be either "LOG" or "PL"')
+
+        if any(param <= 0 for param in [zref, uref, z0]):
+            raise ValueError("zref, uref, and z0 must all be positive")
+
+        if windprofiletype == "PL" and plexp is None:
+            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+
     def _normalize_block(
         self,
         curr_block: np.ndarray,
@@ -341,14 +359,7 @@ class FluctuationFieldGenerator:
         if not np.any(curr_block):
             raise ValueError("No fluctuation field has been generated. The .generate() method must be called first.")
 
-        if windprofiletype not in ["LOG", "PL"]:
-            raise ValueError('windprofiletype must be either "LOG" or "PL"')
-
-        if any(param <= 0 for param in [zref, uref, z0]):
-            raise ValueError("zref, uref, and z0 must all be positive")
-
-        if windprofiletype == "PL" and plexp is None:
-            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+        self._check_profile(zref, uref, z0, windprofiletype, plexp)
 
         sd = np.sqrt(np.mean(curr_block**2))
         curr_block /= sd
@@ -427,6 +438,10 @@ class FluctuationFieldGenerator:
                 If this is undesirable behavior, instantiate a new object."
             )
 
+        # NOTE: before any noise is drawn; a rejected call must not leave a gap in the field
+        if num_blocks > 0:
+            self._check_profile(zref, uref, z0, windprofiletype, plexp)
+
         for i in range(num_blocks):
             # --- Generate and normalize block ---
             t_block = self._generate_block()
-- 
2.43.0


From f1510af62aafecee9d542d863af7412b8a7235c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:43 +0000
Subject: [PATCH 38/39] fix: DomainParameters could not be constructed

---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 17c9bee9cfe9fcbb893114797804d32e5b67efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 39/39] fix: DomainParameters accepted tuples of the wrong
 length

---
 drdmannturb/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 9659614..4cb3ea2 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -220,7 +220,7 @@ class DomainParameters:
 
     def __post_init__(self):
         # Check grid dimensions
-        if isinstance(self.d_dimensions, (list, np.ndarray)) and len(self.d_dimensions) != 3:
+        if isinstance(self.d_dimensions, (tuple, list, np.ndarray)) and len(self.d_dimensions) != 3:
             raise ValueError("Grid dimensions must be length 3.")
 
         if isinstance(self.d_dimensions, np.ndarray):
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
+        if isinstance(self.d_levels, (tuple, list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


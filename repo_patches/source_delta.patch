From 2b99902b307e702de5e3d4e8380ac711455f50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 01/29] fix: fold fractional bins of odd-length transforms
 around N/2

Bins between floor(N/2) and N/2 were mirrored to the upper side, so the
result left the first Nyquist zone.
---
 python/src/adctoolbox/fundamentals/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/frequency.py b/python/src/adctoolbox/fundamentals/frequency.py
index ddabead..7b5cf87 100644
--- a/python/src/adctoolbox/fundamentals/frequency.py
+++ b/python/src/adctoolbox/fundamentals/frequency.py
@@ -162,7 +162,7 @@ def fold_bin_to_nyquist(bin_idx: float, n_fft: int) -> float:
     bin_idx = bin_idx % n_fft
 
     # For real signals, bins > n_fft/2 are mirrored
-    if bin_idx > n_fft // 2:
+    if bin_idx > n_fft / 2:
         bin_idx = n_fft - bin_idx
 
     return bin_idx
-- 
2.43.0


From 0e7cf11547c63720d4a0bfed5ad5423542242ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 02/29] fix: keep the mirror of bin (N-1)/2 when filtering
 odd-length records

The highest bin of an odd-length record lost its negative-frequency half
and came out with half its amplitude.
---
 python/src/adctoolbox/spectrum/extract_freq_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/extract_freq_components.py b/python/src/adctoolbox/spectrum/extract_freq_components.py
index 6ee06a3..ba960f9 100644
--- a/python/src/adctoolbox/spectrum/extract_freq_components.py
+++ b/python/src/adctoolbox/spectrum/extract_freq_components.py
@@ -63,7 +63,7 @@ def extract_freq_components(din, bands):
 
         # Set negative frequency bins (Hermitian symmetry)
         # Exclude DC (0) and Nyquist (N/2) to avoid double-setting
-        valid = ids[(ids > 0) & (ids < N // 2)]
+        valid = ids[(ids > 0) & (2 * ids < N)]
         mask[N - valid] = 1
 
     # Apply mask to all columns
-- 
2.43.0


From 974f44063eb525724f7488332f09845c61cc4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 03/29] fix: return as many samples as given from the tap-based
 delay

Records shorter than the filter came back with the filter's length.
---
 python/src/adctoolbox/timeinterleave/fractional_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/fractional_delay.py b/python/src/adctoolbox/timeinterleave/fractional_delay.py
index 266e2fe..27cff16 100644
--- a/python/src/adctoolbox/timeinterleave/fractional_delay.py
+++ b/python/src/adctoolbox/timeinterleave/fractional_delay.py
@@ -108,7 +108,7 @@ def fractional_delay_farrow(
         for j in range(n_taps):
             if j != i:
                 h[i] *= (p_eval - j) / (i - j)
-    return np.convolve(y, h, mode="same")
+    return np.convolve(y, h, mode="full")[P : P + x.size]
 
 
 def _integer_shift_zero_pad(x: np.ndarray, D: int) -> np.ndarray:
-- 
2.43.0


From 66d1c0fd5c4f765e53eb821c8dfe777c08a5454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 04/29] fix: raise the intended error when the spur predictor
 has no input frequency

---
 python/src/adctoolbox/timeinterleave/predict_spurs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/timeinterleave/predict_spurs.py b/python/src/adctoolbox/timeinterleave/predict_spurs.py
index 5138499..71ef9ad 100644
--- a/python/src/adctoolbox/timeinterleave/predict_spurs.py
+++ b/python/src/adctoolbox/timeinterleave/predict_spurs.py
@@ -60,9 +60,10 @@ def predict_spurs(
     A_in = float(params.get("A", 1.0))
 
     if fin is None:
-        fin = float(params.get("fin"))
+        fin = params.get("fin")
         if fin is None:
             raise ValueError("fin must be provided via argument or params['fin']")
+        fin = float(fin)
 
     M = gain.size
     if not (offset.size == M and skew.size == M):
-- 
2.43.0


From 758035191256ab5336e52adbbf609ac30d0f92d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 05/29] fix: report a skill copy as out of sync when a file
 became a directory

Entries of different type under the same name were ignored by the status.
---
 python/src/adctoolbox/skill_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index affd571..0a1a856 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -75,7 +75,7 @@ def bundled_skill_dir(skill_name: str) -> Path:
 def _dirs_equal(left: Path, right: Path) -> bool:
     """Return True when two small directory trees have identical file content."""
     cmp = filecmp.dircmp(left, right)
-    if cmp.left_only or cmp.right_only or cmp.funny_files:
+    if cmp.left_only or cmp.right_only or cmp.funny_files or cmp.common_funny:
         return False
     for name in cmp.common_files:
         if not filecmp.cmp(left / name, right / name, shallow=False):
-- 
2.43.0


From 3f82f150e26b94a38e6491885fa36ecb1932ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:02 +0000
Subject: [PATCH 06/29] fix: accept boolean bit matrices in digital data
 validation

The value check allows bool, int and float, but the numeric check
rejected bool first.
---
 python/src/adctoolbox/fundamentals/validate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index cdac8cb..c47ee6c 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -74,6 +74,9 @@ def validate_dout_data(bits, min_samples=100):
     Expects: (N_samples, N_bits) matrix.
     """
     # Step 1: Basic checks (Reused)
+    bits = np.asarray(bits)
+    if bits.dtype == bool:
+        bits = bits.astype(np.int8)
     data = _validate_basic_integrity(bits, name="Digital Data")
 
     # Step 2: Dimension Check
-- 
2.43.0


From 56d2025a3af232d9d6c98c6168cefa5fe9da2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:25 +0000
Subject: [PATCH 07/29] fix: read calibration search and multi-capture
 coefficients from their own columns

The solver places the frequency-derivative columns right after the offsets,
but the search read its corrections from the end of the vector, and the
harmonic coefficients of the second and later captures were read at shifted
positions. Weights and fitted sines were wrong whenever the search ran or
several captures were given. The derivative step also keeps the basis the
derivatives were computed in.
---
 .../adctoolbox/calibration/_lstsq_solver.py   | 35 +++++++++----------
 .../adctoolbox/calibration/_post_process.py   | 24 +++++--------
 .../calibration/calibrate_weight_sine.py      |  2 +-
 3 files changed, 26 insertions(+), 35 deletions(-)

diff --git a/python/src/adctoolbox/calibration/_lstsq_solver.py b/python/src/adctoolbox/calibration/_lstsq_solver.py
index ce951da..969b71f 100644
--- a/python/src/adctoolbox/calibration/_lstsq_solver.py
+++ b/python/src/adctoolbox/calibration/_lstsq_solver.py
@@ -65,10 +65,11 @@ def _dual_basis_lstsq(
     offset_matrix: np.ndarray,
     deriv_matrix: np.ndarray | None = None,
     verbose: int = 0,
+    basis: int | None = None,
 ) -> tuple[np.ndarray, int, float]:
     """
     Core dual-basis solver: tries both cosine=1 and sine=1 assumptions.
-    Returns the solution with the minimum residual.
+    Returns the solution with the minimum residual, or the one of the given basis.
     """
     # Combine extra columns (Offsets and potentially Frequency Derivatives)
     extra_cols = [offset_matrix]
@@ -93,7 +94,7 @@ def _dual_basis_lstsq(
         print(f"\nDEBUG: err1 (Cos assumption) = {err1:.2e}")
         print(f"DEBUG: err2 (Sin assumption) = {err2:.2e}")
 
-    if err1 < err2:
+    if basis == 0 or (basis is None and err1 < err2):
         return coeffs1, 0, float(err1)
     else:
         return coeffs2, 1, float(err2)
@@ -274,6 +275,11 @@ def _solve_weights_searching_freq(
         # Extract coefficients based on which basis is unity
         # Layout when basis_choice=0: [weights, DC, cos_harmonics[1:], sin_harmonics[:]]
         # Layout when basis_choice=1: [weights, DC, sin_harmonics[1:], cos_harmonics[:]]
+        # Only the very first harmonic column (dataset 0, fundamental) is the implicit unity.
+        unity_coeffs = np.concatenate(
+            [[1.0], coeffs_temp[harmonic_start : harmonic_start + unity_harmonics_size]]
+        )
+        other_coeffs = coeffs_temp[harmonic_start + unity_harmonics_size :]
         derivative_cols = []
         row_start = 0
         harmonic_orders = np.arange(1, harmonic_order + 1)
@@ -282,24 +288,13 @@ def _solve_weights_searching_freq(
             n_samples_k = segment_lengths[k]
 
             # For dataset k, find its harmonics in the coefficient vector
+            cols_k = slice(k * harmonic_order, (k + 1) * harmonic_order)
             if basis_choice_temp == 0:
                 # Cosine is unity: [weights, DC, cos[1:], sin[:]]
-                # cos[0] is implicit 1, cos[1:] are in coeffs
-                # For dataset k, cos harmonics are at columns k*harmonic_order : (k+1)*harmonic_order
-                h_idx = harmonic_start + k * (harmonic_order - 1)
-                cos_coeffs_k = np.concatenate([[1.0], coeffs_temp[h_idx : h_idx + harmonic_order - 1]])
-
-                # Sin coefficients start after cos
-                sin_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
+                cos_coeffs_k, sin_coeffs_k = unity_coeffs[cols_k], other_coeffs[cols_k]
             else:
                 # Sine is unity: [weights, DC, sin[1:], cos[:]]
-                sin_idx = harmonic_start + (k * harmonic_order - 1)
-                sin_coeffs_k = coeffs_temp[sin_idx : sin_idx + harmonic_order]
-
-                # Cos coefficients start after sin
-                cos_idx = harmonic_start + unity_harmonics_size + k * harmonic_order
-                cos_coeffs_k = coeffs_temp[cos_idx : cos_idx + harmonic_order]
+                sin_coeffs_k, cos_coeffs_k = unity_coeffs[cols_k], other_coeffs[cols_k]
 
             # Build coefficient matrices
             cos_coeffs_weighted = cos_coeffs_k * harmonic_orders
@@ -334,10 +329,12 @@ def _solve_weights_searching_freq(
             offset_matrix,
             deriv_matrix,
             verbose=verbose,
+            basis=basis_choice_temp,  # the derivatives are only valid in this basis
         )
 
-        # Extract frequency corrections (last num_datasets elements)
-        delta_f_raw = coeffs[-num_datasets:]
+        # Extract frequency corrections: derivative columns sit right after the offsets
+        delta_f_raw = coeffs[harmonic_start : harmonic_start + num_datasets]
+        coeffs = np.delete(coeffs, np.arange(harmonic_start, harmonic_start + num_datasets))
         delta_f_array = delta_f_raw * learning_rate / segment_lengths
 
         # Compute relative error using first harmonic magnitude for normalization
@@ -360,4 +357,4 @@ def _solve_weights_searching_freq(
         if relerr < reltol:
             break
 
-    return freq_array, coeffs[:-num_datasets], basis_choice, cos_basis, sin_basis
+    return freq_array, coeffs, basis_choice, cos_basis, sin_basis
diff --git a/python/src/adctoolbox/calibration/_post_process.py b/python/src/adctoolbox/calibration/_post_process.py
index 66d43ae..b92f87f 100644
--- a/python/src/adctoolbox/calibration/_post_process.py
+++ b/python/src/adctoolbox/calibration/_post_process.py
@@ -115,23 +115,17 @@ def _reconstruct_sine_k(
     # The size of the first half of harmonic columns (where one fund is unity)
     unity_side_size = num_harm_total - 1 
 
+    # Only the first column (dataset 0, fundamental) is the implicit 1.0
+    unity_coeffs = np.concatenate(
+        [[1.0], solution_vector[harm_start : harm_start + unity_side_size]]
+    )
+    other_coeffs = solution_vector[harm_start + unity_side_size :]
+    cols_k = slice(k * harmonic_order, (k + 1) * harmonic_order)
+
     if basis_choice == 0:  # Cosine is unity
-        # Cosine coeffs: first one is implicit 1.0, others are in solution_vector
-        # Indices for dataset k: harm_start + k*(H-1) : harm_start + (k+1)*(H-1)
-        h_idx = harm_start + k * (harmonic_order - 1)
-        cos_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Sine coeffs: all are in solution_vector, after the unity_side_size block
-        sin_idx = harm_start + unity_side_size + k * harmonic_order
-        sin_coeffs_k = solution_vector[sin_idx : sin_idx + harmonic_order]
+        cos_coeffs_k, sin_coeffs_k = unity_coeffs[cols_k], other_coeffs[cols_k]
     else:  # Sine is unity
-        # Sine coeffs: first one is implicit 1.0
-        h_idx = harm_start + k * (harmonic_order - 1)
-        sin_coeffs_k = np.concatenate([[1.0], solution_vector[h_idx : h_idx + harmonic_order - 1]])
-        
-        # Cosine coeffs
-        cos_idx = harm_start + unity_side_size + k * harmonic_order
-        cos_coeffs_k = solution_vector[cos_idx : cos_idx + harmonic_order]
+        sin_coeffs_k, cos_coeffs_k = unity_coeffs[cols_k], other_coeffs[cols_k]
 
     # Reference = -(Basis_Cos * Coeffs_Cos + Basis_Sin * Coeffs_Sin) / Norm
     return -(cos_basis_k @ cos_coeffs_k + sin_basis_k @ sin_coeffs_k) / norm_factor
diff --git a/python/src/adctoolbox/calibration/calibrate_weight_sine.py b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
index 0e7387a..754c2a9 100644
--- a/python/src/adctoolbox/calibration/calibrate_weight_sine.py
+++ b/python/src/adctoolbox/calibration/calibrate_weight_sine.py
@@ -148,7 +148,7 @@ def calibrate_weight_sine(
 
     num_datasets = len(bits_segments)
     num_harm_total = num_datasets * harmonic_order
-    idx_quadrature = bit_width_effective + num_harm_total
+    idx_quadrature = bit_width_effective + num_datasets + num_harm_total - 1
     norm_factor = np.sqrt(1.0 + coeffs[idx_quadrature]**2)
 
     w_phys_effective = _recover_columns_for_conditioning(
-- 
2.43.0


From aae877dc9284def4c8aa21d30b84728d06fb0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:07 +0000
Subject: [PATCH 08/29] fix: import the decibel conversion from where it lives
 in the Vpp calculator

---
 python/src/adctoolbox/utils/vpp_for_target_dbfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
index 6ffade7..83dabe8 100644
--- a/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
+++ b/python/src/adctoolbox/utils/vpp_for_target_dbfs.py
@@ -5,7 +5,7 @@ Calculates the required input amplitude (Vpp) to achieve a specific target
 signal level (dBFS). Useful for automated instrument control loops.
 """
 
-from adctoolbox.common.unit_conversions import db_to_mag
+from adctoolbox.fundamentals.units import db_to_mag
 
 def vpp_for_target_dbfs(vpp_current: float, signal_db_measured: float, signal_db_target: float = -0.5) -> float:
     """
-- 
2.43.0


From a2c99fb6f810f40f0001af9552ff2f1a8eb0d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:16 +0000
Subject: [PATCH 09/29] fix: keep the main lobe together when aligning windowed
 runs coherently

---
 .../spectrum/_align_spectrum_phase.py         | 21 ++++++++++++-------
 .../spectrum/_spectrum_averaging.py           |  9 ++++++--
 .../adctoolbox/spectrum/compute_spectrum.py   |  4 +++-
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/python/src/adctoolbox/spectrum/_align_spectrum_phase.py b/python/src/adctoolbox/spectrum/_align_spectrum_phase.py
index 7c8c1ef..38adb89 100644
--- a/python/src/adctoolbox/spectrum/_align_spectrum_phase.py
+++ b/python/src/adctoolbox/spectrum/_align_spectrum_phase.py
@@ -6,7 +6,9 @@ This module implements the phase alignment algorithm for FFT coherent mode.
 
 import numpy as np
 
-def _align_spectrum_phase(fft_data: np.ndarray, bin_idx: int, bin_r: float, n_fft: int) -> np.ndarray:
+def _align_spectrum_phase(
+    fft_data: np.ndarray, bin_idx: int, bin_r: float, n_fft: int, lobe_bins: int = 0
+) -> np.ndarray:
     """
     Align the phase of an FFT spectrum to phase 0 at the fundamental frequency.
 
@@ -25,6 +27,9 @@ def _align_spectrum_phase(fft_data: np.ndarray, bin_idx: int, bin_r: float, n_ff
         Refined fundamental frequency bin (with sub-bin precision)
     n_fft : int
         FFT length
+    lobe_bins : int
+        Half width of the window main lobe; these neighbours of a harmonic carry
+        its phase and are rotated together with it
 
     Returns
     -------
@@ -68,16 +73,18 @@ def _align_spectrum_phase(fft_data: np.ndarray, bin_idx: int, bin_r: float, n_ff
             # Even zone: normal aliasing
             bin_pos = int(harmonic_freq - np.floor(harmonic_freq / n_fft) * n_fft)
 
-            if not processed[bin_pos]:
-                fft_aligned[bin_pos] *= harmonic_phasor
-                processed[bin_pos] = True
+            rotation = harmonic_phasor
         else:
             # Odd zone: mirrored aliasing (use conjugate)
             bin_pos = int(n_fft - harmonic_freq + np.floor(harmonic_freq / n_fft) * n_fft)
 
-            if 0 <= bin_pos < n_fft and not processed[bin_pos]:
-                fft_aligned[bin_pos] *= np.conj(harmonic_phasor)
-                processed[bin_pos] = True
+            rotation = np.conj(harmonic_phasor)
+
+        # The whole main lobe of the harmonic turns with it
+        lobe = slice(max(bin_pos - lobe_bins, 0), min(bin_pos + lobe_bins + 1, n_fft))
+        pending = ~processed[lobe]
+        fft_aligned[lobe][pending] *= rotation
+        processed[lobe] = True
 
         # Accumulate phase for next harmonic
         harmonic_phasor *= phasor
diff --git a/python/src/adctoolbox/spectrum/_spectrum_averaging.py b/python/src/adctoolbox/spectrum/_spectrum_averaging.py
index 20f2f3c..77a8e51 100644
--- a/python/src/adctoolbox/spectrum/_spectrum_averaging.py
+++ b/python/src/adctoolbox/spectrum/_spectrum_averaging.py
@@ -43,7 +43,8 @@ def _power_average(
 
 def _coherent_average(
     data_processed: np.ndarray,
-    osr: int
+    osr: int,
+    lobe_bins: int = 0
 ) -> tuple[np.ndarray, np.ndarray]:
     """Compute coherent-averaged spectrum with phase alignment.
 
@@ -57,6 +58,8 @@ def _coherent_average(
         Windowed data, shape (M runs, N samples)
     osr
         Oversampling ratio for fundamental search range
+    lobe_bins
+        Half width of the window main lobe in bins
 
     Returns
     -------
@@ -95,7 +98,9 @@ def _coherent_average(
             original_fundamental_phase = np.angle(fft_data[fundamental_bin])
 
         # Phase alignment (MATLAB plotspec.m:292-322)
-        fft_aligned = _align_spectrum_phase(fft_data, fundamental_bin, fundamental_bin_frantional, N)
+        fft_aligned = _align_spectrum_phase(
+            fft_data, fundamental_bin, fundamental_bin_frantional, N, lobe_bins
+        )
         spec_coherent_sum += fft_aligned
         n_valid_runs += 1
 
diff --git a/python/src/adctoolbox/spectrum/compute_spectrum.py b/python/src/adctoolbox/spectrum/compute_spectrum.py
index 906de16..0e97d71 100644
--- a/python/src/adctoolbox/spectrum/compute_spectrum.py
+++ b/python/src/adctoolbox/spectrum/compute_spectrum.py
@@ -71,7 +71,9 @@ def compute_spectrum(
     data_windowed = data_normalized * window_vector
 
     if coherent_averaging:
-        power_spectrum, complex_spectrum = _coherent_average(data_windowed, osr)
+        power_spectrum, complex_spectrum = _coherent_average(
+            data_windowed, osr, _get_default_side_bin(win_type)
+        )
     else:
         power_spectrum, complex_spectrum = _power_average(data_windowed)
 
-- 
2.43.0


From 42277339a716baf7c5a6f667588d7133b7b3cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:39 +0000
Subject: [PATCH 10/29] fix: count the residual in the oversampling sweep as
 power, like the signal

---
 python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
index 96ea5b3..194d956 100644
--- a/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
+++ b/python/src/adctoolbox/spectrum/sweep_performance_vs_osr.py
@@ -70,8 +70,11 @@ def sweep_performance_vs_osr(
     err = data - sig_fit
     win = 0.5 * (1 - np.cos(2 * np.pi * np.arange(n) / n))
     err_windowed = err * win / np.sqrt(np.mean(win ** 2))
-    err_spec = np.abs(np.fft.fft(err_windowed)) ** 2 / n ** 2 * 4  # one-sided scaling
+    err_spec = np.abs(np.fft.fft(err_windowed)) ** 2 / n ** 2 * 2  # one-sided power, like sig_power
     err_spec = err_spec[:n // 2 + 1]
+    err_spec[0] /= 2.0
+    if n % 2 == 0:
+        err_spec[-1] /= 2.0
 
     # Signal power (constant)
     sig_power = amplitude ** 2 / 2
-- 
2.43.0


From 0e810f61301cf6270aa416226e091a554e2cc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:11 +0000
Subject: [PATCH 11/29] fix: drop degenerate harmonics from the least-squares
 decomposition

---
 python/src/adctoolbox/aout/_fit_sine_harmonics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/_fit_sine_harmonics.py b/python/src/adctoolbox/aout/_fit_sine_harmonics.py
index b011b2b..bff330c 100644
--- a/python/src/adctoolbox/aout/_fit_sine_harmonics.py
+++ b/python/src/adctoolbox/aout/_fit_sine_harmonics.py
@@ -103,7 +103,9 @@ def _fit_sine_harmonics(
         basis_matrix = harmonic_basis
 
     # Solve least-squares problem
-    W, residuals, rank, s = np.linalg.lstsq(basis_matrix, sig, rcond=None)
+    # Harmonics that fold onto DC, Nyquist or each other leave columns that are
+    # zero or dependent up to rounding; the cutoff keeps them out of the solution.
+    W, residuals, rank, s = np.linalg.lstsq(basis_matrix, sig, rcond=1e-9)
 
     # Reconstruct fitted signal
     fitted_signal = basis_matrix @ W
-- 
2.43.0


From e03d93e342d49b7a5c45410ba7705beed7821e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:19 +0000
Subject: [PATCH 12/29] fix: compare installed skill files afresh on every
 status query

The comparison results were cached by size and modification time, so a file
changed within the same process could still be reported as in sync.
---
 python/src/adctoolbox/skill_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/adctoolbox/skill_cli.py b/python/src/adctoolbox/skill_cli.py
index 0a1a856..222b6b8 100644
--- a/python/src/adctoolbox/skill_cli.py
+++ b/python/src/adctoolbox/skill_cli.py
@@ -114,6 +114,7 @@ def skill_status(
                 synced = False
         elif target_dir.is_dir():
             mode = "copy"
+            filecmp.clear_cache()
             synced = _dirs_equal(source_dir, target_dir)
         elif target_dir.exists():
             mode = "non-directory"
-- 
2.43.0


From 89be9ddfe490b9af013012818427782f3712694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:00 +0000
Subject: [PATCH 13/29] fix: avoid integer overflow in the analog range
 validation

Narrow signed integer records spanning more than half their type were
reported as having an extremely low amplitude.
---
 python/src/adctoolbox/fundamentals/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index c47ee6c..020f852 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -58,7 +58,8 @@ def validate_aout_data(aout_data, min_samples=100):
         raise ValueError(f"Insufficient analog samples ({n_samples}), need at least {min_samples}.")
 
     # Step 3: Physics/Signal Checks
-    data_range = np.ptp(data) # Peak-to-peak (max - min)
+    # Peak-to-peak (max - min), in Python numbers so that narrow integer types cannot overflow
+    data_range = data.max().item() - data.min().item()
     
     if data_range == 0:
         raise ValueError("Analog data is constant (flatline). Check connections.")
-- 
2.43.0


From b40ce3647b1d719694a822b0c0a20b7075b9f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:00 +0000
Subject: [PATCH 14/29] fix: count ones in double precision when looking for
 stuck bits

Half precision bit matrices lost counts, so a stuck bit went unnoticed.
---
 python/src/adctoolbox/fundamentals/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/validate.py b/python/src/adctoolbox/fundamentals/validate.py
index 020f852..4bb80c7 100644
--- a/python/src/adctoolbox/fundamentals/validate.py
+++ b/python/src/adctoolbox/fundamentals/validate.py
@@ -109,7 +109,7 @@ def validate_dout_data(bits, min_samples=100):
 
     # Step 4: Stuck Bit Check (High value warning)
     # Sum along time axis
-    bit_sums = np.sum(data, axis=0)
+    bit_sums = np.sum(data, axis=0, dtype=np.float64)
     
     stuck_low = np.where(bit_sums == 0)[0]
     stuck_high = np.where(bit_sums == n_samples)[0]
-- 
2.43.0


From 6d04465c21c1b23b71cea6f2a39d3a2a4395ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:18 +0000
Subject: [PATCH 15/29] fix: leave open figures alone when error spectra are
 computed without a plot

With plotting off, the spectrum was drawn into the current figure, which was
then closed.
---
 .../adctoolbox/aout/analyze_error_envelope_spectrum.py   | 9 +--------
 python/src/adctoolbox/aout/analyze_error_spectrum.py     | 9 +--------
 2 files changed, 2 insertions(+), 16 deletions(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
index f60e6fb..e9997da 100644
--- a/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_envelope_spectrum.py
@@ -100,14 +100,7 @@ def analyze_error_envelope_spectrum(signal, fs=1, frequency=None, create_plot: b
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(env, fs=fs, show_label=False, max_harmonic=5, create_plot=False)
 
     # Add error signal and envelope to result
     result['error_signal'] = error_signal
diff --git a/python/src/adctoolbox/aout/analyze_error_spectrum.py b/python/src/adctoolbox/aout/analyze_error_spectrum.py
index 81819f5..add64b1 100644
--- a/python/src/adctoolbox/aout/analyze_error_spectrum.py
+++ b/python/src/adctoolbox/aout/analyze_error_spectrum.py
@@ -89,14 +89,7 @@ def analyze_error_spectrum(signal, fs=1, frequency=None, create_plot: bool = Tru
             plt.gca().set_title(title, fontsize=10, fontweight='bold')
     else:
         # Analyze without plotting
-        import matplotlib
-        backend_orig = matplotlib.get_backend()
-        matplotlib.use('Agg')  # Non-interactive backend
-
-        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5)
-        plt.close()
-
-        matplotlib.use(backend_orig)  # Restore original backend
+        result = analyze_spectrum(error_signal, fs=fs, show_label=False, max_harmonic=5, create_plot=False)
 
     # Add error signal to results
     result['error_signal'] = error_signal
-- 
2.43.0


From 05bbf1ac3f917feb17097851acd202f3ad44dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:35 +0000
Subject: [PATCH 16/29] fix: calibrate boolean codes with unused or tied bits

The dead-bit test subtracts column values, which numpy refuses for booleans,
so boolean bit matrices were accepted only when every bit was independent.
---
 python/src/adctoolbox/calibration/_patch_rank_deficiency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
index ede1baf..39c6756 100644
--- a/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
+++ b/python/src/adctoolbox/calibration/_patch_rank_deficiency.py
@@ -55,7 +55,7 @@ def _patch_rank_deficiency(
     bit_weight_ratios = np.zeros(bit_width)
 
     for bit_idx in range(bit_width):
-        col = bits_stacked[:, bit_idx]
+        col = bits_stacked[:, bit_idx].astype(float)
 
         # Case A: Constant column = dead bit, drop it
         # bit_to_col_map stays -1, bit_weight_ratios stays 0, eff_col_to_bit unchanged
-- 
2.43.0


From 59475fe35f77ad58dc0a705faff08d83ec8c8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:38 +0000
Subject: [PATCH 17/29] fix: return the binned values from plot_error_hist_code

The wrapper read a result key that does not exist, so the last element of the
historical tuple was always None.
---
 python/src/adctoolbox/aout/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/__init__.py b/python/src/adctoolbox/aout/__init__.py
index 843267c..1f187b6 100644
--- a/python/src/adctoolbox/aout/__init__.py
+++ b/python/src/adctoolbox/aout/__init__.py
@@ -8,6 +8,8 @@ This subpackage defines the public API of the AOUT analysis domain.
 # Value / Phase error analysis
 # ----------------------------------------------------------------------
 
+import numpy as np
+
 from adctoolbox.aout.analyze_error_by_value import analyze_error_by_value
 from adctoolbox.aout.analyze_error_by_phase import analyze_error_by_phase
 from adctoolbox.aout.rearrange_error_by_value import rearrange_error_by_value
@@ -160,7 +162,7 @@ def plot_error_hist_code(signal, bins=100, freq=None, disp=1, **kwargs):
         result.get('error_rms'),
         result.get('bin_centers'),
         result.get('error'),
-        result.get('value'),
+        np.asarray(signal).flatten(),
     )
 
 # ----------------------------------------------------------------------
-- 
2.43.0


From aa70effa7c421299de400f2d9de5e9316c5a3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:59 +0000
Subject: [PATCH 18/29] fix: label tones between 1 Hz and 1 kHz with their
 frequency in Hz

---
 python/src/adctoolbox/spectrum/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/plot_spectrum.py b/python/src/adctoolbox/spectrum/plot_spectrum.py
index 8eee64c..b14d3cb 100644
--- a/python/src/adctoolbox/spectrum/plot_spectrum.py
+++ b/python/src/adctoolbox/spectrum/plot_spectrum.py
@@ -249,7 +249,7 @@ def plot_spectrum(compute_results, show_title=True, show_label=True, plot_harmon
         if Fin >= 1e9: txt_fin = f'{Fin/1e9:.1f}G'
         elif Fin >= 1e6: txt_fin = f'{Fin/1e6:.1f}M'
         elif Fin >= 1e3: txt_fin = f'{Fin/1e3:.1f}K'
-        elif Fin >= 1: txt_fin = f'{Fin/1e3:.1f}'  # Matches original logic
+        elif Fin >= 1: txt_fin = f'{Fin:.1f}'
         else: txt_fin = f'{Fin:.3f}'
 
         snr_text = f'{snr_dbc:.2f} dB' if np.isfinite(snr_dbc) else 'N/A'
-- 
2.43.0


From 24a8c97e10486faf7df0c716277ac8d00524a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:28 +0000
Subject: [PATCH 19/29] fix: find tones in the last bin of records of odd
 length

Without a starting frequency, the sine fit searched one bin too few when
the number of samples is odd. A tone in that bin was missed.
---
 python/src/adctoolbox/fundamentals/fit_sine_4param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/fundamentals/fit_sine_4param.py b/python/src/adctoolbox/fundamentals/fit_sine_4param.py
index d233988..6fb7104 100644
--- a/python/src/adctoolbox/fundamentals/fit_sine_4param.py
+++ b/python/src/adctoolbox/fundamentals/fit_sine_4param.py
@@ -130,7 +130,7 @@ def _estimate_frequency_fft(y):
     n = len(y)
     spec = np.abs(np.fft.fft(y))
     spec[0] = 0
-    spec = spec[:n // 2]
+    spec = spec[:(n + 1) // 2]
     k = np.argmax(spec)
 
     # Parabolic interpolation for sub-bin precision
-- 
2.43.0


From 6a1ad9dfd5d06bcd670991f604c924b1b00d2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:03 +0000
Subject: [PATCH 20/29] fix: order residue range when a bit segment has
 negative total weight

---
 python/src/adctoolbox/dout/analyze_overflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/adctoolbox/dout/analyze_overflow.py b/python/src/adctoolbox/dout/analyze_overflow.py
index 5257a5b..9a0b011 100644
--- a/python/src/adctoolbox/dout/analyze_overflow.py
+++ b/python/src/adctoolbox/dout/analyze_overflow.py
@@ -82,8 +82,8 @@ def analyze_overflow(
         # Normalize by sum of remaining weights
         sum_weight = np.sum(weight[ii:])
         data_decom[:, ii] = tmp / sum_weight
-        range_min[ii] = np.min(tmp) / sum_weight
-        range_max[ii] = np.max(tmp) / sum_weight
+        range_min[ii] = np.min(data_decom[:, ii])
+        range_max[ii] = np.max(data_decom[:, ii])
 
         # Calculate overflow percentages
         ovf_percent_zero[ii] = np.sum(data_decom[:, ii] <= 0) / N * 100
-- 
2.43.0


From ebf53c34d956ae1fed860853832ff1b7492db043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:11 +0000
Subject: [PATCH 21/29] fix: measure the full scale of integer records without
 overflow in the spectrum

---
 python/src/adctoolbox/spectrum/_prepare_fft_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/_prepare_fft_input.py b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
index 1d1677b..ee1b9c7 100644
--- a/python/src/adctoolbox/spectrum/_prepare_fft_input.py
+++ b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
@@ -44,7 +44,7 @@ def _prepare_fft_input(
 
     # Determine peak amplitude for normalization
     if max_scale_range is None:
-        peak_amplitude = (np.max(data) - np.min(data)) / 2
+        peak_amplitude = (float(np.max(data)) - float(np.min(data))) / 2
     elif isinstance(max_scale_range, (list, tuple)):
         if len(max_scale_range) != 2:
             raise ValueError(f"Range tuple/list must have 2 elements, got {len(max_scale_range)}")
-- 
2.43.0


From f329e8f3608acde74070627403507556aa3ade3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:11 +0000
Subject: [PATCH 22/29] fix: bin integer records by value without overflow

---
 python/src/adctoolbox/aout/rearrange_error_by_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/rearrange_error_by_value.py b/python/src/adctoolbox/aout/rearrange_error_by_value.py
index 3038dcc..89ce5cc 100644
--- a/python/src/adctoolbox/aout/rearrange_error_by_value.py
+++ b/python/src/adctoolbox/aout/rearrange_error_by_value.py
@@ -56,7 +56,7 @@ def rearrange_error_by_value(
     else:
         scale = (n_bins - 1) / scale_range
 
-    raw_indices = (signal - v_min) * scale
+    raw_indices = (signal.astype(float) - v_min) * scale
     bin_indices = np.round(raw_indices).astype(int)
     bin_indices = np.clip(bin_indices, 0, n_bins - 1)
     value_bin_centers = np.linspace(v_min, v_max, n_bins)
-- 
2.43.0


From b44601c05dd01f948932b0dfc6eb3ada0e495b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:11 +0000
Subject: [PATCH 23/29] fix: infer the full scale of integer records without
 overflow in the error PDF

---
 python/src/adctoolbox/aout/analyze_error_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/analyze_error_pdf.py b/python/src/adctoolbox/aout/analyze_error_pdf.py
index ae123bf..4c00dff 100644
--- a/python/src/adctoolbox/aout/analyze_error_pdf.py
+++ b/python/src/adctoolbox/aout/analyze_error_pdf.py
@@ -74,7 +74,7 @@ def analyze_error_pdf(signal, resolution=12, full_scale=None, frequency=None, cr
 
     # Infer full_scale from signal if not provided
     if full_scale is None:
-        full_scale = np.max(signal) - np.min(signal)
+        full_scale = float(np.max(signal)) - float(np.min(signal))
 
     # Convert error to LSB units
     lsb = full_scale / (2**resolution)
-- 
2.43.0


From 113589922dab757b89895438b807f01112bc5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:11 +0000
Subject: [PATCH 24/29] fix: apply signal generator impairments to integer
 records in floating point

---
 python/src/adctoolbox/siggen/nonidealities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/adctoolbox/siggen/nonidealities.py b/python/src/adctoolbox/siggen/nonidealities.py
index 8c75726..eddf9c6 100644
--- a/python/src/adctoolbox/siggen/nonidealities.py
+++ b/python/src/adctoolbox/siggen/nonidealities.py
@@ -47,6 +47,8 @@ class ADC_Signal_Generator:
         """Helper: return copy of input_signal, or generate base signal if None."""
         if input_signal is None:
             return self._get_base_signal()
+        if input_signal.dtype.kind in "biu":
+            return input_signal.astype(float)
         return input_signal.copy()
 
     def get_clean_signal(self):
-- 
2.43.0


From eceb8cd679444226f9c0cb02e34338c2bb360813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:34 +0000
Subject: [PATCH 25/29] fix: form overflow residues of narrow integer weights
 in floating point

---
 python/src/adctoolbox/dout/analyze_overflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/dout/analyze_overflow.py b/python/src/adctoolbox/dout/analyze_overflow.py
index 9a0b011..abd10a9 100644
--- a/python/src/adctoolbox/dout/analyze_overflow.py
+++ b/python/src/adctoolbox/dout/analyze_overflow.py
@@ -54,7 +54,7 @@ def analyze_overflow(
     - Matches MATLAB ovfchk.m behavior exactly
     """
     raw_code = np.asarray(raw_code)
-    weight = np.asarray(weight)
+    weight = np.asarray(weight, dtype=float)
 
     if raw_code.ndim == 1:
         raw_code = raw_code.reshape(-1, 1)
-- 
2.43.0


From 647a673e8dd721b81907ed1fcbefd75aa5dc4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:44 +0000
Subject: [PATCH 26/29] fix: reconstruct narrow integer codes in floating point
 in the digital dashboard

---
 python/src/adctoolbox/toolset/generate_dout_dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/toolset/generate_dout_dashboard.py b/python/src/adctoolbox/toolset/generate_dout_dashboard.py
index 232a25b..17469c9 100644
--- a/python/src/adctoolbox/toolset/generate_dout_dashboard.py
+++ b/python/src/adctoolbox/toolset/generate_dout_dashboard.py
@@ -43,7 +43,7 @@ def generate_dout_dashboard(bits, freq=None, weights=None, output_path=None, sho
     if weights is None:
         weights = 2.0 ** np.arange(n_bits - 1, -1, -1)
     else:
-        weights = np.asarray(weights)
+        weights = np.asarray(weights, dtype=float)
 
     # Create 2x3 panel
     fig, axes = plt.subplots(2, 3, figsize=(24, 12))
-- 
2.43.0


From de7f4a74932f383065c7366decbc304b40b04310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:12 +0000
Subject: [PATCH 27/29] fix: full-scale range given in a narrow integer type no
 longer overflows

---
 python/src/adctoolbox/spectrum/_prepare_fft_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/spectrum/_prepare_fft_input.py b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
index ee1b9c7..3753bda 100644
--- a/python/src/adctoolbox/spectrum/_prepare_fft_input.py
+++ b/python/src/adctoolbox/spectrum/_prepare_fft_input.py
@@ -48,7 +48,7 @@ def _prepare_fft_input(
     elif isinstance(max_scale_range, (list, tuple)):
         if len(max_scale_range) != 2:
             raise ValueError(f"Range tuple/list must have 2 elements, got {len(max_scale_range)}")
-        fsr = max_scale_range[1] - max_scale_range[0]
+        fsr = float(max_scale_range[1]) - float(max_scale_range[0])
         peak_amplitude = fsr / 2
     else:
         # When max_scale_range is a scalar, treat it as the peak amplitude directly
-- 
2.43.0


From 649939c6aa1fa07042888e2bfc2e181806e436da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:12 +0000
Subject: [PATCH 28/29] fix: value range given in a narrow integer type no
 longer overflows

---
 python/src/adctoolbox/aout/rearrange_error_by_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/aout/rearrange_error_by_value.py b/python/src/adctoolbox/aout/rearrange_error_by_value.py
index 89ce5cc..328453d 100644
--- a/python/src/adctoolbox/aout/rearrange_error_by_value.py
+++ b/python/src/adctoolbox/aout/rearrange_error_by_value.py
@@ -50,7 +50,7 @@ def rearrange_error_by_value(
         raise ValueError("value_range must define finite increasing min/max values")
 
     # Map physical values to bin indices [0, n_bins-1]
-    scale_range = v_max - v_min
+    scale_range = float(v_max) - float(v_min)
     if scale_range == 0: 
         scale = 0.0
     else:
-- 
2.43.0


From db949d42580f4ce4dc266ed9b85467774f3b70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:12 +0000
Subject: [PATCH 29/29] fix: quantisation range given in a narrow integer type
 no longer overflows

---
 python/src/adctoolbox/siggen/nonidealities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/adctoolbox/siggen/nonidealities.py b/python/src/adctoolbox/siggen/nonidealities.py
index eddf9c6..0ad1864 100644
--- a/python/src/adctoolbox/siggen/nonidealities.py
+++ b/python/src/adctoolbox/siggen/nonidealities.py
@@ -64,7 +64,7 @@ class ADC_Signal_Generator:
     def apply_quantization_noise(self, input_signal=None, n_bits=10, quant_range=(0.0, 1.0)):
         """ Apply quantization noise. Params: quant_range: tuple (v_min, v_max), e.g., (0, 1) or (-0.5, 0.5)."""
         signal = self._resolve_signal(input_signal)
-        v_min, v_max = quant_range        
+        v_min, v_max = float(quant_range[0]), float(quant_range[1])
         # 1. Calculate LSB size based on Full Scale Range
         lsb = (v_max - v_min) / (2 ** n_bits)
 
-- 
2.43.0


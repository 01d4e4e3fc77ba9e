From 31232b28cb450320147c728de6b6e0fedfe0523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 01/40] fix: report out-of-range 1D far-field locations with
 ValueError

format_map takes a single mapping, so building the message itself raised
a TypeError instead of the intended ValueError.
---
 doatools/model/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..a1b8e91 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -198,7 +198,7 @@ class FarField1DSourcePlacement(SourcePlacement):
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
                 "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From be6bad7555601fb453c27a335319dfa59516c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 02/40] fix: make multi-segment 1D far-field search grids
 usable

The axis must be one-dimensional, and the write offset was never advanced
so every segment overwrote the first one.
---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..1cb8797 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 756ae81518c7fb0b83ed35bda1d12c30380b7ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/40] fix: store integer source locations as floats

Estimators update copies of source locations in-place. With integer
storage the ML estimators raised a TypeError and grid refinement silently
truncated the refined estimates.
---
 doatools/model/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index a1b8e91..2482263 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,10 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        # Source locations are real-valued. Integer storage would truncate
+        # estimates that are updated in-place.
+        if np.issubdtype(locations.dtype, np.integer):
+            locations = locations.astype(np.float_)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From fb7a79ba28a2b20d47808cfea8550d82f53c214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 04/40] fix: forward keyword arguments of UniformCircularArray

Perturbations and array elements were silently dropped.
---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..3c6ff38 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From fb722839e4eb1d9cfc1e43cb4a62844a3f99898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/40] fix: accept the documented 20-element MRLA

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 3c6ff38..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From b95d549690276189eccace86ef31e947377cc814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 06/40] fix: apply location errors regardless of the
 integer/float dtypes

Integer sensor locations with float location errors (and vice versa) failed
with a casting error.
---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..3758d13 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,13 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From ccef5b1fb9d576def1ad9b0fabc9160d8e361d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 07/40] fix: return the documented tuple from
 ArrayPerturbation.is_applicable_to

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 3758d13..0e3ab31 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From 16ede3a316519c3966a3465a7ac168c032c1f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 08/40] fix: accept lists for gain and phase errors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 0e3ab31..7074730 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From b321086ea0b55a8ee65647149b3393cd5fe16c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 09/40] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 7074730..3424e42 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From fc0425934aa7c9088d283211160988a2a0f4a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 10/40] fix: reject covariance matrices with a wrong number of
 columns

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 22f24e6b1a95cca60e81023dc1fc5c68639e4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 11/40] fix: account for vector sensors in
 ArrayDesign.output_size

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From 5621ba9167818d8a9f4b83a3769ecbc19341842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 12/40] fix: support scalar amplitudes in RandomPhaseSignal

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From b0b01b4baed5402c15cd1f887c563849a7db7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 13/40] fix: make NearField2DSearchGrid instantiable

It did not implement the abstract method create_refined_grid_at, and
overrode create_refined_grids_at with an incompatible signature.
---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 1cb8797..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -415,7 +415,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From 1496902db2a9ff9f78ee16bfc1f6bcb2edce844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 14/40] fix: do not apply ESPRIT row weights to overlapping
 views in-place

The overlapping rows were weighted twice, breaking the rotational
invariance and biasing the estimates even for exact covariance matrices.
---
 doatools/estimation/esprit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..cd3fa76 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,9 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Es1 and Es2 are overlapping views and must not be scaled in-place.
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From a08c6a3344ff54daab0be3ff7e82dbdddcb28ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 15/40] fix: use the actual spacing of the array for the
 virtual ULA

ecov_coarray_music_1d assumed half-wavelength spacing.
---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 8039d95d5a2533615d3c15befd1e0580da273c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 16/40] fix: draw 1D spectra on the given axes instead of the
 current ones

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 54ad052c9af1384c8f93cf9cf60d15c902cb2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 17/40] fix: plot location errors when requested

Perturbations are keyed by class, so the check never succeeded.
---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From edf172e2760ff4447d6dc70808f15d046b85306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 18/40] fix: do not expose the internal array via
 actual_element_locations

Without location errors the returned array aliased the array design's own
locations, unlike element_locations.
---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index b1d2b3b..8f4f18f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -128,7 +128,7 @@ class ArrayDesign:
             1. number of dimensions of the nominal array;
             2. number of dimensions of the sensor location errors.
         """
-        locations = self._locations
+        locations = self._locations.copy()
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
         return locations
-- 
2.43.0


From b06907354ec51579b244eec702de14a01bd7f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 19/40] fix: subdivide each interval when refining non-uniform
 search grids

The refined axis was a single uniform grid over the whole span, which does
not contain the original grid points when their spacing varies.
---
 doatools/estimation/grid.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index fc9b092..a3adddd 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -161,10 +161,16 @@ class SearchGrid(ABC):
             # Lower bound and upper bound indices.
             i_lb = max(0, coord[j] - span)
             i_ub = min(self._shape[j] - 1, coord[j] + span)
-            # Convert to actual values.
-            lb = self._axes[j][i_lb]
-            ub = self._axes[j][i_ub]
-            axes.append(np.linspace(lb, ub, (i_ub - i_lb) * density + 1))
+            # Subdivide every original interval between the bounds.
+            points = self._axes[j][i_lb:i_ub+1]
+            n = i_ub - i_lb
+            ax = np.linspace(points[0], points[-1], n * density + 1)
+            if not np.allclose(ax[::density], points, rtol=0.0,
+                               atol=1e-8 * abs(points[-1] - points[0])):
+                # The original points are not equally spaced.
+                ax = np.interp(np.arange(n * density + 1) / density,
+                               np.arange(n + 1), points)
+            axes.append(ax)
         return tuple(axes)
 
     def create_refined_grids_at(self, *coords, **kwargs):
-- 
2.43.0


From 3edd8057956c5a78dfcc59dfb2191a84af6fa3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 20/40] fix: avoid overflow and underflow of eigenvalue
 products in AIC/MDL

---
 doatools/estimation/source_number.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..d1cae01 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,9 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    # Use the mean of logarithms. The product of the eigenvalues may easily
+    # overflow or underflow.
+    return n_snapshots * diff * (np.log(np.sum(l) / diff) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0


From f31d64030cec8a9219e264fce9cf584ec112477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 21/40] fix: make SORTE independent of the scale of the
 eigenvalues

---
 doatools/estimation/source_number.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d1cae01..21bc31c 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -89,9 +89,11 @@ def sorte(x):
         raise ValueError('At least four eigenvalues required.')
     diffs = x[:-1] - x[1:]
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
+    # The threshold must be relative to the scale of the eigenvalues.
+    tol = (n * np.finfo(np.float_).eps * np.abs(x[0]))**2
     s = np.zeros((n - 2,))
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if np.abs(sigmas[k]) <= tol:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From 4b77111da807c49807ec17b3ba22c0b19e43719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 22/40] fix: return valid real values from the stochastic ML
 objective

A negative log-determinant is valid, and the trace should be real.
---
 doatools/estimation/ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..96b26c9 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,9 +11,9 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn <= 0:
         return np.Inf
-    return logdet + np.trace(np.linalg.solve(S, R))
+    return logdet + np.real(np.trace(np.linalg.solve(S, R)))
 
 class CovarianceBasedMLEstimator(ABC):
     """Abstract base class for covariance based maximum-likelihood estimators.
-- 
2.43.0


From 687790ca0a3dbb21fa71705d2ef470ef83545680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 23/40] fix: virtual ULA of a coarray whose array design has no
 name

---
 doatools/estimation/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..da7f47f 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -51,7 +51,7 @@ class CoarrayACMBuilder1D:
             corresponding to the augmented covariance matrix.
         """
         if name is None:
-            name = 'Virtual ULA of ' + self._array.name
+            name = 'Virtual ULA of {0}'.format(self._array.name)
         return UniformLinearArray(self.output_size, self._array.d0, name)
 
     def transform(self, R, method='ss'):
-- 
2.43.0


From 22500f2c31eaebc4ef0d6bfab8ec28bb8c920eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 24/40] fix: stochastic signals with a singular covariance
 matrix had a wrong covariance

---
 doatools/model/signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index 946d4a0..fe00a03 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -1,6 +1,5 @@
 from abc import ABC, abstractmethod
 import numpy as np
-from scipy.linalg import sqrtm
 from ..utils.math import randcn
 
 class SignalGenerator(ABC):
@@ -60,7 +59,10 @@ class ComplexStochasticSignal(SignalGenerator):
             # Matrix
             if C.shape[0] != dim or C.shape[1] != dim:
                 raise ValueError('The shape of C must be ({0}, {0}).'.format(dim))
-            self._C2 = sqrtm(C)
+            # Hermitian square root. sqrtm() is not accurate when the covariance
+            # matrix is singular (e.g., for coherent sources).
+            w, V = np.linalg.eigh(C)
+            self._C2 = (V * np.sqrt(np.maximum(w, 0.0))) @ V.conj().T
             self._generator = lambda n: self._C2 @ randcn((self._dim, n))
         else:
             raise ValueError(
-- 
2.43.0


From 1b34b5fdb29133c50f199953030097ac7175cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 25/40] fix: a one-dimensional noise signal was silently
 broadcast over all sensors

---
 doatools/model/snapshots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doatools/model/snapshots.py b/doatools/model/snapshots.py
index 11c2ea4..5fb7c11 100644
--- a/doatools/model/snapshots.py
+++ b/doatools/model/snapshots.py
@@ -48,6 +48,12 @@ def get_narrowband_snapshots(array, sources, wavelength, source_signal,
     Y = A @ S
     if noise_signal is not None:
         N = noise_signal.emit(n_snapshots)
+        if N.shape != Y.shape:
+            raise ValueError(
+                'The dimension of the noise signal does not match the output '
+                'size of the array: expecting {0}, got {1}.'
+                .format(Y.shape, N.shape)
+            )
         Y += N
     if return_covariance:
         R = (Y @ Y.conj().T) / n_snapshots
-- 
2.43.0


From 92a5a33d06a813617ff5bdeb2c5f691aefdfe48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 26/40] fix: grid refinement accepted coordinates outside the
 grid

---
 doatools/estimation/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index a3adddd..5c26aed 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -156,6 +156,8 @@ class SearchGrid(ABC):
                 'Incorrect number of coordinate elements. Expecting {0}. Got {1}.'
                 .format(self.ndim, len(coord))
             )
+        if any(i < 0 or i >= n for i, n in zip(coord, self._shape)):
+            raise ValueError('The coordinate is outside the grid.')
         axes = []
         for j in range(self.ndim):
             # Lower bound and upper bound indices.
-- 
2.43.0


From 782af946eb650826094f22904bd0bc0a03bcae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 27/40] fix: pair the conjugate reciprocal roots in root-MUSIC

Roots on the unit circle were recognized by an exact |z| == 1 comparison, so
with exact covariance matrices both roots of a pair could be discarded
(estimate flagged unresolved) or a RuntimeError could be raised.
---
 doatools/estimation/music.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..450413b 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -157,28 +157,19 @@ class RootMUSIC1D:
         # Find the roots of the polynomial.
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
-        # circle.
+        # circle. The roots come in conjugate reciprocal pairs, and only the one
+        # inside the unit circle is kept for each pair. Because the two roots
+        # coincide on the unit circle in the absence of estimation errors, the
+        # pairs are formed explicitly instead of comparing |z| with one.
+        z = z[np.argsort(np.abs(np.abs(z) - 1.0))]
         nz = len(z)
         mask = np.ones((nz,), dtype=np.bool_)
-        for i in range(nz):
-            absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
-                idx = -1
-                dist = np.inf
-                for j in range(nz):
-                    if j != i and mask[j]:
-                        cur_dist = abs(z[i] - z[j])
-                        if cur_dist < dist:
-                            dist = cur_dist
-                            idx = j
-                if idx < 0:
-                    raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
-                mask[idx] = False
+        pending = list(range(nz))
+        while len(pending) > 1:
+            i = pending.pop(0)
+            dist = [abs(z[j] * np.conj(z[i]) - 1.0) for j in pending]
+            j = pending.pop(int(np.argmin(dist)))
+            mask[j if abs(z[i]) <= abs(z[j]) else i] = False
         z = z[mask]
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
-- 
2.43.0


From c3161716ad0ed6fb1d2eff00cc8b2bb6c20f12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 28/40] fix: projection matrix of nearly singular matrices

projm(A, use_pinv=True) returned matrices that are not projections when the
smallest singular value of A is close to machine precision (A @ pinv(A) loses
orthogonality). The AML estimator then evaluated its objective to infinity
when the optimizer probed nearly identical sources and returned the initial
guess as a successful estimate.
---
 doatools/utils/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..c712253 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -48,7 +48,12 @@ def projm(A, use_pinv=False):
             the projection matrix. Set this to True if `A` is close to singular.
     """
     if use_pinv:
-        return A @ np.linalg.pinv(A)
+        # Equivalent to A @ pinv(A). An orthonormal basis of the column space is
+        # used because A @ pinv(A) is not a projection matrix numerically when
+        # the smallest singular value of A is close to machine precision.
+        u, s, _ = np.linalg.svd(A, full_matrices=False)
+        u = u[:, s > max(A.shape) * np.finfo(s.dtype).eps * np.max(s, initial=0.0)]
+        return u @ u.conj().T
     if np.iscomplexobj(A):
         A_H = A.conj().T
         return A @ np.linalg.solve(A_H @ A, A_H)
-- 
2.43.0


From c7c179d0dcda3c3f33c48b518ce653f11e37cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 29/40] fix: sparse estimators report failed optimizations as
 unresolved

When no optimal solution existed the spectrum was all zeros, from which
arbitrary 'peaks' were returned as resolved estimates on 2D grids.
---
 doatools/estimation/sparse.py | 12 ++++++++++--
 doatools/optim/l1lsq.py       | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/sparse.py b/doatools/estimation/sparse.py
index 403c2e3..7a558f7 100644
--- a/doatools/estimation/sparse.py
+++ b/doatools/estimation/sparse.py
@@ -161,7 +161,11 @@ class SparseCovarianceMatching(SpectrumBasedEstimatorBase):
             # Do not modify R in-place!
             R = R - np.eye(self._array.size) * sigma
         f_sp = lambda Phi: self._get_sparse_spectrum(Phi, R, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        result = self._estimate(f_sp, k, **kwargs)
+        if not self._problem.is_optimal:
+            # There is no sparse solution to obtain the source locations from.
+            return (False, None) + result[2:]
+        return result
 
 class GroupSparseEstimator(SpectrumBasedEstimatorBase):
     r"""Creates a group-sparsity based estimator.
@@ -271,4 +275,8 @@ class GroupSparseEstimator(SpectrumBasedEstimatorBase):
         if Y.shape[1] != self._n_snapshots:
             raise ValueError('The number of columns of Y must be equal to the number of snapshots.')
         f_sp = lambda A: self._get_sparse_spectrum(A, Y, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        result = self._estimate(f_sp, k, **kwargs)
+        if not self._problem.is_optimal:
+            # There is no sparse solution to obtain the source locations from.
+            return (False, None) + result[2:]
+        return result
diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index 00ea66a..ec7f6f4 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -99,6 +99,11 @@ class L1RegularizedLeastSquaresProblem:
         self._constraints = constraints
         self._problem = problem
 
+    @property
+    def is_optimal(self):
+        """Whether the last call to :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, b, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -112,7 +117,7 @@ class L1RegularizedLeastSquaresProblem:
         self._b.value = b
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.is_optimal:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros((self._x.size,))
         return self._x.value
@@ -174,6 +179,11 @@ class L21RegularizedLeastSquaresProblem:
         self._l = l
         self._X = X
 
+    @property
+    def is_optimal(self):
+        """Whether the last call to :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, B, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -187,7 +197,7 @@ class L21RegularizedLeastSquaresProblem:
         self._B.value = B
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.is_optimal:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros(self._X.shape)
         return self._X.value
-- 
2.43.0


From 36a2118d948f1b604204863f1fef4f411d53ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 30/40] fix: reuse of the l2,1-norm problem with a different
 sparsity pattern

Solving the complex problem again with a dictionary whose zeros are elsewhere
raised an exception from the warm started conic solver.
---
 doatools/optim/l1lsq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index ec7f6f4..10e19cb 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -196,6 +196,9 @@ class L21RegularizedLeastSquaresProblem:
         self._A.value = A
         self._B.value = B
         self._l.value = l
+        # A warm start is of no use for the conic problem here, and fails if the
+        # sparsity pattern of A differs from that of the previous call.
+        kwargs.setdefault('warm_start', False)
         self._problem.solve(**kwargs)
         if not self.is_optimal:
             warnings.warn('Optimal solution cannot be obtained.')
-- 
2.43.0


From 8e577c526bb650c3dc8a4b65fa4a220f40c8896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 31/40] fix: nested lists as source powers

A source covariance matrix given as a list of lists was treated as a vector,
which could lead to wrong results if the array size equals the number of
sources.
---
 doatools/performance/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/doatools/performance/utils.py b/doatools/performance/utils.py
index 0fa0830..549a88a 100644
--- a/doatools/performance/utils.py
+++ b/doatools/performance/utils.py
@@ -11,7 +11,10 @@ def unify_p_to_matrix(p, k):
         P = np.zeros((k, k))
         np.fill_diagonal(P, p)
         return P
-    if isinstance(p, list) or p.ndim == 1:
+    if isinstance(p, list):
+        # May be nested.
+        p = np.array(p)
+    if p.ndim == 1:
         if len(p) != k:
             raise ValueError('The length of the input vector does not match the number of sources.')
         return np.diag(p)
@@ -31,7 +34,10 @@ def unify_p_to_vector(p, k):
     """
     if np.isscalar(p):
         return np.full((k,), p)
-    if isinstance(p, list) or p.ndim == 1:
+    if isinstance(p, list):
+        # May be nested.
+        p = np.array(p)
+    if p.ndim == 1:
         if len(p) != k:
             raise ValueError('The length of the input vector does not match the number of sources.')
         return np.array(p)
-- 
2.43.0


From a04a46d147e719672763bf975e5db17c2a615353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 32/40] fix: power block of the uncorrelated stochastic FIM
 uses |a_i^H R^-1 a_j|^2

The element-wise product of the matrix with its conjugate transpose is the
square of each entry, whose real part is not the squared magnitude unless
the entries are real.
---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..d9d4af7 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.T * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 21fe65fc73c1d1034248bd288848936dc7308039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 33/40] fix: spatial smoothing of integer covariance matrices

The in-place division raised a casting error for real matrices of integer
type, which are documented as supported.
---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From b9ea7b55ad9f4f223b2fb758456fb4fb7b5d9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 34/40] fix: indices returned by unique_rows for an empty input

An m-column matrix of floats was returned, which cannot be used as indices.
---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index c712253..25b7fc7 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -130,7 +130,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From bce65e7a7a6b755dc021a6de54b9c7fea75c5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 35/40] fix: 2D spectra on grids with non-uniform axes

imshow spread the values evenly over the range of each axis, so that
spectra over non-uniform or descending axes appeared at wrong locations.
---
 doatools/plotting/plot_spectrum.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 3743bde..e9f2cdd 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -9,6 +9,13 @@ def _normalize_by_maximum(x):
     else:
         return x
 
+def _is_uniform(x):
+    """Checks if the vector is increasing with (almost) equal steps."""
+    if x.size < 2:
+        return True
+    steps = np.diff(x)
+    return steps.min() > 0 and steps.max() - steps.min() <= 1e-3 * steps.max()
+
 def _build_spectrum_list(sp, grid):
     """
     Preprocesses the spectrum input and convert it into a list of tuples, where
@@ -170,16 +177,20 @@ def plot_spectrum_2d(sp, grid, ax, estimates=None, ground_truth=None,
     x, y = axes[ind_x], axes[ind_y]
     x_label = '{0}/{1}'.format(axis_names[ind_x], units[ind_x])
     y_label = '{0}/{1}'.format(axis_names[ind_y], units[ind_y])
-    plot_args = {
-        'extent': (x.min(), x.max(), y.min(), y.max()),
-        'origin': 'lower',
-        'cmap': color_map,
-        'aspect': 'auto'
-    }
+    plot_args = {'cmap': color_map}
     containers = []
     if use_log_scale:
         plot_args['norm'] = LogNorm()
-    containers.append(ax.imshow(sp, **plot_args))
+    if _is_uniform(x) and _is_uniform(y):
+        containers.append(ax.imshow(
+            sp,
+            extent=(x.min(), x.max(), y.min(), y.max()),
+            origin='lower',
+            aspect='auto',
+            **plot_args))
+    else:
+        # An image assumes uniformly spaced axes.
+        containers.append(ax.pcolormesh(x, y, sp, shading='nearest', **plot_args))
     plt.colorbar(containers[0], ax=ax)
     ax.set_xlabel(x_label)
     ax.set_ylabel(y_label)
-- 
2.43.0


From 2b5ed4b10ee7de2be99f4401ff6229601f4298d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 36/40] fix: spatial_smooth accepted non-square matrices

---
 doatools/estimation/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index befa811..10f681e 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -24,6 +24,8 @@ def spatial_smooth(R, l, fb=False):
         Acoustics, Speech, and Signal Processing, vol. 37, no. 1, pp. 8-15,
         Jan. 1989.
     """
+    if R.ndim != 2 or R.shape[0] != R.shape[1]:
+        raise ValueError('R should be a square matrix.')
     m = R.shape[0]
     if l < 1 or l > m:
         raise ValueError('The number of subarrays must be within [1, {0}].'.format(m))
-- 
2.43.0


From 7496382acc9f460a44673165f9f8efa03a1d6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 37/40] fix: l1_svd silently accepted too large signal
 subspaces

---
 doatools/estimation/preprocessing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index 10f681e..99e96ca 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -98,5 +98,10 @@ def l1_svd(y, k):
         IEEE Transactions on Signal Processing, vol. 53, no. 8, pp. 3010-3022,
         Aug. 2005.
     """
+    if k > min(y.shape):
+        raise ValueError(
+            'k cannot be greater than either the number of snapshots or the '
+            'number of sensors.'
+        )
     U, s, Vh = np.linalg.svd(y, full_matrices=False)
     return U[:,:k] * s[:k]
-- 
2.43.0


From 95ec601f9388682aa68f74f6aab3f9acb1160361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 38/40] fix: unknown units in from_z, root-MUSIC and ESPRIT
 were answered in degrees

---
 doatools/model/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 2482263..645bf04 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -232,8 +232,10 @@ class FarField1DSourcePlacement(SourcePlacement):
         locations.sort()        
         if unit == 'rad':
             return FarField1DSourcePlacement(locations)
-        else:
+        elif unit == 'deg':
             return FarField1DSourcePlacement(np.rad2deg(locations), 'deg')
+        else:
+            raise ValueError("Unknown unit '{0}'.".format(unit))
 
     @property
     def is_far_field(self):
-- 
2.43.0


From dbe0ad0d0d9b71d29489165eedc0c3561f4751a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 39/40] fix: keep the elements of 3D arrays in view when
 equalising axis ranges

---
 doatools/plotting/plot_array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 0591ec3..4382d07 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -32,10 +32,9 @@ def _fix_3d_aspect(ax):
         return
     # Force similar ranges and re-scales the view.
     for i in range(3):
-        if ranges[i] == 0:
-            limits[i] = [-max_range / 2.0, max_range / 2.0]
-        else:
-            limits[i] = [limits[i][0] * max_range / ranges[i], limits[i][1] * max_range / ranges[i]]
+        # Extend the limits around their center so that the data stay in view.
+        center = (limits[i][0] + limits[i][1]) / 2.0
+        limits[i] = [center - max_range / 2.0, center + max_range / 2.0]
     # This method is not documented but judging from its source it should do
     # the job for us.
     ax.auto_scale_xyz(limits[0], limits[1], limits[2])
-- 
2.43.0


From 3b7f142b5e1d289660cbefbd76cc71de0b067122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 40/40] fix: return no estimates for zero sources and refuse
 negative numbers of sources

---
 doatools/estimation/core.py          | 9 +++++++--
 doatools/estimation/esprit.py        | 2 +-
 doatools/estimation/preprocessing.py | 6 +++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 5c94bec..c8ca508 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -19,6 +19,8 @@ def ensure_covariance_size(R, array):
 
 def ensure_n_resolvable_sources(k, max_k):
     """Checks if the number of expected sources exceeds the maximum resolvable sources."""
+    if k < 0:
+        raise ValueError('The number of sources cannot be negative.')
     if k > max_k:
         raise ValueError(
             'Too many sources. Maximum number of resolvable sources is {0}'
@@ -44,7 +46,8 @@ def get_noise_subspace(R, k):
     """
     _, E = np.linalg.eigh(R)
     # Note: eigenvalues are sorted in ascending order.
-    return E[:,:-k]
+    # E[:,:-k] would be empty if there were no sources.
+    return E[:,:E.shape[1]-k]
 
 class SpectrumBasedEstimatorBase(ABC):
 
@@ -156,6 +159,8 @@ class SpectrumBasedEstimatorBase(ABC):
                 specified search grid, consisting of values evaluated at the
                 grid points. Only present if `return_spectrum` is True.
         """
+        if k < 0:
+            raise ValueError('The number of sources cannot be negative.')
         sp = f_sp(self._get_atom_matrix())
         # Restores the shape of the spectrum.
         sp = sp.reshape(self._search_grid.shape)
@@ -176,7 +181,7 @@ class SpectrumBasedEstimatorBase(ABC):
             # is a tuple of 1D numpy arrays, and `sp` has been reshaped.
             peak_values = sp[peak_indices]
             # Identify the k largest peaks.
-            top_indices = np.argsort(peak_values)[-k:]
+            top_indices = np.argsort(peak_values)[n_peaks-k:]
             # Filter out the peak indices of the k largest peaks.
             peak_indices = [axis[top_indices] for axis in peak_indices]
             # Obtain the estimates.
diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index cd3fa76..e442085 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -115,7 +115,7 @@ class Esprit1D:
             raise ValueError("Row weights must be 'default', 'none', or a compatible numpy vector.")
         # Extract the signal subspace.
         _, E = np.linalg.eigh(R)
-        Es = E[:, -k:]
+        Es = E[:, m-k:]
         # Separation
         Es1 = Es[:-displacement, :]
         Es2 = Es[displacement:, :]
diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index 99e96ca..326373f 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -98,10 +98,10 @@ def l1_svd(y, k):
         IEEE Transactions on Signal Processing, vol. 53, no. 8, pp. 3010-3022,
         Aug. 2005.
     """
-    if k > min(y.shape):
+    if k < 0 or k > min(y.shape):
         raise ValueError(
-            'k cannot be greater than either the number of snapshots or the '
-            'number of sensors.'
+            'k cannot be negative, or greater than either the number of '
+            'snapshots or the number of sensors.'
         )
     U, s, Vh = np.linalg.svd(y, full_matrices=False)
     return U[:,:k] * s[:k]
-- 
2.43.0


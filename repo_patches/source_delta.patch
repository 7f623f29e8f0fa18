From 6c16f38cecf68edbd5f01b2d1c010aa96c2e4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 01/27] fix: filter_separation() crashed on an empty list and
 dropped a lone line

---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..fa039d8 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # A line without any neighbour cannot be blended
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From 11195dddf0150e9585e19b62920c4f1d4769c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/27] fix: the separation filter compared lines adjacent in
 brightness

With brightest_n_lines set (always, through Atlas.add) the list was in order
of brightness when filter_separation() took its neighbours as the nearest lines.
---
 src/rascal/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index fa039d8..3ae0715 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -404,6 +404,9 @@ def load_calibration_lines(
         to_keep = np.argsort(np.array(intensity_list))[::-1][
             :brightest_n_lines
         ]
+        # Keep the lines in order of wavelength, the separation filter
+        # compares each line with its neighbours
+        to_keep = np.sort(to_keep)
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From d1d83935c51563b17811960644f664841b49c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 03/27] fix: get_vapour_pressure() used degrees Celsius where
 Kelvin is needed

The saturation vapour pressure at 20 degC came out as 110 Pa, it is 2339 Pa.
---
 src/rascal/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 3ae0715..ee559a4 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,6 +8,12 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
@@ -19,7 +25,9 @@ def get_vapour_pressure(temperature):
     K8 = 4.05113405421e05
     K9 = -2.38555575678e-01
     K10 = 6.50175348448e02
-    omega = temperature + K9 / (temperature - K10)
+    # The equations take the temperature in Kelvin
+    T = temperature + 273.15
+    omega = T + K9 / (T - K10)
     A = omega**2.0 + K1 * omega + K2
     B = K3 * omega**2.0 + K4 * omega + K5
     C = K6 * omega**2.0 + K7 * omega + K8
-- 
2.43.0


From 6afa92391874aadc6d90be37ba37497a4955ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 04/27] fix: refine_peaks() shifted some peaks and altered
 overlapping windows

The fitted centre is relative to the first pixel of the window, which is not
peak - window_width next to the edge or when the peak is not an integer. The
in-place normalisation rescaled part of the window of the next peak, and
failed on integer spectra.
---
 src/rascal/util.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ee559a4..7364ef2 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -491,16 +491,14 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     refined_peaks = []
 
-    spectrum = np.array(spectrum)
+    spectrum = np.array(spectrum, dtype="float")
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
+        # Not in place: the windows of neighbouring peaks may overlap
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -522,7 +520,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From 36a60b08e392b1813cbb331a53c8d4500a39edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 05/27] fix: remove_atlas_lines_range() skipped the line after
 each removed line

---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..51745f9 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From 75c3d45b315568942955a41bd73bf43d3b5fec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 06/27] fix: add_user_atlas() failed on a single element and
 wavelength

---
 src/rascal/atlas.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 51745f9..eb9e48e 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,12 +246,21 @@ class Atlas:
 
         """
 
+        if isinstance(elements, str):
+            elements = [elements]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
+        if np.isscalar(wavelengths):
+            wavelengths = [wavelengths]
+
         if not isinstance(wavelengths, list):
             wavelengths = list(wavelengths)
 
+        if np.isscalar(intensities):
+            intensities = [intensities]
+
         if intensities is None:
             intensities = [0] * len(wavelengths)
 
-- 
2.43.0


From f433af97de680a04b8729e82afb325b3c2700aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 07/27] fix: polynomial() failed on integer x with mixed
 coefficients

---
 src/rascal/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..6251722 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -20,7 +20,7 @@ def polynomial(a, degree=3):
         t = a[-1]
 
         for i in range(1, int(degree + 1)):
-            t += a[int(degree - i)] * x**i
+            t = t + a[int(degree - i)] * x**i
 
         return t
 
-- 
2.43.0


From 8fa5ee599628e1a61c324ee834ba59d9921ab53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 08/27] fix: SyntheticSpectrum used two opposite orders of the
 coefficients

get_pixels() took them in ascending order for a linear model, while the model
itself and the higher degrees took them in descending order. set_model() did
not replace the coefficients used for the constant and linear models.
---
 src/rascal/synthetic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..7f9f97b 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -15,7 +15,7 @@ class SyntheticSpectrum:
         Parameters
         ----------
         coefficients: list
-            coefficients for the model
+            coefficients for the model, in ascending order (constant first)
 
         """
 
@@ -23,8 +23,7 @@ class SyntheticSpectrum:
         self.set_wavelength_limit(min_wavelength, max_wavelength)
 
         if coefficients is not None:
-            self.coefficients = coefficients
-            self.set_model(self.coefficients)
+            self.set_model(coefficients)
 
         else:
             self.model = None
@@ -36,8 +35,13 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
-            self.model = models.polynomial(a=coefficients, degree=self.degree)
+            # the coefficients are in ascending order, polynomial() takes
+            # them with the highest order first
+            self.model = models.polynomial(
+                a=coefficients[::-1], degree=self.degree
+            )
 
         else:
             raise TypeError("Please provide a list or an numpy array.")
-- 
2.43.0


From f3f911354d30173cef8ff2ef3980a2988efa42cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 09/27] fix: hough_points loaded from json was a list,
 bin_hough_points() failed on it

---
 src/rascal/houghtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..7831d1c 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -324,7 +324,7 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = input_json["hough_points"]
+            self.hough_points = np.array(input_json["hough_points"])
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From 0ca778cee7a6d92de06d465c55c613bbcf5d845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 10/27] fix: save_hough_transform(to_disk=False) returned
 nothing

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..bc8e6f0 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1480,7 +1480,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From 4c2c9fa2c597b60278bffd7e5760670d90642c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 11/27] fix: most common candidates were picked from the wrong
 list

The ranking is over the unique wavelengths, but it indexed the wavelengths
with repetition, so the same or a less common wavelength was returned.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index bc8e6f0..617190f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -211,7 +211,7 @@ class Calibrator:
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From a9a9a87d833e7821c5285b55fd38c09d387f9163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 12/27] fix: pairs kept the lines removed with
 remove_atlas_lines_range() or clear_atlas()

---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 617190f..b2165d1 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -105,7 +105,7 @@ class Calibrator:
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
 
-        if self.constrain_poly:
+        if self.constrain_poly and len(pairs) > 0:
             # Remove pairs outside polygon
             valid_area = Delaunay(
                 [
@@ -1346,6 +1346,7 @@ class Calibrator:
         """
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
+        self._generate_pairs()
 
     def list_atlas(self):
         """
@@ -1360,6 +1361,7 @@ class Calibrator:
         """
 
         self.atlas.clear()
+        self._generate_pairs()
 
     def add_user_atlas(
         self,
-- 
2.43.0


From a9379df898118aac717d2656327ead523b07598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 13/27] fix: add_pix_wave_pair() inserted at the wrong position
 or failed

The new pair always went in front, and a pixel below all the matched peaks
raised an IndexError.
---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b2165d1..a716d39 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1999,7 +1999,8 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        # keep the pairs in order of pixel
+        arg = np.searchsorted(self.matched_peaks, pix)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From 2e171a00bae045931546eec957b9b05bfec73707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 14/27] fix: plot_fit(log_spectrum=True) overwrote the spectrum
 of the calibrator

---
 src/rascal/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..d93eed2 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,6 +742,8 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
+            # not in place: this can be the spectrum of the calibrator
+            spectrum = np.array(spectrum, dtype="float")
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
             vline_max = np.nanmax(spectrum) * 2.0
-- 
2.43.0


From 4d0f4ac0a99b797a3c8d354dc2fcee9d60034ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 15/27] fix: fit(brute_force=True) failed, and would not end on
 a rejected combination

---
 src/rascal/calibrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index a716d39..d2e94be 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -527,11 +527,13 @@ class Calibrator:
             self.logger.debug(sample)
 
             while keep_trying:
+                # there is nothing to draw again in a brute force search
+                keep_trying = not brute_force
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From fecca970f3efc11f5d7bd731b6ba97b37c823280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 16/27] fix: peaks on a bin edge were weighted by the count of
 another bin

If that bin was empty the probability was NaN and fit() failed. The first
peak was always weighted by the count of the last bin.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d2e94be..16b6ddd 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -519,7 +519,7 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From 49a7cf4cbfdf6af9f8547af3000f05cc28e5ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 17/27] fix: the range of slopes took the tolerance off the
 minimum wavelength twice

min_intercept has range_tolerance subtracted already, so that the smallest
slope was too large to reach from min_wavelength + range_tolerance to
max_wavelength - range_tolerance.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 16b6ddd..313ddb4 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1098,7 +1098,7 @@ class Calibrator:
                 - self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 + self.range_tolerance
                 + self.linearity_tolerance
             )
@@ -1111,7 +1111,7 @@ class Calibrator:
                 + self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 - self.range_tolerance
                 - self.linearity_tolerance
             )
-- 
2.43.0


From f6f2da011827ed6cc4c6ec2cfe3f14d08ee45a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 18/27] fix: num_pix had no effect

The pixel_list made when the Calibrator is initialised was kept.
---
 src/rascal/calibrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 313ddb4..11cb01f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -50,6 +50,7 @@ class Calibrator:
         # calibrator_properties
         self.num_pix = None
         self.pixel_list = None
+        self.pixel_list_provided = False
         self.plotting_library = None
         self.constrain_poly = None
 
@@ -934,8 +935,11 @@ class Calibrator:
         # set the pixel_list
         if pixel_list is not None:
             self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list_provided = True
 
-        elif self.pixel_list is None:
+        elif self.pixel_list is None or (
+            num_pix is not None and not self.pixel_list_provided
+        ):
             self.pixel_list = np.arange(self.num_pix)
 
         else:
-- 
2.43.0


From 2209515a9efc235ac359fc9ee6654a317f7c609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 19/27] fix: a loaded Hough transform was not used

The hough_lines were not restored, so that fit() replaced the loaded transform
with a new one.
---
 src/rascal/calibrator.py     |  2 ++
 src/rascal/houghtransform.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 11cb01f..f50f56c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1511,6 +1511,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 7831d1c..be65896 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,8 +186,15 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
-        # Get the line fit_coeffients from the promising bins in the
-        # histogram
+        self._rank_bins()
+
+    def _rank_bins(self):
+        """
+        Get the line fit_coeffients from the promising bins in the histogram,
+        in descending order of the counts.
+
+        """
+
         self.hist_sorted_arg = np.dstack(
             np.unravel_index(
                 np.argsort(self.hist.ravel())[::-1], self.hist.shape
@@ -337,3 +344,5 @@ class HoughTransform:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        self._rank_bins()
-- 
2.43.0


From b9fa2754a9e88b42aa14027b76a50e404aacfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 20/27] fix: match_peaks() failed on ambiguous matches or
 without any refit

A peak with two lines within the tolerance raised a TypeError, two peaks could
be given the same line, the refined solution was not used for the matching, and
with robust_refit=False it raised a NameError. The matching is now the one-to-one
matching of fit().
---
 src/rascal/calibrator.py | 89 +++++++---------------------------------
 1 file changed, 15 insertions(+), 74 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index f50f56c..1724568 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1804,9 +1804,9 @@ class Calibrator:
         if fit_deg is None:
             fit_deg = len(fit_coeff) - 1
 
-        if refine:
-            fit_coeff_new = fit_coeff.copy()
+        fit_coeff_new = fit_coeff.copy()
 
+        if refine:
             if n_delta is None:
                 n_delta = len(fit_coeff_new) - 1
 
@@ -1832,89 +1832,30 @@ class Calibrator:
 
         matched_peaks = []
         matched_atlas = []
-        residuals = []
 
         atlas_lines = self.atlas.get_lines()
 
         # Find all Atlas peaks within tolerance
         for p in self.peaks:
-            x = self.polyval(p, fit_coeff)
+            x = self.polyval(p, fit_coeff_new)
             diff = atlas_lines - x
             diff_abs = np.abs(diff) < tolerance
 
             if diff_abs.any():
                 matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
-
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
-
-                    else:
-                        candidates.append(new_candidates)
-
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
-
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
-
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
-
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
-
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
-
-                best_err = err
-
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
+                matched_atlas.append(np.asarray(atlas_lines)[diff_abs])
+
+        # There can be more than one line within the tolerance of a peak, and
+        # more than one peak within that of a line
+        _, self.matched_peaks, self.matched_atlas = self._match_bijective(
+            dict(zip(matched_peaks, matched_atlas)),
+            matched_peaks,
+            fit_coeff_new,
+        )
 
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff_new
+        )
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
         )
-- 
2.43.0


From d76dda72798ed939a56bc3d62cfae3434fa9a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 21/27] fix: slope limits kept the extent of an earlier pixel
 list

set_calibrator_properties() replaces the pixel list, but the slope limits
(and with constrain_poly the pairs) were still those of the list before.
---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 1724568..9e13f0c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -954,6 +954,10 @@ class Calibrator:
             fill_value="extrapolate",
         )
 
+        # the range of slopes depends on the extent of the pixel list
+        if self.min_wavelength is not None:
+            self.set_hough_properties()
+
         if seed is not None:
             np.random.seed(seed)
 
-- 
2.43.0


From ff34835a3203537951ecd1ca2361bfa177860568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 22/27] fix: add_pix_wave_pair() truncated a pixel inserted
 among integer peaks

np.insert() casts to the type of the array it inserts into, so pixel 55.5
became 55 where the matched peaks were integers.
---
 src/rascal/calibrator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9e13f0c..31d6db6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1956,8 +1956,13 @@ class Calibrator:
         arg = np.searchsorted(self.matched_peaks, pix)
 
         # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        # (an array of integers would truncate what is inserted)
+        matched_peaks = np.insert(
+            np.asarray(self.matched_peaks, dtype="float"), arg, pix
+        )
+        matched_atlas = np.insert(
+            np.asarray(self.matched_atlas, dtype="float"), arg, wave
+        )
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From 1b27be3accb58b105486aaf962bc505b3ee6e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 23/27] fix: robust_polyfit() started from misordered
 coefficients when given a start

The initial coefficients (lowest order first, as returned and as passed by
manual_refit()) were scaled as such but handed to the residual function that
takes the highest order first, so that refitting a cubic or a quartic from
the solution itself could end thousands of Angstrom away.
---
 src/rascal/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 6251722..0a3ee74 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -95,13 +94,15 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
     # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
+    if x0 is not None:
+        p_init = np.array(x0, dtype="float")
+
+        for i in range(0, degree + 1):
             p_init[i] *= x.std() ** i
 
-        p_init /= y.std()
+        # x0 is lowest order first, the fit is highest order first
+        p_init = p_init[::-1] / y.std()
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From a3a1c0b93d469ea5a970fe5c209d19b53422eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 24/27] fix: match_peaks keeps the coefficients it returns when
 the refit gives no number

---
 src/rascal/calibrator.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 31d6db6..abd6c40 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1879,15 +1879,7 @@ class Calibrator:
                     "robust_polyfit() returns None. "
                     "Input solution is returned."
                 )
-                return (
-                    fit_coeff,
-                    self.matched_peaks,
-                    self.matched_atlas,
-                    self.rms,
-                    self.residuals,
-                    self.peak_utilisation,
-                    self.atlas_utilisation,
-                )
+                self.fit_coeff = fit_coeff_new
 
             else:
                 self.residuals = self.matched_atlas - self.polyval(
-- 
2.43.0


From 58ee8d14bad4a9b7c3aed89007f9633f1ad1288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 25/27] fix: a Hough transform without points is restored as N
 x 2 from json

---
 src/rascal/houghtransform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index be65896..da160e7 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -331,7 +331,9 @@ class HoughTransform:
 
             input_json = json.load(open(filename))
 
-            self.hough_points = np.array(input_json["hough_points"])
+            self.hough_points = np.array(input_json["hough_points"]).reshape(
+                -1, 2
+            )
             self.hist = np.array(input_json["hist"]).astype("float")
             self.xedges = np.array(input_json["xedges"]).astype("float")
             self.yedges = np.array(input_json["yedges"]).astype("float")
-- 
2.43.0


From 565e91e9c601f42b865c70341fa1e794740b50d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 26/27] fix: refine_peaks scales and guesses from the finite
 samples only

A single nan in the window made the initial guess nan, and an infinite
sample the scale, so the peak was always left out although the fit
itself leaves such samples out.
---
 src/rascal/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 7364ef2..1227f39 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -498,7 +498,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         start = max(0, int(peak) - window_width)
         y = spectrum[start : min(int(peak) + window_width, length)]
         # Not in place: the windows of neighbouring peaks may overlap
-        y = y / np.nanmax(y)
+        y = y / np.nanmax(np.where(np.isfinite(y), y, np.nan))
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
@@ -507,11 +507,14 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n == 0:
             continue
 
+        x = x[mask]
+        y = y[mask]
+
         mean = np.sum(x * y) / n
         sigma = np.sum(y * (x - mean) ** 2) / n
 
         try:
-            popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
+            popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
             height, centre, _ = popt
 
             if height < 0:
-- 
2.43.0


From 72cb776bcc9b802328587033332f121b5c022ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 27/27] fix: refine_peaks leaves out a peak with fewer than
 three samples

curve_fit raises TypeError there, which was not caught.
---
 src/rascal/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 1227f39..d71b97d 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -504,7 +504,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         mask = np.isfinite(y) & ~np.isnan(y)
         n = np.sum(mask)
 
-        if n == 0:
+        # The Gaussian has three parameters
+        if n < 3:
             continue
 
         x = x[mask]
-- 
2.43.0


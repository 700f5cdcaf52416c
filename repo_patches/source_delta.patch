From 64a29134323ed985f6cd3f85f3a0c626ce12929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 01/34] fix: copy the headers and extra HDUs in
 Image.copy(copy_data=False)

---
 corgidrp/data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..60d8a61 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -505,8 +505,13 @@ class Image():
             new_img = copy.deepcopy(self)
         else:
             new_img = copy.copy(self)
-            # copy the hdu_list and hdu_names list, but not their pointers
-            new_img.hdu_list = self.hdu_list.copy()
+            # headers are always copied, since they get edited with any new edits to the data
+            new_img.pri_hdr = self.pri_hdr.copy()
+            new_img.ext_hdr = self.ext_hdr.copy()
+            new_img.err_hdr = self.err_hdr.copy()
+            new_img.dq_hdr = self.dq_hdr.copy()
+            # copy the hdu_list, including its HDUs, and the hdu_names list
+            new_img.hdu_list = fits.HDUList([hdu.copy() for hdu in self.hdu_list])
             new_img.hdu_names = copy.copy(self.hdu_names)
 
         # update DRP version tracking
-- 
2.43.0


From 6ce30313bc2af35dcb8471e9c86c21f1ab443235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 02/34] fix: Image and its subclasses no longer edit the
 headers passed in by the caller

---
 corgidrp/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 60d8a61..417ddc2 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -342,8 +342,9 @@ class Image():
             # creation of a new file in DRP eyes
             if pri_hdr is None or ext_hdr is None:
                 raise ValueError("Missing primary and/or extension headers, because you passed in raw data")
-            self.pri_hdr = pri_hdr
-            self.ext_hdr = ext_hdr
+            # the headers are edited below, so leave the ones of the caller alone
+            self.pri_hdr = pri_hdr.copy()
+            self.ext_hdr = ext_hdr.copy()
             self.data = data_or_filepath
             self.filedir = "."
             self.filename = ""
@@ -393,9 +394,9 @@ class Image():
         
         # we assume that if the err_hdr and dq_hdr is given as parameter they supersede eventual existing err_hdr and dq_hdr
         if err_hdr is not None:
-            self.err_hdr = err_hdr
+            self.err_hdr = err_hdr.copy()
         if dq_hdr is not None:
-            self.dq_hdr = dq_hdr
+            self.dq_hdr = dq_hdr.copy()
         if not hasattr(self, 'err_hdr'):
             self.err_hdr = fits.Header()
         self.err_hdr["EXTNAME"] = "ERR"
-- 
2.43.0


From 1133c9b74c349d9531360e08e7da5bd71a1bc9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 03/34] fix: boresight_calibration leaves the input dataset's
 history alone

---
 corgidrp/astrom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..c750f88 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1160,8 +1160,6 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     history_msg = "Boresight calibration completed"
     astrom_cal_dataset = corgidrp.data.Dataset([avg_cal])
     astrom_cal_dataset.update_after_processing_step(history_msg)
-    ## history message should be added to the input dataset(?)
-    input_dataset.update_after_processing_step(history_msg)
 
     return avg_cal
 
-- 
2.43.0


From 5b88b0a29253d8e39e1f728b57a4ce6a6724426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 04/34] fix: calibrate_kgain works on copies of the input
 headers

---
 corgidrp/calibrate_kgain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..d9371d5 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
-- 
2.43.0


From 9973e4521be63c0bf9388e59af7aabc7274d1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 05/34] fix: calibrate_nonlin works on copies of the input
 headers

---
 corgidrp/calibrate_nonlin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..7e03b97 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -822,8 +822,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
-- 
2.43.0


From 52e53686a0262694a8e9c2f8417c1b5aa317e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 06/34] fix: build_trad_dark works on copies of the input
 headers

---
 corgidrp/darks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..2cb19b5 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From d8c9ec312b4cfa624a33560fb70b4ddcdf768466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 07/34] fix: create_onsky_flatfield does not subtract the sky
 from its input frames

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..852a578 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -244,7 +244,7 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
             ycoords, xcoords = np.indices(planet_image.shape)
             dist_from_planet = np.sqrt((xcoords - xc)**2 + (ycoords - yc)**2)
             sky_annulus = np.where((dist_from_planet >= sky_annulus_rin*planet_rad) & (dist_from_planet < sky_annulus_rout*planet_rad))
-            planet_image -= np.nanmedian(planet_image[sky_annulus])
+            planet_image = planet_image - np.nanmedian(planet_image[sky_annulus])
 
         smooth_images.append(planet_image)
         # cropping the raster scanned images
-- 
2.43.0


From 3f7cc6d5e2bc5d3ce51ae2d5922d43cbafc44f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 08/34] fix: flux calibration does not change the units of the
 input frames

---
 corgidrp/fluxcal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..415407d 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -454,6 +454,8 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     else:
         image = dataset_or_image
         dataset = corgidrp.data.Dataset([image])
+    # the units of the factor get written into the headers, so work on a copy
+    image = image.copy(copy_data=False)
     
     if phot_kwargs is None:
         phot_kwargs = {
@@ -557,6 +559,8 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     else:
         image = dataset_or_image
         dataset = corgidrp.data.Dataset([image])
+    # the units of the factor get written into the headers, so work on a copy
+    image = image.copy(copy_data=False)
     
     if phot_kwargs is None:
         phot_kwargs = {
-- 
2.43.0


From 1bdab01d9e2cfe1da6aac82c046b503d269d6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 09/34] fix: create_nd_sweet_spot_dataset works on copies of
 the input headers

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From a851acf5342df351dc87bde284e7202c15081e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 10/34] fix: update_companion_location_in_cropped_image edits a
 copy

---
 corgidrp/measure_companions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/corgidrp/measure_companions.py b/corgidrp/measure_companions.py
index 08384d9..c75c334 100644
--- a/corgidrp/measure_companions.py
+++ b/corgidrp/measure_companions.py
@@ -477,6 +477,7 @@ def update_companion_location_in_cropped_image(image, comp_keyword, old_host, ne
     Returns:
         image (corgidrp.data.Image): Image with updated companion location in the header.
     """
+    image = image.copy()
     ext_hdr = image.ext_hdr
     if comp_keyword not in ext_hdr:
         raise KeyError(f"Keyword {comp_keyword} not found in image header.")
-- 
2.43.0


From 2ce5bd4c0310dcd35cb6bdf4f1d88efb4bb26e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 11/34] fix: divide_by_exptime keeps the frames attached to the
 dataset's data cube

---
 corgidrp/l2b_to_l3.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/corgidrp/l2b_to_l3.py b/corgidrp/l2b_to_l3.py
index e982997..2831305 100644
--- a/corgidrp/l2b_to_l3.py
+++ b/corgidrp/l2b_to_l3.py
@@ -89,7 +89,7 @@ def divide_by_exptime(input_dataset):
     for i in range(len(data.frames)):
         exposure_time = float(data.frames[i].ext_hdr['EXPTIME'])
 
-        data.frames[i].data = data.frames[i].data / exposure_time
+        all_data_new[i] = data.frames[i].data / exposure_time
         # data.frames[i].err = data.frames[i].err / exposure_time
         scale_factor = (1/exposure_time) * np.ones([data.frames[i].err.shape[1], data.frames[i].err.shape[2]])
         # print(data.frames[i].err.shape)
@@ -98,7 +98,6 @@ def divide_by_exptime(input_dataset):
         #data.frames[i].rescale_error(data.frames[i].err, 'normalized by the exposure time')
         data.frames[i].rescale_error(scale_factor, 'normalized by the exposure time')
 
-        all_data_new[i] = data.frames[i].data
         all_err_new[i] = data.frames[i].err
 
         data.frames[i].ext_hdr.set('BUNIT', 'photoelectrons/s')
-- 
2.43.0


From 4fecabb873fa6afd2b50be72faadd200c31f365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 12/34] fix: register NDFilterSweetSpotDataset under the
 datatype its files carry

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 417ddc2..a0da738 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2565,7 +2565,7 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset}
 
 def autoload(filepath):
     """
-- 
2.43.0


From 7886bb941d19681d6610b69c9cac63a8d7824913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 13/34] fix: autoload reports the data shape when it cannot
 tell the datatype

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index a0da738..872a278 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2591,7 +2591,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From 9725b6f25d7fa49ba98cff338ae6ec47c2dc573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 14/34] fix: record the parent files of a product in a
 reproducible order

---
 corgidrp/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 872a278..a960431 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -477,14 +477,14 @@ class Image():
             input_dataset (corgidrp.data.Dataset): the input dataset that were combined together to make this image
         """
 
-        parent_filenames = set()
+        parent_filenames = {} # keys only: a set would not keep the order the same from run to run
         # go through filenames and also check each frames parents
         for img in input_dataset:
-            parent_filenames.add(img.filename)
+            parent_filenames[img.filename] = None
             # also check if this frame has parent frames. keep trakc of them too
             if 'DRPNFILE' in img.ext_hdr:
                 for j in range(img.ext_hdr['DRPNFILE']):
-                    parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
+                    parent_filenames[img.ext_hdr['FILE{0}'.format(j)]] = None
         
         for i, filename in enumerate(parent_filenames):
             self.ext_hdr.set('FILE{0}'.format(i), filename, "File #{0} filename used to create this frame".format(i))
-- 
2.43.0


From c09109b22556046c7f5a0005bf7aa43fab020003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 15/34] fix: content hashes are the same in every process

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index a960431..e5b7b97 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -13,6 +13,7 @@ from pyklip.instruments.utils.wcsgen import generate_wcs
 from scipy.interpolate import LinearNDInterpolator
 from astropy import wcs
 import copy
+import hashlib
 import corgidrp
 from datetime import datetime, timedelta, timezone
 
@@ -602,7 +603,7 @@ class Image():
 
         total_bytes = data_bytes + err_bytes + dq_bytes
 
-        return str(hash(total_bytes))
+        return hashlib.sha256(total_bytes).hexdigest()
 
     def add_extension_hdu(self, name, data = None, header=None):
         """
@@ -1235,7 +1236,7 @@ class DetectorParams(Image):
         for key in self.params:
             hashing_str += str(self.params[key])
 
-        return str(hash(hashing_str))
+        return hashlib.sha256(hashing_str.encode()).hexdigest()
 
 class AstrometricCalibration(Image):
     """
-- 
2.43.0


From d85e22b09cb95414f19d30475f78f9dcbeb19b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 16/34] fix: a FluxcalFactor can be made from headers that
 already record its input files

---
 corgidrp/data.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index e5b7b97..c9f422f 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1424,6 +1424,11 @@ class FluxcalFactor(Image):
                 # give it a default filename using the first input file as the base
                 # strip off everything starting at .fits
                 orig_input_filename = input_dataset[-1].filename.split(".fits")[0]
+                # use the start date for the filename by default
+                self.filedir = "."
+                # slight hack for old mocks not in the stardard filename format
+                self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
+                self.filename = re.sub('_L[0-9].', '', self.filename)
   
             self.ext_hdr['DATATYPE'] = 'FluxcalFactor' # corgidrp specific keyword for saving to disk
             # JM: moved the below to fluxcal.py since it varies depending on the method
@@ -1435,12 +1440,6 @@ class FluxcalFactor(Image):
             # Enforce data level = CAL
             self.ext_hdr['DATALVL']    = 'CAL'
 
-            # use the start date for the filename by default
-            self.filedir = "."
-            # slight hack for old mocks not in the stardard filename format
-            self.filename = "{0}_ABF_CAL.fits".format(orig_input_filename)
-            self.filename = re.sub('_L[0-9].', '', self.filename)
-
 class FpamFsamCal(Image):
     """
     Class containing the FPAM to EXCAM and FSAM to EXCAM transformation matrices.
-- 
2.43.0


From 343a37a28f87cf21e9ef52d277401e332a200656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 17/34] fix: flag_nans keeps the flags that are already set

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..fac2cb4 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,6 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(np.uint16), flag_val)
 
     return dataset_out
-- 
2.43.0


From d8cf2f4897880de040adae964c31f291b44cd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 18/34] fix: correct_bad_pixels keeps the DQ flags above the
 lowest eight bits

---
 corgidrp/l2a_to_l2b.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..857a554 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -367,17 +367,17 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.copy()
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i].astype(np.uint8),bp_mask.data.astype(np.uint8))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
         # Update DQ to keep track of replaced bad pixel values
         bp_dq_mask[bp[0], bp[1]]=np.bitwise_or(bp_dq_mask[bp[0], bp[1]], 2)
-        dq_cube[i] = bp_dq_mask
+        dq_cube[i] = np.bitwise_or(dq_cube[i], bp_dq_mask)
 
     history_msg = "removed pixels affected by bad pixels"
     data.update_after_processing_step(history_msg, new_all_data=data_cube,
-- 
2.43.0


From 57ab42d49215a842e3dc575da43d88d16f6090dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 19/34] fix: detect_cosmic_rays uses the measured EM gain of
 the frames that have one

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..96c6362 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -230,7 +230,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From 25173f830b03dfa9c2ee3e61b6c76c749a55ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 20/34] fix: crop takes its default center and size from each
 frame, not from the first

---
 corgidrp/l3_to_l4.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..96cfb0c 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -300,6 +300,8 @@ def crop(input_dataset, sizexy=None, centerxy=None):
     if not sizexy is None and not np.all(np.array(sizexy)%2==0):
         raise UserWarning('Even sizexy is required.')
        
+    input_sizexy, input_centerxy = sizexy, centerxy
+
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
 
@@ -309,6 +311,10 @@ def crop(input_dataset, sizexy=None, centerxy=None):
         dqhdr = frame.dq_hdr
         errhdr = frame.err_hdr
 
+        # the defaults depend on the frame, so start over for each one
+        sizexy = input_sizexy
+        centerxy = input_centerxy
+
         # Pick default crop size based on the size of the effective field of view
         if sizexy is None:
             if exthdr['LSAMNAME'] == 'NFOV':
-- 
2.43.0


From 375b3d0e29d6ef38fe7c83328904653542158728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 21/34] fix: convert_to_flux applies each frame's own color
 correction factor

---
 corgidrp/l4_to_tda.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..121eb29 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -151,11 +151,13 @@ def convert_to_flux(input_dataset, fluxcal_factor):
     flux_dataset = input_dataset.copy()
     flux_cube = flux_dataset.all_data
     flux_error = flux_dataset.all_err
-    if "COL_COR" in flux_dataset[0].ext_hdr:
-        color_cor_fac = flux_dataset[0].ext_hdr['COL_COR']
-    else: 
-        warnings.warn("There is no COL_COR keyword in the header, color correction was not done, it is set to 1")
-        color_cor_fac = 1
+    # each frame has its own color correction factor
+    color_cor_fac = np.ones((len(flux_dataset), 1, 1))
+    for i, frame in enumerate(flux_dataset):
+        if "COL_COR" in frame.ext_hdr:
+            color_cor_fac[i] = frame.ext_hdr['COL_COR']
+        else: 
+            warnings.warn("There is no COL_COR keyword in the header, color correction was not done, it is set to 1")
     factor = fluxcal_factor.fluxcal_fac/color_cor_fac
     factor_error = fluxcal_factor.fluxcal_err/color_cor_fac
     error_frame = flux_cube * factor_error
@@ -163,8 +165,8 @@ def convert_to_flux(input_dataset, fluxcal_factor):
     
     #scale also the old error with the flux_factor and propagate the error 
     # err = sqrt(err_flux^2 * flux_fac^2 + fluxfac_err^2 * flux^2)
-    factor_2d = np.ones(np.shape(flux_dataset[0].data)) * factor #TODO 2D should not be necessary anymore after improve_err is merged
-    flux_dataset.rescale_error(factor_2d, "fluxcal_factor")
+    factor_3d = np.ones(np.shape(flux_dataset.all_data)) * factor
+    flux_dataset.rescale_error(factor_3d, "fluxcal_factor")
     flux_dataset.add_error_term(error_frame, "fluxcal_error")
 
     history_msg = "data converted to flux unit erg/(s * cm^2 * AA) by fluxcal_factor {0} plus color correction".format(fluxcal_factor.fluxcal_fac)
-- 
2.43.0


From db905852f45a7513b0decaf08523b4413afad45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 22/34] fix: compute_flux_ratio_noise takes its defaults from
 each frame, not from the first

---
 corgidrp/l4_to_tda.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 121eb29..da40818 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -218,9 +218,9 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         klip_fwhms = frame.hdu_list['KL_THRU'].data[1:,:,1]
         min_sep = np.max([np.min(klip_seps), np.min(ct_seps)])
         max_sep = np.min([np.max(klip_seps), np.max(ct_seps)])
-        if requested_separations is None:
-            requested_separations = klip_seps
-        if np.any(requested_separations < min_sep) or np.any(requested_separations > max_sep):
+        # the defaults depend on the frame
+        separations = klip_seps if requested_separations is None else requested_separations
+        if np.any(separations < min_sep) or np.any(separations > max_sep):
             warnings.warn('Not all requested_separations are within the range of the separations used for the KLIP and core throughputs.  Extrapolation will be used.')
         ct_spacings = ct_seps - np.roll(ct_seps, 1)
         # ignore the meaningless first entry (b/c of looping around with np.roll)
@@ -229,12 +229,11 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         # ignore the meaningless first entry (b/c of looping around with np.roll)
         min_klip_spacing = np.min(klip_spacings[1:])
         min_spacing = np.min([min_ct_spacing, min_klip_spacing])
-        if halfwidth is None:
-            halfwidth = min_spacing/2
-        check.real_positive_scalar(halfwidth, 'halfwidth', ValueError)
-        if halfwidth > min_spacing/2:
+        frame_halfwidth = min_spacing/2 if halfwidth is None else halfwidth
+        check.real_positive_scalar(frame_halfwidth, 'halfwidth', ValueError)
+        if frame_halfwidth > min_spacing/2:
             warnings.warn('Halfwidth is wider than half the minimum spacing between separation values.')
-        annular_noise = measure_noise(frame, requested_separations, halfwidth) # in photoelectrons/s
+        annular_noise = measure_noise(frame, separations, frame_halfwidth) # in photoelectrons/s
         # now need to get Fp/Fs
         # For star flux, Fs:  integrated flux of star modeled as analytic formula for volume under 2-D Gaussian defined 
         # by amplitude and FWHM used for KLIP throughput calculation.  Amplitude found by doing Gaussian fit.
@@ -295,22 +294,22 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         # For planet flux, Fp:  treat the annular noise value as the amplitude of a 2-D Gaussian and use the 
         # same FWHM used for KLIP throughput calculation.  The analytic formula for volume under the Gaussian is the integrated flux.
         noise_amp = annular_noise.T
-        # interpolate FWHMs to use based on requested_separations
-        interp_fwhms = np.zeros((len(klip_fwhms), len(requested_separations)))
+        # interpolate FWHMs to use based on separations
+        interp_fwhms = np.zeros((len(klip_fwhms), len(separations)))
         for j in range(len(klip_fwhms)):
             fwhms_func = interp1d(klip_seps, klip_fwhms[j], kind='linear', fill_value='extrapolate')
-            interp_fwhms[j] = fwhms_func(requested_separations)
+            interp_fwhms[j] = fwhms_func(separations)
 
         Fp = np.pi*noise_amp*interp_fwhms**2/(4*np.log(2)) #integral of 2-D Gaussian
         # Interpolate/extrapolate the algorithm and core throughputs at the desired separations
         klip_interp_func = interp1d(klip_seps, klip_tp, kind='linear', fill_value='extrapolate')
-        klip_tp = klip_interp_func(requested_separations)
+        klip_tp = klip_interp_func(separations)
         ct_interp_func = interp1d(ct_seps, core_tp, kind='linear', fill_value='extrapolate')
-        core_tp = ct_interp_func(requested_separations)
+        core_tp = ct_interp_func(separations)
         frn_vals = (Fp/Fs)/(klip_tp*core_tp)
         # include row for separations in milli-arcseconds (mas)
-        requested_mas = requested_separations * pixscale_mas
-        flux_ratio_noise_curve = np.vstack([requested_separations, requested_mas, frn_vals])
+        requested_mas = separations * pixscale_mas
+        flux_ratio_noise_curve = np.vstack([separations, requested_mas, frn_vals])
         hdr = fits.Header()
         hdr['BUNIT'] = "Fp/Fs"
         hdr['COMMENT'] = "Flux ratio noise curve as a function of radial separation.  First row:  separation radii in pixels.  Second row:  separation radii in mas.  Remaining rows:  flux ratio noise curve values for KL mode truncations."
-- 
2.43.0


From b66f2de41d4e1ba420aeacbd9b72da4233e8f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 23/34] fix: record the measured EM gain once per sub-stack in
 the k-gain and non-linearity calibrations

---
 corgidrp/calibrate_kgain.py  | 2 +-
 corgidrp/calibrate_nonlin.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index d9371d5..6a6484f 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -876,7 +876,7 @@ def kgain_dataset_2_list(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
                 
         # Calibration data may have different subsets
         if len(sub_stack) != 0:
diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 7e03b97..014d4b5 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -906,7 +906,7 @@ def nonlin_dataset_2_stack(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
             else:
                 raise Exception('OBSNAME can only be MNFRAME or NONLIN in non-linearity')
         
-- 
2.43.0


From c98637a1dba608a13a9b8ee52a8e4c41e7bd18ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 24/34] fix: autogen_recipe leaves the template it is given
 alone

---
 corgidrp/walker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..92ee189 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import json
 import astropy.time as time
@@ -148,7 +149,8 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        # (nested, so that the template passed in is not filled in as well)
+        recipe = copy.deepcopy(template)
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From ebbbe59295062247eda40b5c3c6195edee0cd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 25/34] fix: find_star does not change the default satellite
 spot parameters

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 96cfb0c..a2e2266 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -1,5 +1,6 @@
 # A file that holds the functions that transmogrify l3 data to l4 data 
 
+import copy
 from pyklip.klip import rotate
 import scipy.ndimage
 from astropy.wcs import WCS
@@ -236,7 +237,7 @@ def find_star(input_dataset,
     if star_coordinate_guess is None:
         star_coordinate_guess = (img_sat_spot.shape[1] // 2, img_sat_spot.shape[0] // 2)
 
-    tuningParamDict = satellite_spot_parameters_defaults[observing_mode]
+    tuningParamDict = copy.deepcopy(satellite_spot_parameters_defaults[observing_mode])
     # See if the satellite spot parameters are provided, if not used defaults
     if satellite_spot_parameters is not None:
         tuningParamDict = star_center.update_parameters(tuningParamDict, satellite_spot_parameters)
-- 
2.43.0


From 10f98b564bff1ac74c6dffc737bac5a38dab5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 26/34] fix: run_recipe skips a step whose calibration turns
 out to be missing when it is looked up just in time

---
 corgidrp/walker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 92ee189..709a592 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -423,6 +423,9 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # a missing calibration may have marked this step to be skipped
+                    if "skip" in step and step["skip"]:
+                        continue
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 7786a3b9a803f19d1b92b40a7ae19f84cba0011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 27/34] fix: the choice of a filter curve does not depend on
 the order of the directory

---
 corgidrp/corethroughput.py        | 2 +-
 corgidrp/fluxcal.py               | 2 +-
 corgidrp/nd_filter_calibration.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..7f10621 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -23,7 +23,7 @@ def get_cfam(
       CFAM filter wavelength in nm and transmission.
     """
     datadir = os.path.join(here, 'data', 'filter_curves')
-    filter_names = os.listdir(datadir)
+    filter_names = sorted(os.listdir(datadir))
     filter_name = [name for name in filter_names if name.find(cfam_name) >= 0]
     if filter_name == []:
         raise ValueError(f'there is no filter available with name {cfam_name}')
diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 415407d..4b39639 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -74,7 +74,7 @@ def get_filter_name(image):
     datadir = os.path.join(os.path.dirname(__file__), "data", "filter_curves")
     filters = os.path.join(datadir, "*.csv")
     filter = image.ext_hdr['CFAMNAME']
-    filter_names = os.listdir(datadir)
+    filter_names = sorted(os.listdir(datadir))
 
     filter_name = [name for name in filter_names if filter in name]
     if filter_name == []:
diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0fbf55e..a08778f 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -115,7 +115,7 @@ def compute_expected_band_irradiance(star_name, filter_name):
     """
     calspec_filepath = fluxcal.get_calspec_file(star_name)
     datadir = os.path.join(os.path.dirname(fluxcal.__file__), "data", "filter_curves")
-    filter_files = [f for f in os.listdir(datadir) if filter_name in f and f.endswith('.csv')]
+    filter_files = [f for f in sorted(os.listdir(datadir)) if filter_name in f and f.endswith('.csv')]
     if not filter_files:
         raise ValueError(f"No filter curve available with name {filter_name}")
     
-- 
2.43.0


From c9d64b41d608716acd7fd643eb935649483c0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 28/34] fix: the plate scale and north angle are reproducible

---
 corgidrp/astrom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index c750f88..186caf3 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -712,10 +712,10 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     sub_skycoords = skycoords[center_source_inds]
 
     # Platescale calculation
-    # create random combinations of stars
+    # create random combinations of stars (the same ones for the same data, so that the calibration is reproducible)
     all_combinations = list(compute_combinations(sub_guesses))
     if len(all_combinations) > 200:
-        rand_inds = np.random.randint(low=0, high=len(all_combinations), size=200)
+        rand_inds = np.random.default_rng(0).integers(low=0, high=len(all_combinations), size=200)
         combo_list = np.array(all_combinations)[rand_inds]
     else:
         combo_list = np.array(all_combinations)
-- 
2.43.0


From d25b1a7c97be6fd34b463d4c79dfb7f5a9dd78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 29/34] fix: importing astrom does not put a developer's folder
 on the module path

---
 corgidrp/astrom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 186caf3..34329d0 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1,7 +1,5 @@
 import numpy as np
 import os
-import sys
-sys.path.insert(0, '/Users/macuser/Roman/corgidrp')
 
 import corgidrp.data
 
-- 
2.43.0


From dd49082d27c27d3f09a26f0455a96423afa551df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 30/34] fix: KGain leaves the header of the photon transfer
 curve it is given alone

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c9f422f..1927f5d 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -873,7 +873,7 @@ class KGain(Image):
             else:
                self.ptc = np.zeros([2,0])
             if ptc_hdr is not None:
-                self.ptc_hdr = ptc_hdr
+                self.ptc_hdr = ptc_hdr.copy()
             else:
                 self.ptc_hdr = fits.Header()
         
-- 
2.43.0


From ef4638bb93eb017865d45776af7a8344c15a69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 31/34] fix: em_gain_division keeps the frames attached to the
 dataset's cubes

---
 corgidrp/l2a_to_l2b.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 857a554..0e68149 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -315,8 +315,9 @@ def em_gain_division(input_dataset):
         emgain_cube[i] /= emgain
         emgain_error[i] /= emgain
 
-    dataset_list, _ = emgain_dataset.split_dataset(exthdr_keywords=['EMGAIN_C'])
-    if len(dataset_list) > 1:
+    # counted here, since splitting the dataset would detach its frames from its cubes
+    commanded_gains = {frame.ext_hdr['EMGAIN_C'] for frame in emgain_dataset}
+    if len(commanded_gains) > 1:
         history_msg = "data divided by EM gain for dataset with frames with different commanded EM gains"
     else:
         history_msg = "data divided by EM gain for dataset with frames with the same commanded EM gain"
-- 
2.43.0


From 8aba97f814cb82a654b7b89554221b2d4edf433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 32/34] fix: the l2b_to_l4 recipe gives PSF subtraction the
 core throughput calibration it needs

---
 corgidrp/recipe_templates/l2b_to_l4.json | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/corgidrp/recipe_templates/l2b_to_l4.json b/corgidrp/recipe_templates/l2b_to_l4.json
index a12a3d5..8126b64 100644
--- a/corgidrp/recipe_templates/l2b_to_l4.json
+++ b/corgidrp/recipe_templates/l2b_to_l4.json
@@ -32,7 +32,10 @@
             "name": "find_star"
         },
         {
-            "name": "do_psf_subtraction"
+            "name": "do_psf_subtraction",
+            "calibs": {
+                "CoreThroughputCalibration": "AUTOMATIC"
+            }
         },
         {
             "name": "update_to_l4",
-- 
2.43.0


From b7492580fb81fee6cb64da279b0a659f48ab112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 33/34] fix: a recipe whose optional calibration was filled in
 as None could not be run again

---
 corgidrp/walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 709a592..cef5384 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -204,7 +204,7 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        if step["calibs"][calib] is not None and "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
-- 
2.43.0


From d113f641baff2e895345585aa0dc2abafb751f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 34/34] fix: prescan_biassub aligned the prescan rows with the
 default detector geometry instead of the one it was given

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 96c6362..3151c17 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


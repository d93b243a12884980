From df87c4e2ab391e8cce91da1e6baa5639bd5d1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 01/30] fix: clip rotation matrix entries before inverting sine
 and cosine, rounding made angles NaN

---
 resippy/utils/photogrammetry_utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..96555d0 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,14 +180,11 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
-    phi = np.arcsin(m31)
+    # clip to the domain of the inverse functions, rounding can push the arguments just outside of [-1, 1]
+    phi = np.arcsin(np.clip(m31, -1, 1))
     cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
+    kappa = np.arccos(np.clip(m11 / cos_phi, -1, 1))
+    omega = np.arccos(np.clip(m33 / cos_phi, -1, 1))
     if m32 > 0:
         omega = -omega
     if m21 > 0:
-- 
2.43.0


From 10255a75b0d22c13eca9a6a6cd6618d0c6b14164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 02/30] fix: give PROJ the UTM zone number without the latitude
 band letter

---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From cf520770b9771d996339af5e566020b883abc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 03/30] fix: RPC polynomial term 19 is P^2*H, not P^2*L

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From e4c862bec8f6ebe32e01cd9a6912364fe3e759a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 04/30] fix: Pix4D third radial distortion coefficient was read
 from the second

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From 12150d0049f82e10282f0bf06d3880c7d299c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 05/30] fix: pixel-to-world solver divided by d(x)/d(lon),
 which is zero for cameras turned by 90 degrees

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..ded51c5 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -273,7 +273,7 @@ class AbstractEarthOverheadPointCalc:
             delta_py = pixel_ys - pixel_y_estimate
 
             delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            delta_lon = (delta_px * pyy - delta_py * pxy) / (pyy * pxx - pxy * pyx)
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From 0540c7e17c760cd194ae5e8e5b7140a5207a70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 06/30] fix: np.int no longer exists in NumPy, ray casting,
 chipping without bands and window sampling crashed

---
 .../abstract_earth_overhead_point_calc.py                     | 2 +-
 resippy/photogrammetry/ortho_tools.py                         | 4 ++--
 resippy/utils/image_utils/image_chipper.py                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index ded51c5..c9c10cf 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -362,7 +362,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..aec6287 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From bd711b119745e34893c1107d625b499366888d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 07/30] fix: ray casting over a constant elevation DEM or along
 vertical rays used a ray of a single sample and crashed

---
 .../abstract_earth_overhead_point_calc.py                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index c9c10cf..aabd671 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -337,8 +337,10 @@ class AbstractEarthOverheadPointCalc:
         alt_range = max_alt - min_alt
 
         # put the max and min alts at 1 percent above and below the maximum returned by the DEM
-        max_alt = max_alt + alt_range * 0.01
-        min_alt = min_alt - alt_range * 0.01
+        # a DEM of constant elevation has no range, use a margin of 1 so that the rays still cross it
+        alt_margin = alt_range * 0.01 if alt_range > 0 else 1
+        max_alt = max_alt + alt_margin
+        min_alt = min_alt - alt_margin
 
         lons_max_alt, lats_max_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, max_alt, band=band)
         lons_min_alt, lats_min_alt = self.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, min_alt, band=band)
@@ -349,7 +351,8 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        # vertical rays have no horizontal length, but still need a sample above and one below the terrain
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From 3a46999b93f32d03b5f929a5a9817fdc81bc040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 08/30] fix: bilinear DEM lookup weighted the nearest samples
 least and divided by zero at exact sample positions

---
 resippy/photogrammetry/dem/geotiff_dem.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..a7ac77a 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -113,20 +113,11 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
+            x_fractions = np.clip(pixel_locs_x - pixel_locs_x_1, 0, 1)
+            y_fractions = np.clip(pixel_locs_y - pixel_locs_y_1, 0, 1)
 
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
-
-            elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
-
-            elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
+            elevations = (1 - y_fractions) * ((1 - x_fractions) * elevations_y1x1 + x_fractions * elevations_y1x2) + \
+                y_fractions * ((1 - x_fractions) * elevations_y2x1 + x_fractions * elevations_y2x2)
 
         else:
             TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-- 
2.43.0


From 8a54ef05431523ed9866c613662f22b55daedc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 09/30] fix: DEM lookup of a one-element array lost its
 dimension, and a raster of one row or column lost an axis

---
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index a7ac77a..e674944 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -70,7 +70,7 @@ class GeotiffDem(AbstractDem):
                           geotiff_image  # type: GeotiffImage
                           ):  # type: (...) -> None
         self.gtiff = geotiff_image
-        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk())
+        self.dem_data = np.squeeze(self.gtiff.read_all_image_data_from_disk(), axis=2)
         self.set_projection(self.gtiff.get_point_calculator().get_projection())
         self.remove_nodata_values(self.nodata_value)
 
@@ -127,7 +127,7 @@ class GeotiffDem(AbstractDem):
         if world_xyz_is_2d:
             elevations = np.reshape(elevations, (ny, nx))
         else:
-            elevations = np.squeeze(elevations)
+            elevations = np.reshape(elevations, np.shape(world_x))
         return elevations
 
     def get_highest_alt(self):  # type: (...) -> float
-- 
2.43.0


From f5b8ae4e8cf7934f856a136a45d3329d2989ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 10/30] fix: removing the nodata value of an integer DEM
 raised, NaN does not fit an integer array

---
 resippy/photogrammetry/dem/geotiff_dem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index e674944..913b89a 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,6 +64,9 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                # integer rasters can not hold NaN
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 30df5c1003f7b214257d932dd913837022f6907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 11/30] fix: ENVI bip and bsq cubes were silently written and
 read as zeros

---
 resippy/utils/envi_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..29ac760 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -199,6 +199,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.ravel()
+    elif interleave == 'bsq':
+        raw_data[:] = image_cube.transpose((2, 0, 1)).ravel()
+    else:
+        raise ValueError("interleave must be 'bil', 'bip' or 'bsq'")
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -256,4 +262,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:, :, :] = raw_envi_data.reshape((ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:, :, :] = raw_envi_data.reshape((nbands, ny, nx)).transpose((1, 2, 0))
+    else:
+        raise ValueError("interleave must be 'bil', 'bip' or 'bsq'")
     return image_cube
-- 
2.43.0


From 2ccfdfb82bd3f7e7d1ae275be8f98d749b1ead78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 12/30] fix: ENVI data type 6 is single and 9 is double
 precision complex

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 29ac760..e629599 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From 70e3d9133bfdd24aa174eed4e4554d3e2346add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 13/30] fix: a geotransform of n pixels over an extent has a
 pixel size of extent / n

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 96555d0..ae9a0b8 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From f9f0bafbc79d9d73531157150c6d944fce53ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 14/30] fix: the covariance of a single band image is a 1 x 1
 matrix

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..1f0a678 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -30,13 +30,13 @@ def compute_image_cube_spectral_covariance(spectral_image,  # type: ndarray
                                            image_mask=None  # type: ndarray
                                            ):      # type: (...) -> ndarray
     if image_mask is None:
-        return np.cov(np.transpose(spectral_image))
+        return np.atleast_2d(np.cov(np.transpose(spectral_image)))
     else:
         mask = np.zeros(spectral_image.shape)
         for i in range(spectral_image.shape[1]):
             mask[:, i] = image_mask
         spectral_image = np.ma.masked_array(spectral_image, mask)
-        masked_covar = np.ma.cov(np.transpose(spectral_image))
+        masked_covar = np.atleast_2d(np.ma.cov(np.transpose(spectral_image)))
         return masked_covar
 
 
-- 
2.43.0


From aa23e8a7781e713b7de909a23fa4155d1a7c9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 15/30] fix: sam overflowed for integer images

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 1f0a678..e0bfff7 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # integer images would overflow in the products below
+    spectral_image = np.asanyarray(spectral_image, dtype=float)
+    target_spectra = np.asanyarray(target_spectra, dtype=float)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From 048ba514e38694e42c9e538d1eb29acc38d1e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 16/30] fix: covariance equalization without masks raised

---
 resippy/spectral/spectral_image_processing_2d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..71fa7b9 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None
+    flattened_mask_2 = None
+    if input_scene_mask is not None:
+        flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From 7b4cbee4b19db3b8aab2787a2a27f53e84fe6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 17/30] fix: get_image_band raised when no image data was
 loaded, callers expect None

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..e32a8db 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), or None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From 4c6425315baa3f554451c1ad816f2b45bae62596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 18/30] fix: orthos of images without coregistered bands set
 the nodata value outside of the image

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index aec6287..9d0abe8 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -216,6 +216,12 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
+
+            regridded[np.where(pixels_x <= 0)] = nodata_val
+            regridded[np.where(pixels_x >= image_data.shape[1] - 2)] = nodata_val
+
+            regridded[np.where(pixels_y <= 0)] = nodata_val
+            regridded[np.where(pixels_y >= image_data.shape[0] - 2)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
-- 
2.43.0


From cf0e413f09e579a4dd539c2f901f74b5e49a6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 19/30] fix: a full ortho in another projection covers the
 extent of the image in that projection

---
 resippy/photogrammetry/ortho_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 9d0abe8..e4f7208 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -7,6 +7,7 @@ import numpy as np
 import math
 from numpy.core.multiarray import ndarray
 from shapely.geometry import MultiPoint, Polygon
+from shapely.ops import transform as shapely_transform
 from shapely.ops import unary_union
 from pyproj import Proj
 from scipy.ndimage import map_coordinates
@@ -145,6 +146,10 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
 
     if output_proj is None:
         output_proj = overhead_image.pointcalc.get_projection()
+    elif output_proj.srs != overhead_image.pointcalc.get_projection().srs:
+        # the extent is in the projection of the image, the ortho is laid out in the output projection
+        extent = shapely_transform(lambda x, y: transform(overhead_image.pointcalc.get_projection(), output_proj, x, y),
+                                   extent)
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From 9e80bb882a2b41e167d1ef84ab2635c1f9e20349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 20/30] fix: warped image bands hold exactly the nodata value
 outside of the image

---
 resippy/utils/image_utils/image_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..18f6569 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -50,6 +50,9 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
 
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='constant', cval=nodata_val, order=order)
+    # interpolating a constant border only comes close to the nodata value, set it exactly outside of the image
+    ny, nx = image_to_warp.shape[0:2]
+    warped_image[(image_x_coords <= -1) | (image_x_coords >= nx) | (image_y_coords <= -1) | (image_y_coords >= ny)] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From 17a3799873ce0bde442fe82292948a385d56227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:06 +0000
Subject: [PATCH 21/30] fix: compute_image_cube_pca overwrote the image it was
 given

---
 resippy/spectral/spectral_image_processing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index 71fa7b9..96bdcd1 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -22,7 +22,7 @@ def compute_image_cube_pca(spectral_image,      # type: ndarray
     #                      copy=False)
     pca = PCA(n_components=n_components,
                          whiten=whiten,
-                         copy=False)
+                         copy=True)
 
     xformed = pca.fit_transform(prepped_cube)
     nsamp, ncomp = xformed.shape
-- 
2.43.0


From 8a483155e51bebe2bea75db9fb42548fd2587e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 22/30] fix: the leap second table and the epochs depended on
 the local time zone

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From d1632397b441f53a16e2e069e35afe9490a40edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 23/30] fix: GPS times shortly before a leap second were
 converted to a UTC time one second early

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..ab5b200 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the leap second table is in UTC, so look it up with the leap seconds taken out
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From 3c4408df5616cfe9f247d0bbe2e8efcfe26c8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 24/30] fix: degrees and minutes of GPS tags are rational
 numbers too

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..fe55fe3 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (d + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From 83582c021597c6dfb6b088f90f3f69f68363c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 25/30] fix: leading zeros of the fractional seconds were
 dropped

---
 .../image_objects/earth_overhead/micasense/micasense_image.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index fe55fe3..be5471e 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -44,7 +44,7 @@ class MicasenseImage(AbstractEarthOverheadImage):
         __, seconds_in_week = time_utils.utc_timestamp_to_gps_week_and_seconds(utc_timestamp)
 
         timestamp_decimal_str = str(exif_data['EXIF SubSecTime'])
-        timestamp_decimal = float('0.{}'.format(int(timestamp_decimal_str)))
+        timestamp_decimal = float('0.{}'.format(timestamp_decimal_str.strip()))
 
         output_dict = {'gps_timestamp': seconds_in_week + timestamp_decimal}
 
-- 
2.43.0


From 274fe17474fea0e5ef7756b608bb54dbc634044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 26/30] fix: normalising signed integer images overflowed

---
 resippy/utils/image_utils/image_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 18f6569..e9ca44b 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -126,8 +126,9 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
-    image_min = np.min(input_image)
-    image_max = np.max(input_image)
+    # floating point: differences of narrow integers can overflow
+    image_min = float(np.min(input_image))
+    image_max = float(np.max(input_image))
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
     normalized_image = image_zero_to_one * (new_max - new_min) + new_min
     if output_dtype is None:
-- 
2.43.0


From 51d7d1cb37167c03c4d1ba866713d05d0fdca476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:24 +0000
Subject: [PATCH 27/30] fix: colour maps of more than 128 entries overflowed
 the index of the entry

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index e9ca44b..c6ab0aa 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -209,8 +209,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From 77c1793b34c48a0ae9db285bf776f55afa67d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 28/30] fix: integer spectra could not be read with nodata
 values replaced

---
 resippy/spectral/spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..ec2a53f 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -38,6 +38,9 @@ class Spectrum:
                           ):                    # type: (...) -> ndarray
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
+            if not np.issubdtype(np.asarray(spectral_data).dtype, np.inexact):
+                # integers have no NaN
+                spectral_data = np.asarray(spectral_data, dtype=float)
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
             spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
         if with_units:
-- 
2.43.0


From 5a63feee80a23b5157bd27196c5534390a271129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:32 +0000
Subject: [PATCH 29/30] fix: nodata values that are not integers were truncated
 or refused on writing

---
 .../earth_overhead/geotiff/geotiff_image.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..fc1fb18 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -6,6 +6,7 @@ import osr
 from numpy import ndarray
 from osgeo import gdal_array
 from pyproj import Proj
+from typing import Union
 
 from resippy.image_objects.earth_overhead.abstract_earth_overhead_image import AbstractEarthOverheadImage
 from resippy.image_objects.earth_overhead.geotiff.geotiff_metadata import GeotiffMetadata
@@ -98,6 +99,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         band = self._dset.GetRasterBand(band_number + 1)
         return band.ReadAsArray()
 
+    def _get_gdal_nodata_val(self):  # type: (...) -> Union[int, float]
+        # gdal takes python numbers only, and only integers for rasters of 64 bit integers
+        nodata_val = float(self.get_metadata().get_nodata_val())
+        if np.isfinite(nodata_val) and np.floor(nodata_val) == nodata_val:
+            return int(self.get_metadata().get_nodata_val())
+        return nodata_val
+
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
         dtype = self.get_metadata().get_gdal_datatype()
@@ -115,7 +123,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +147,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 5432d2b6ba96db2c4ffd8a48aba2caa4baf5f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 30/30] fix: the scalar altitude of a location array image was
 replaced by zero

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..7714e30 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.full(lon_array.shape, alt_array)
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


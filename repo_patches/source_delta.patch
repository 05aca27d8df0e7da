From f45817dd02c9385d82d3265b3b50c082a9ab031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:36 +0000
Subject: [PATCH 01/53] fix: broadcast a single z value over pixels in
 RpcCamera.pixel_to_world_z

A one element z array with more than one pixel raised an IndexError, and an
integer z array a ValueError, although both are accepted by the validation and
by frame cameras.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..bd2a991 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -494,7 +494,7 @@ class RpcCamera(Camera):
 
         # project from pixel to geographic / RPC coordinates, removing and replacing nans around
         # the .xy call (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1])
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
@@ -544,7 +544,7 @@ class GcpCamera(Camera):  # pragma: no cover
 
         # project from pixel to GCP coordinates, removing and replacing nans around the .xy call
         # (which raises warnings on nans and converts to inf)
-        z = z * np.ones(ji.shape[1]) if np.isscalar(z) else z.copy()
+        z = z * np.ones(ji.shape[1])
         ji = ji * np.ones((2, z.shape[0])) if ji.shape[1] == 1 else ji
         mask = ~(np.any(np.isnan(ji), axis=0) | np.isnan(z))
         xy = np.full(ji.shape, fill_value=np.nan)
-- 
2.43.0


From 1ad330abeee95bf0a3535ae285ca8dec2035baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:36 +0000
Subject: [PATCH 02/53] fix: project points on the optical axis of a fisheye
 camera

The distortion scale was 0 / 0 there, which gave NaN pixel coordinates.
---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index bd2a991..8b79a56 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1475,7 +1475,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # the scale limit is 1 on the optical axis (i.e. where r is 0)
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 098a85af91df74a905f736f530f01ff9e96d8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:36 +0000
Subject: [PATCH 03/53] fix: scale a normalised focal length by the largest
 image dimension

Without a sensor size, the focal length is documented (and defined by OpenSfM)
as normalised by the maximum of sensor width and height, but it was scaled by
the image width, which is wrong for portrait images.
---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 8b79a56..a561f9d 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -675,10 +675,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "the maximum of sensor width and height.",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From be3a7500165177066185a52308135861d1e8df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:09 +0000
Subject: [PATCH 04/53] fix: look up the default nodata value by data type name
 in camera read and remap

The default nodata value of Camera.read() and Camera.remap() could not be used:
the look up with a numpy dtype raised a KeyError.
---
 orthority/camera.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index a561f9d..120f801 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1097,6 +1097,8 @@ class FrameCamera(Camera):
               bands.  Same data type as ``im_array``.
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
+        if nodata is None:
+            nodata = common._nodata_vals.get(str(image.dtype))
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
 
         # remove blurring with nodata pixels when necessary
@@ -1108,9 +1110,6 @@ class FrameCamera(Camera):
         ):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
-
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From 0217110b1f3593245998a72f353cf839e8ccb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:09 +0000
Subject: [PATCH 05/53] fix: do not modify the caller's io_kwargs in
 FrameCameras.from_images()

The automatic UTM CRS of one call was left in the caller's dictionary, and so
became the CRS of a following call with the same dictionary.
---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..cb7a1ef 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -135,7 +135,7 @@ class FrameCameras(Cameras):
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-        io_kwargs.update(crs=reader.crs)
+        io_kwargs = {**io_kwargs, 'crs': reader.crs}
         return cls(int_param_dict, ext_param_dict, io_kwargs=io_kwargs, cam_kwargs=cam_kwargs)
 
     @property
-- 
2.43.0


From 140e0fbcbe49f048c932b25f82185ca70c2dfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:28 +0000
Subject: [PATCH 06/53] fix: return independent cameras from FrameCameras.get()

Images with the same camera ID shared one camera object, so that getting the
camera of one image changed the exterior parameters of cameras returned earlier
for other images.
---
 orthority/factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index cb7a1ef..8f422d5 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 
 import warnings
 from abc import ABC, abstractmethod
+from copy import copy
 from os import PathLike
 from pathlib import Path
 from typing import IO, Sequence
@@ -228,10 +229,10 @@ class FrameCameras(Cameras):
         if cam_id not in self._cameras:
             self._cameras[cam_id] = create_camera(**int_param, **self._cam_kwargs)
 
-        # update exterior params
-        self._cameras[cam_id].update(xyz=ext_param['xyz'], opk=ext_param['opk'])
-
-        return self._cameras[cam_id]
+        # return a copy with updated exterior params (cameras returned previously should not change)
+        camera = copy(self._cameras[cam_id])
+        camera.update(xyz=ext_param['xyz'], opk=ext_param['opk'])
+        return camera
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
         # write interior params
-- 
2.43.0


From 431fd1be0b46eba3aa8b54a130614e175dc46c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:28 +0000
Subject: [PATCH 07/53] fix: recreate cameras of all file names after
 RpcCameras.refine()

Cameras are cached by the file name passed to get(), which can have an extension
that the RPC parameter key does not.  A camera got before refinement was then
returned unrefined afterwards.
---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 8f422d5..7bddf52 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -355,7 +355,7 @@ class RpcCameras(Cameras):
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
+                self._cameras.clear()  # force camera recreation
                 rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
-- 
2.43.0


From 3959128666bb67f884ab52aa7150fd0ba24a9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:28 +0000
Subject: [PATCH 08/53] fix: do not modify the caller's RPC parameters in
 RpcCameras.refine()

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 7bddf52..0178aa8 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -270,7 +270,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy so that refine() does not change the caller's dictionary
+            self._rpc_param_dict = {k: copy(v) for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From 1308ded7d84ce70c2c0ff04d2a3ff1665a843072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:59 +0000
Subject: [PATCH 09/53] fix: find the CRS of each source image separately in
 the CLI

Without --crs, the CRS of the first source image was used for all the source
images that followed.
---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..200be36 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                src_crs = crs or src_im.crs
+                if not src_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, src_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From 205a2bf6d306aa62a64a9fc9306538fe8541fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:32 +0000
Subject: [PATCH 10/53] fix: write all or none of the parameter files in
 Cameras.write_param()

When one of the files existed, or there was no world CRS, the error was raised
after other file(s) had been written.
---
 orthority/factory.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 0178aa8..345c0af 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -72,6 +72,13 @@ class Cameras(ABC):
         """
         pass
 
+    @staticmethod
+    def _test_exists(files: Sequence[OpenFile], overwrite: bool) -> None:
+        """Raise an error if any of ``files`` exists and ``overwrite`` is ``False``."""
+        for file in files:
+            if not overwrite and file.fs.exists(file.path):
+                raise FileExistsError(f"File exists: '{file.path}'")
+
 
 class FrameCameras(Cameras):
     """
@@ -235,18 +242,18 @@ class FrameCameras(Cameras):
         return camera
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
-        # write interior params
-        int_param_file = common.join_ofile(out_dir, 'int_param.yaml', mode='wt')
-        param_io.write_int_param(int_param_file, self._int_param_dict, overwrite=overwrite)
-
         if not self.crs:
             raise CrsMissingError("A world 'crs' is required to write exterior parameters.")
 
-        # write exterior params
+        int_param_file = common.join_ofile(out_dir, 'int_param.yaml', mode='wt')
         ext_param_file = common.join_ofile(out_dir, 'ext_param.geojson', mode='wt')
+        self._test_exists([int_param_file, ext_param_file], overwrite)
+
+        # write exterior params (first, as it can fail on the crs), and interior params
         param_io.write_ext_param(
             ext_param_file, self._ext_param_dict, overwrite=overwrite, crs=self.crs
         )
+        param_io.write_int_param(int_param_file, self._int_param_dict, overwrite=overwrite)
 
 
 class RpcCameras(Cameras):
@@ -390,7 +397,9 @@ class RpcCameras(Cameras):
             Whether to overwrite file(s) if they exist.
         """
         rpc_file = common.join_ofile(out_dir, 'rpc_param.yaml', mode='wt')
+        gcp_file = common.join_ofile(out_dir, 'gcps.geojson', mode='wt')
+        self._test_exists([rpc_file, gcp_file] if self._gcp_dict else [rpc_file], overwrite)
+
         param_io.write_rpc_param(rpc_file, self._rpc_param_dict, overwrite=overwrite)
         if self._gcp_dict:
-            gcp_file = common.join_ofile(out_dir, 'gcps.geojson', mode='wt')
             param_io.write_gcps(gcp_file, self._gcp_dict, overwrite=overwrite)
-- 
2.43.0


From 4afe15183892234e3069589f0201c256b9709143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:59 +0000
Subject: [PATCH 11/53] fix: pan-sharpen linearly dependent multispectral bands

Gram-Schmidt bands that are zero apart from rounding were divided by their zero
variance, giving NaN pan-sharpened values (e.g. for identical bands).
---
 orthority/pan_sharp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index acd387b..3605dde 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -373,8 +373,9 @@ class PanSharpen:
                 for l in range(k + 1):
                     num = a[l].dot(cov[k])
                     den = (a[l].reshape(-1, 1).dot(a[l].reshape(1, -1)) * cov).sum()
-                    # the 'if' below avoids dividing by zero with canonical weight vectors
-                    coeffs[k][l] = num / den if np.any(a[l] != 0) else 0
+                    # the 'if' below avoids dividing by zero with canonical weight vectors and
+                    # linearly dependent bands
+                    coeffs[k][l] = num / den if den > 1e-12 * np.trace(cov) else 0
 
             return coeffs
 
-- 
2.43.0


From 0bccfd530869dada283e00fc733ad7568ff1ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:01 +0000
Subject: [PATCH 12/53] fix: reject pan-sharpening weights that cannot be
 normalised

All zero or NaN weights (from the user or estimated) gave an output with no valid
pixels, and a negative estimated weight for a single band a TypeError.
---
 orthority/pan_sharp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 3605dde..898dfe2 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -220,8 +220,10 @@ class PanSharpen:
                     f"There should be the same number of multispectral to pan weights "
                     f"({len(weights)}) as multispectral indexes ({len(ms_indexes)})."
                 )
-            if np.any(np.array(weights) < 0):
+            if not np.all(np.array(weights) >= 0):
                 raise OrthorityError('Weight values should greater than or equal to 0.')
+            if not 0 < np.sum(weights) < np.inf:
+                raise OrthorityError('Weight values should be finite and not all 0.')
 
         return ms_indexes, weights
 
@@ -323,7 +325,7 @@ class PanSharpen:
             if weights is None:
                 # find the LS solution for the weights as described in section 2.2 & eq 6
                 weights = np.linalg.lstsq(cov[1:, 1:], cov[0, 1:].reshape(-1, 1), rcond=None)[0]
-                weights = weights.squeeze()
+                weights = weights.flatten()
 
                 # redo the LS without negatively weighted bands if there are any
                 if np.any(weights < 0):
@@ -353,6 +355,8 @@ class PanSharpen:
                     category=OrthorityWarning,
                 )
                 weights = weights.clip(0, None)
+            if not weights.sum() > 0:
+                raise OrthorityError('Could not find positive multispectral to pan weights.')
             return weights / weights.sum()
 
         def get_gs_coeffs(cov: np.ndarray, weights: np.ndarray) -> list[np.ndarray]:
-- 
2.43.0


From 3f543e80a990ab9d7a82ea280574c81f1f0e7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:01 +0000
Subject: [PATCH 13/53] fix: validate the interpolation method before opening
 the ortho file

An invalid method was only detected after an existing ortho had been overwritten
with an empty one.
---
 orthority/ortho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..f82443d 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -587,6 +587,7 @@ class Ortho:
                 )
 
             # get dem array covering ortho extents in world / ortho crs and ortho resolution
+            interp = Interp(interp)
             dem_interp = Interp(dem_interp)
             dem_array, dem_transform = self._reproject_dem(dem_interp, resolution)
             # TODO: Don't mask dem if camera is pinhole or frame with distort=False. Or make dem
@@ -618,7 +619,7 @@ class Ortho:
                 src_im,
                 ortho_im,
                 dem_array,
-                interp=Interp(interp),
+                interp=interp,
                 per_band=per_band,
                 write_mask=write_mask,
                 progress=progress,
-- 
2.43.0


From 4fa6e650b804dcaf3f4e294abd0f8f44720d9d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:49 +0000
Subject: [PATCH 14/53] fix: fit exterior parameters with the fisheye model for
 fisheye cameras

Fisheye distortion coefficients were passed to cv2.solvePnP(), which interprets
them as coefficients of the OpenCV general model.
---
 orthority/fit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..f8ed79c 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -353,7 +353,12 @@ def fit_frame_exterior(
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-        _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
+        if int_param['cam_type'] == CameraType.fisheye:
+            # solvePnP does not support the fisheye model, so pass undistorted, normalised points
+            ji = cv2.fisheye.undistortPoints(ji[:, None].astype('float64'), K, dist_param)
+            _, r, t = cv2.solvePnP(xyz, ji, np.eye(3), None, flags=cv2.SOLVEPNP_SQPNP)
+        else:
+            _, r, t = cv2.solvePnP(xyz, ji, K, dist_param, flags=cv2.SOLVEPNP_SQPNP)
         xyz_, opk = param_io._cv_ext_to_oty_ext(t, r, ref_xyz=ref_xyz)
         ext_param_dict[filename] = dict(xyz=xyz_, opk=opk, camera=cam_id)
 
-- 
2.43.0


From 55607bba3982aa8ee22d47973f50b2ecf534b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:27 +0000
Subject: [PATCH 15/53] fix: raise a parameter error for malformed interior
 parameter files

---
 orthority/param_io.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..b6b4a08 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -81,7 +81,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = str(json_param.pop('projection_type')).lower()
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
         except ValueError:
@@ -226,6 +226,15 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
             if req_key not in yaml_param:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
+        # test structure
+        try:
+            common.validate_collection(
+                dict(type=str, im_size=list, sensor_size=list),
+                {'sensor_size': [], **yaml_param},
+            )
+        except TypeError as ex:
+            raise ParamError(f"{ex!s} (camera '{cam_id}')") from ex
+
         # convert type -> cam_type
         cam_type = yaml_param.pop('type').lower()
         if cam_type not in CameraType.__members__ or cam_type == 'rpc':
@@ -250,6 +259,10 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         int_param.update(**yaml_param)
         return int_param
 
+    # test root structure
+    if not isinstance(yaml_dict, dict) or not isinstance(yaml_dict.get('camera', {}), dict):
+        raise ParamError(f"Could not parse '{filename}': no camera parameters found.")
+
     # warn if in original simple-ortho format
     if 'camera' in yaml_dict:
         warnings.warn(
@@ -260,7 +273,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         yaml_dict = yaml_dict['camera']
 
     # convert to nested dict if in flat / simple-ortho format
-    first_value = next(iter(yaml_dict.values()))
+    first_value = next(iter(yaml_dict.values()), None)
     if not isinstance(first_value, dict):
         cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
         yaml_dict = {cam_id: yaml_dict}
@@ -275,7 +288,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
     int_param_dict = {}
     for cam_id, yaml_param in yaml_dict.items():
         try:
-            int_param_dict[cam_id] = parse_yaml_param(yaml_param, cam_id)
+            int_param_dict[cam_id] = parse_yaml_param(yaml_param.copy(), cam_id)
         except ParamError as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
@@ -302,8 +315,8 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
-        json_dict = json_dict[0]['cameras']
+    if isinstance(json_dict, list) and len(json_dict) == 1 and isinstance(json_dict[0], dict):
+        json_dict = json_dict[0].get('cameras', json_dict)
 
     try:
         int_param_dict = _read_osfm_int_param(json_dict)
-- 
2.43.0


From 967a3cfd12de2755dd22c1d0e786685ce26940ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:37 +0000
Subject: [PATCH 16/53] fix: raise an Orthority error when the DEM has no valid
 data under the ortho

---
 orthority/ortho.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index f82443d..fb88328 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -176,6 +176,10 @@ class Ortho:
             # read the window from the dem
             dem_array = dem_im.read(dem_band, window=dem_win, masked=True)
             dem_array_win = dem_win
+            if dem_array.count() == 0:
+                raise OrthorityError(
+                    f"Ortho for '{self._src_name}' lies outside the valid DEM area."
+                )
 
             # reduce the dem window to contain the ortho bounds at min & max dem altitude,
             # accounting for dem-ortho vertical datum offset & z unit scaling
@@ -198,6 +202,10 @@ class Ortho:
             dem_array = dem_array[
                 dem_ij_start[0] : dem_ij_stop[0], dem_ij_start[1] : dem_ij_stop[1]
             ]
+            if dem_array.count() == 0:
+                raise OrthorityError(
+                    f"Ortho for '{self._src_name}' lies outside the valid DEM area."
+                )
             dem_transform = dem_im.window_transform(dem_win)
 
             # cast dem_array to float32 and set nodata to nan (to persist masking through cv2.remap)
-- 
2.43.0


From e7ba5a60ca727ffe73380b7e84f4fc82519cfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:28 +0000
Subject: [PATCH 17/53] fix: lock a dataset that holds both the pan and
 multispectral images once

---
 orthority/pan_sharp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 898dfe2..769a5a5 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -75,7 +75,8 @@ class PanSharpen:
         self._ms_file = ms_file
         self._profiles = self._get_vrt_profiles(pan_file, ms_file)
         self._pan_lock = Lock()
-        self._ms_lock = Lock()
+        # datasets are not thread safe, so share a lock if both images are in one dataset
+        self._ms_lock = self._pan_lock if ms_file is pan_file else Lock()
         self._out_lock = Lock()
 
     @staticmethod
-- 
2.43.0


From 74263fb57658890fe1a8ec6de232cd07bb7ee14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:34 +0000
Subject: [PATCH 18/53] fix: make the mask of undistorted orthos independent of
 the tile layout

---
 orthority/ortho.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index fb88328..5090ddd 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -360,6 +360,7 @@ class Ortho:
         init_xgrid: np.ndarray,
         init_ygrid: np.ndarray,
         interp: Interp,
+        kernel_size: np.ndarray,
         write_mask: bool,
     ) -> None:
         """Thread safe method to map the source image to an ortho tile.  Returns the tile array
@@ -367,6 +368,12 @@ class Ortho:
         """
         dtype_nodata = common._nodata_vals[ortho_im.profile['dtype']]
 
+        # pad tile_win with the pixels whose dilated mask could reach into it, so that the mask does
+        # not depend on the tile layout
+        write_win = tile_win
+        tile_win = common.expand_window_to_grid(write_win, tuple(kernel_size[::-1] // 2))
+        tile_win = tile_win.intersection(Window(0, 0, ortho_im.width, ortho_im.height))
+
         # offset init grids to tile_win
         tile_transform = rio.windows.transform(tile_win, ortho_im.profile['transform'])
         tile_xgrid = init_xgrid[: tile_win.height, : tile_win.width] + (
@@ -383,11 +390,6 @@ class Ortho:
             tile_win.col_off : (tile_win.col_off + tile_win.width),
         ]
 
-        # find mask dilation kernel size for remove blurring with nodata (when needed)
-        src_res = np.array((self._gsd, self._gsd))
-        ortho_res = np.abs((tile_transform.a, tile_transform.e))
-        kernel_size = np.maximum(np.ceil(5 * src_res / ortho_res).astype('int'), (3, 3))
-
         # remap the source to ortho
         tile_array, tile_mask = self._camera.remap(
             src_array,
@@ -399,12 +401,17 @@ class Ortho:
             kernel_size=kernel_size,
         )
 
+        # crop to write_win
+        i_off, j_off = write_win.row_off - tile_win.row_off, write_win.col_off - tile_win.col_off
+        crop = (slice(i_off, i_off + write_win.height), slice(j_off, j_off + write_win.width))
+        tile_array, tile_mask = tile_array[(slice(None), *crop)], tile_mask[crop]
+
         # write tile_array to the ortho image
         with self._write_lock:
-            ortho_im.write(tile_array, indexes, window=tile_win)
+            ortho_im.write(tile_array, indexes, window=write_win)
 
             if write_mask and (indexes == [1] or len(indexes) == ortho_im.count):
-                ortho_im.write_mask(~tile_mask, window=tile_win)
+                ortho_im.write_mask(~tile_mask, window=write_win)
 
     def _remap(
         self,
@@ -419,16 +426,21 @@ class Ortho:
         """Map the source to ortho image by interpolation, given open source and ortho datasets, DEM
         array in the ortho CRS and pixel grid, and configuration parameters.
         """
-        # Initialise an (x, y) pixel grid for the first tile here, and offset for remaining tiles
-        # in _remap_tile (requires N-up transform).
+        # find mask dilation kernel size for remove blurring with nodata (when needed)
+        src_res = np.array((self._gsd, self._gsd))
+        ortho_res = np.abs((ortho_im.profile['transform'].a, ortho_im.profile['transform'].e))
+        kernel_size = np.maximum(np.ceil(5 * src_res / ortho_res).astype('int'), (3, 3))
+
+        # Initialise an (x, y) pixel grid for the first (padded) tile here, and offset for
+        # remaining tiles in _remap_tile (requires N-up transform).
         # float64 precision is needed for the (x, y) ortho grids in world coordinates for e.g. high
         # resolution drone imagery.
         # gdal / rio geotransform origin refers to the pixel UL corner while OpenCV remap etc.
         # integer pixel coords refer to pixel centers, so the (x, y) coords are offset by half a
         # pixel to account for this.
         block_win = next(common.block_windows(ortho_im))
-        j_range = np.arange(0, block_win.width)
-        i_range = np.arange(0, block_win.height)
+        j_range = np.arange(0, block_win.width + kernel_size[0])
+        i_range = np.arange(0, block_win.height + kernel_size[1])
         init_jgrid, init_igrid = np.meshgrid(j_range, i_range, indexing='xy')
         center_transform = ortho_im.profile['transform'] * rio.Affine.translation(0.5, 0.5)
         init_xgrid, init_ygrid = center_transform * [init_jgrid, init_igrid]
@@ -474,6 +486,7 @@ class Ortho:
                         init_xgrid,
                         init_ygrid,
                         interp,
+                        kernel_size,
                         write_mask,
                     )
                     for tile_win in tile_wins
-- 
2.43.0


From 4cacce7e6f08b3c1970d4e696b64557d6e29ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:51 +0000
Subject: [PATCH 19/53] fix: write masks by default when JPEG compression is
 set with creation options

---
 orthority/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..782cdb0 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -485,6 +485,8 @@ def create_profile(
 
     else:
         profile.update(**creation_options)
+        # ``compress`` is ignored so that write_mask is resolved with the actual compression
+        compress = {k.lower(): str(v).lower() for k, v in creation_options.items()}.get('compress')
 
     # resolve auto write_mask (=None) to write masks for jpeg compression
     if write_mask is None:
-- 
2.43.0


From 5ab991334ff1018c7ffd767527b09b765d18aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:44 +0000
Subject: [PATCH 20/53] fix: find pan-sharpening parameters before the output
 image is created

---
 orthority/pan_sharp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 769a5a5..d6d4f70 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -613,7 +613,7 @@ class PanSharpen:
                 pan_im, ms_im, pan_index, ms_indexes, weights
             )
 
-            # open output image & resolve write_mask
+            # create output profile & resolve write_mask
             dtype = dtype or ms_im.dtypes[0]
             pan_profile = self._profiles['pan_to_pan']
             out_profile, write_mask = common.create_profile(
@@ -625,6 +625,13 @@ class PanSharpen:
                 creation_options=creation_options,
             )
             out_profile.update(crs=pan_profile['crs'], transform=pan_profile['transform'])
+
+            # find pan-sharpening parameters from image stats (before opening the output image, so that
+            # it is not created or overwritten if there are no valid parameters)
+            means, cov = self._get_stats(pan_im, ms_im, pan_index, ms_indexes, progress[0])
+            params = self._get_params(means, cov, weights)
+
+            # open output image
             out_im = exit_stack.enter_context(
                 common.OpenRaster(out_file, 'w', overwrite=overwrite, **out_profile)
             )
@@ -632,10 +639,6 @@ class PanSharpen:
             # copy colorinterp from MS to output
             out_im.colorinterp = [ms_im.colorinterp[mi - 1] for mi in ms_indexes]
 
-            # find pan-sharpening parameters from image stats
-            means, cov = self._get_stats(pan_im, ms_im, pan_index, ms_indexes, progress[0])
-            params = self._get_params(means, cov, weights)
-
             # open pan & upsampled MS WarpedVRTs that lie on the pan resolution grid, and have
             # common bounds
             pan_im = exit_stack.enter_context(WarpedVRT(pan_im, **self._profiles['pan_to_pan']))
-- 
2.43.0


From 49cb9c8aa8f9aa1e0832ed01dddb4508bdaff10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:24 +0000
Subject: [PATCH 21/53] fix: find the header of a CSV file with any number of
 rows

---
 orthority/param_io.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index b6b4a08..0f321f2 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1049,6 +1049,14 @@ class CsvReader(FrameReader):
             """Strip and lower the case of a string list."""
             return [str_item.strip().lower() for str_item in str_list]
 
+        def is_number(str_item: str) -> bool:
+            """Return ``True`` if a string is a number, otherwise ``False``."""
+            try:
+                float(str_item)
+            except ValueError:
+                return False
+            return True
+
         # read a sample of the csv file
         buffer.seek(0)
         sample = buffer.read(10000)
@@ -1059,11 +1067,13 @@ class CsvReader(FrameReader):
             dialect = sniffer.sniff(sample, delimiters=',;: \t')
             dialect.skipinitialspace = True
 
-        # find field names and parse to determine format
-        has_header = sniffer.has_header(sample)
+        # find field names and parse to determine format (the first row is a header unless it
+        # contains the 6 position and orientation values of an image)
+        first_row = next(iter(csv.reader(sample.splitlines(), dialect=dialect)))
+        has_header = sum(is_number(str_item) for str_item in first_row) < 6
         if not fieldnames:
             if has_header:  # read field names from header
-                fieldnames = next(iter(csv.reader(sample.splitlines(), dialect=dialect)))
+                fieldnames = first_row
             else:  # assume fields in legacy format
                 fieldnames = CsvReader._legacy_fieldnames
         fieldnames = strip_lower_strlist(fieldnames)
-- 
2.43.0


From add19d5fee865878f0b7938a83f585a355158f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:01 +0000
Subject: [PATCH 22/53] fix: detect the delimiter of CSV files from the number
 of fields, and read file objects with any line terminators

---
 orthority/param_io.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 0f321f2..17f6022 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -996,7 +996,7 @@ class CsvReader(FrameReader):
         # read file once into a buffer (newline=None works around some delimiter detection problems
         # with newline='')
         with common.Open(self._ofile or file, 'rt', newline=None) as f:
-            self._buffer = StringIO(f.read())
+            self._buffer = StringIO(f.read(), newline=None)
 
         try:
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
@@ -1039,6 +1039,28 @@ class CsvReader(FrameReader):
         }
         return format_dict[(has_xyz, has_opk)]
 
+    @staticmethod
+    def _find_dialect(sample: str) -> Dialect:
+        """Return the first detected CSV dialect that gives the 7 required fields, or the first
+        detected dialect if there is no such dialect.
+        """
+        dialects = []
+        delimiters = ',;: \t'
+        for _ in range(len(delimiters)):
+            try:
+                dialect = Sniffer().sniff(sample, delimiters=delimiters)
+            except csv.Error:
+                break
+            dialect.skipinitialspace = True
+            if len(next(iter(csv.reader(sample.splitlines(), dialect=dialect)))) >= 7:
+                return dialect
+            dialects.append(dialect)
+            delimiters = delimiters.replace(dialect.delimiter, '')
+
+        if len(dialects) == 0:
+            raise ParamError('Could not determine the delimiter.')
+        return dialects[0]
+
     @staticmethod
     def _parse_file(
         buffer: StringIO, fieldnames: Sequence[str] = None, dialect: Dialect = None
@@ -1062,10 +1084,7 @@ class CsvReader(FrameReader):
         sample = buffer.read(10000)
 
         # auto-detect dialect if not provided
-        sniffer = Sniffer()
-        if not dialect:
-            dialect = sniffer.sniff(sample, delimiters=',;: \t')
-            dialect.skipinitialspace = True
+        dialect = dialect or CsvReader._find_dialect(sample)
 
         # find field names and parse to determine format (the first row is a header unless it
         # contains the 6 position and orientation values of an image)
-- 
2.43.0


From cb83ac7806e61d2b1dbf1a47c5f65e4e26af91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:35 +0000
Subject: [PATCH 23/53] fix: raise a parameter error for CSV files with missing
 or non-numeric values

---
 orthority/param_io.py | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 17f6022..5dcb02e 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1100,20 +1100,36 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
-    def _find_lla_rpy_crs(self) -> CRS:
-        """Return a UTM CRS covering the mean of the camera positions in a
-        :attr:`~CsvFormat.lla_rpy` format file.
-        """
-        latlons = []
+    def _read_rows(self) -> list[dict[str, Any]]:
+        """Return the recognised fields of each row in the CSV file."""
         self._buffer.seek(0)
         reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-        if self._has_header:
+        if self._has_header:  # read header
             _ = next(iter(reader))
+
+        rows = []
         for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
-            latlon = (row['latitude'], row['longitude'])
-            latlons.append(latlon)
+            try:
+                if not row['filename']:
+                    raise ValueError("'filename' is missing")
+                rows.append(
+                    {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+                )
+            except (TypeError, ValueError) as ex:
+                # missing or non-numeric value
+                raise ParamError(
+                    f"Could not parse '{common.get_filename(self._file)}', line "
+                    f"{reader.line_num}: {ex!s}"
+                ) from ex
+        return rows
 
+    def _find_lla_rpy_crs(self) -> CRS:
+        """Return a UTM CRS covering the mean of the camera positions in a
+        :attr:`~CsvFormat.lla_rpy` format file.
+        """
+        latlons = [(row['latitude'], row['longitude']) for row in self._read_rows()]
+        if len(latlons) == 0:
+            raise ParamError(f"No camera positions in '{common.get_filename(self._file)}'.")
         mean_latlon = np.array(latlons).mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
 
@@ -1184,15 +1200,8 @@ class CsvReader(FrameReader):
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
         ext_param_dict = {}
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-
-        if self._has_header:  # read header
-            _ = next(iter(reader))
-
-        for row in reader:
+        for row in self._read_rows():
             filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From 313413367b58cd2e0733b9701aea2d22c2beaac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:03 +0000
Subject: [PATCH 24/53] fix: raise a parameter error for interior parameter
 values that are not numbers

---
 orthority/param_io.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 5dcb02e..136c588 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -68,6 +68,20 @@ _default_lla_crs = CRS.from_epsg(4979)
 """Default CRS for geographic camera coordinates."""
 
 
+def _validate_int_param_values(int_param: dict[str, Any], cam_id: str) -> None:
+    """Raise an error if interior parameter values are not numbers or pairs of numbers."""
+    for key, value in int_param.items():
+        schema = (int, float)
+        if key in ['im_size', 'sensor_size'] or isinstance(value, (tuple, list)):
+            schema = [(int, float)] * (2 if key in ['im_size', 'sensor_size', 'focal_len'] else 0)
+            value = list(value) if isinstance(value, tuple) else value
+        try:
+            if key != 'cam_type':
+                common.validate_collection(schema, value)
+        except (TypeError, ValueError) as ex:
+            raise ParamError(f"Invalid '{key}' value for camera '{cam_id}': {ex!s}") from ex
+
+
 def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
     """Read interior parameters from the ``cameras`` section of an OpenDroneMap / OpenSfM JSON
     dictionary.
@@ -111,6 +125,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
         if len(err_keys) > 0:
             raise ParamError(f"Unsupported parameter(s) {err_keys} for camera '{cam_id}'.")
         int_param.update(**json_param)
+        _validate_int_param_values(int_param, cam_id)
         return int_param
 
     # validate root dict
@@ -257,6 +272,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         if len(err_keys) > 0:
             raise ParamError(f"Unsupported parameter(s) {err_keys} for camera '{cam_id}'.")
         int_param.update(**yaml_param)
+        _validate_int_param_values(int_param, cam_id)
         return int_param
 
     # test root structure
-- 
2.43.0


From 778dc0b1c61f85064d2177e18fe58616271070ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:03 +0000
Subject: [PATCH 25/53] fix: reject OpenSfM interior parameters with duplicate
 camera IDs or principal points

---
 orthority/param_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 136c588..c0d0cac 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -118,6 +118,8 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
         # rename c_x->cx & c_y->cy
         for from_key, to_key in zip(['c_x', 'c_y'], ['cx', 'cy']):
             if from_key in json_param:
+                if to_key in json_param:
+                    raise ParamError(f"Both '{from_key}' and '{to_key}' given for '{cam_id}'.")
                 int_param[to_key] = json_param.pop(from_key)
 
         # validate any remaining optional params, update param_dict & return
@@ -139,6 +141,8 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
     int_param_dict = {}
     for cam_id, json_param in json_dict.items():
         cam_id = cam_id[3:] if cam_id.startswith('v2 ') else cam_id
+        if cam_id in int_param_dict:
+            raise ParamError(f"Camera ID '{cam_id}' is not unique.")
         int_param_dict[cam_id] = parse_json_param(json_param.copy(), cam_id)
 
     return int_param_dict
-- 
2.43.0


From c11c90bd83d83a4f487b0d5ef8e287c83f0458d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 26/53] fix: read the interior parameters of a camera with the
 ID 'camera'

---
 orthority/param_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index c0d0cac..c4d40bc 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -284,7 +284,12 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         raise ParamError(f"Could not parse '{filename}': no camera parameters found.")
 
     # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    # (a legacy root contains 'camera' and 'ortho' sections, or a named camera / cameras only)
+    camera_dict = yaml_dict.get('camera', {})
+    if set(yaml_dict) == {'camera', 'ortho'} or (
+        set(yaml_dict) == {'camera'}
+        and ('name' in camera_dict or not isinstance(camera_dict.get('type'), str))
+    ):
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
-- 
2.43.0


From 1ad164945690cf2f1a6a8da33c163d5693446815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 27/53] fix: reject RPC parameter files with unsupported
 parameters

---
 orthority/param_io.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index c4d40bc..e083e9d 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -477,6 +477,17 @@ def read_oty_rpc_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
 
     # convert to standard format dict
+    # test for unsupported parameters
+    opt_keys = ['err_bias', 'err_rand']
+    for im_filename, rpc_param in yaml_dict.items():
+        err_keys = set(rpc_param).difference(schema[str])
+        err_keys |= set(rpc_param['rpc']).difference(schema[str]['rpc'], opt_keys)
+        if len(err_keys) > 0:
+            raise ParamError(
+                f"Could not parse '{filename}': unsupported parameter(s) {err_keys} for image "
+                f"'{im_filename}'."
+            )
+
     rpc_param_dict = {}
     for filename, rpc_param in yaml_dict.items():
         rpc_param_dict[filename] = dict(
-- 
2.43.0


From 668b499d5f29995156d207e61d0b66e92bc35842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 28/53] fix: read whole numbers in RPC and OpenSfM parameter
 files

---
 orthority/param_io.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index e083e9d..62fd3fd 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -453,18 +453,18 @@ def read_oty_rpc_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         str: dict(
             im_size=[(float, int)] * 2,
             rpc=dict(
-                height_off=float,
-                height_scale=float,
-                lat_off=float,
-                lat_scale=float,
-                line_den_coeff=[float] * 20,
-                line_num_coeff=[float] * 20,
+                height_off=(int, float),
+                height_scale=(int, float),
+                lat_off=(int, float),
+                lat_scale=(int, float),
+                line_den_coeff=[(int, float)] * 20,
+                line_num_coeff=[(int, float)] * 20,
                 line_off=(int, float),
                 line_scale=(int, float),
-                long_off=float,
-                long_scale=float,
-                samp_den_coeff=[float] * 20,
-                samp_num_coeff=[float] * 20,
+                long_off=(int, float),
+                long_scale=(int, float),
+                samp_den_coeff=[(int, float)] * 20,
+                samp_num_coeff=[(int, float)] * 20,
                 samp_off=(int, float),
                 samp_scale=(int, float),
             ),
@@ -1300,8 +1300,14 @@ class OsfmReader(FrameReader):
         schema = [
             dict(
                 cameras=dict,  # items validated in _read_osfm_int_param()
-                shots={str: dict(rotation=[float] * 3, translation=[float] * 3, camera=str)},
-                reference_lla=dict(latitude=float, longitude=float, altitude=float),
+                shots={
+                    str: dict(
+                        rotation=[(int, float)] * 3, translation=[(int, float)] * 3, camera=str
+                    )
+                },
+                reference_lla=dict(
+                    latitude=(int, float), longitude=(int, float), altitude=(int, float)
+                ),
             )
         ]
         try:
-- 
2.43.0


From a22ab585b04ade78e547d8c38854c1baad7c4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:23 +0000
Subject: [PATCH 29/53] fix: write the world CRS itself rather than the EPSG
 code of a similar one

---
 orthority/param_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 62fd3fd..718f046 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -688,7 +688,10 @@ def write_ext_param(
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
         feat_list.append(feat_dict)
 
-    json_dict = dict(type='FeatureCollection', world_crs=crs.to_string(), features=feat_list)
+    # to_string() can give the EPSG code of a similar CRS - use WKT in this case
+    crs_str = crs.to_string()
+    crs_str = crs_str if CRS.from_string(crs_str) == crs else crs.to_wkt()
+    json_dict = dict(type='FeatureCollection', world_crs=crs_str, features=feat_list)
 
     with common.Open(file, 'wt', overwrite=overwrite) as f:
         json.dump(json_dict, f, indent=4)
-- 
2.43.0


From 7b9d878fdb486d99703dec32a190ab53f3662202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:11 +0000
Subject: [PATCH 30/53] fix: find consistent omega, phi, kappa angles of
 cameras that view along the x axis

---
 orthority/param_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 718f046..61d94a4 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -782,8 +782,11 @@ def _rotation_to_opk(R: np.ndarray) -> tuple[float, float, float]:
     """Convert the given rotation matrix to the (omega, phi, kappa) angles in radians."""
     # see https://s3.amazonaws.com/mics.pix4d.com/KB/documents/Pix4D_Yaw_Pitch_Roll_Omega_to_Phi_Kappa_angles_and_conversion.pdf
     omega = float(np.arctan2(-R[1, 2], R[2, 2]))
-    phi = float(np.arcsin(R[0, 2]))
-    kappa = float(np.arctan2(-R[0, 1], R[0, 0]))
+    phi = float(np.arctan2(R[0, 2], np.hypot(R[0, 0], R[0, 1])))
+    # find kappa given omega, so that they are consistent when phi is +/-90 degrees, and only their
+    # combination is defined
+    c, s = np.cos(omega), np.sin(omega)
+    kappa = float(np.arctan2(c * R[1, 0] + s * R[2, 0], c * R[1, 1] + s * R[2, 1]))
     return omega, phi, kappa
 
 
-- 
2.43.0


From 5f46a7e9c1aa1b0f7004418365861ac519f27e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:11 +0000
Subject: [PATCH 31/53] fix: find the UTM zone of camera positions on both
 sides of the antimeridian

---
 orthority/param_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 61d94a4..09a6992 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1172,7 +1172,9 @@ class CsvReader(FrameReader):
         latlons = [(row['latitude'], row['longitude']) for row in self._read_rows()]
         if len(latlons) == 0:
             raise ParamError(f"No camera positions in '{common.get_filename(self._file)}'.")
-        mean_latlon = np.array(latlons).mean(axis=0)
+        latlons = np.array(latlons)
+        latlons[:, 1] = np.unwrap(latlons[:, 1], period=360)  # positions across the antimeridian
+        mean_latlon = latlons.mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
 
     def _get_crs(self) -> CRS:
@@ -1440,7 +1442,9 @@ class ExifReader(FrameReader):
                 raise ParamError(f"No latitude, longitude & altitude tags in '{e.filename}'.")
             llas.append(e.lla)
 
-        mean_latlon = np.array(llas)[:, :2].mean(axis=0)
+        llas = np.array(llas)
+        llas[:, 1] = np.unwrap(llas[:, 1], period=360)  # positions across the antimeridian
+        mean_latlon = llas[:, :2].mean(axis=0)
         return common.utm_crs_from_latlon(*mean_latlon)
         # return CRS.from_proj4(f'+proj=ortho +lat_0={mean_latlon[0]} +lon_0={mean_latlon[1]}'
 
-- 
2.43.0


From 7d62cec9de8690d31a1bd6abb83bf9a2e41ca9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:11 +0000
Subject: [PATCH 32/53] fix: reject Orthority exterior parameters with a CRS
 that is not projected

---
 orthority/param_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 09a6992..ee1e60f 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1513,6 +1513,8 @@ class OtyReader(FrameReader):
                 crs = CRS.from_string(json_dict['world_crs'])
             except RioCrsError as ex:
                 raise ParamError(f"Could not interpret CRS in '{filename}': {ex!s}")
+            if not crs.is_projected:
+                raise ParamError(f"CRS in '{filename}' should be a projected system.")
 
         return crs, json_dict
 
-- 
2.43.0


From 7fe5bb5df5ae46ed90c5b326f50e9bd4cf2ea2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 33/53] fix: read tags in the EXIF namespace of images that
 have other tags too

---
 orthority/exif.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orthority/exif.py b/orthority/exif.py
index 6792875..6c4030f 100644
--- a/orthority/exif.py
+++ b/orthority/exif.py
@@ -115,8 +115,7 @@ class Exif:
         ) as ds:
             # NB: avoid calling ds.tag_namespaces() which reads more (all?) of the dataset
             # compared to ds.tags() with known ns=
-            exif_dict = ds.tags()
-            exif_dict = ds.tags(ns='EXIF') if len(exif_dict) == 0 else exif_dict
+            exif_dict = {**ds.tags(ns='EXIF'), **ds.tags()}
             self._im_size = ds.shape[::-1]
 
             xmp_dict = ds.tags(ns='xml:XMP')
-- 
2.43.0


From f60ab4099fc2ef9603881d535729840f57cf459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 34/53] fix: do not assume an altitude of zero for images
 without an altitude tag

---
 orthority/exif.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orthority/exif.py b/orthority/exif.py
index 6c4030f..0a9c155 100644
--- a/orthority/exif.py
+++ b/orthority/exif.py
@@ -306,7 +306,9 @@ class Exif:
         lon_ref_key = 'EXIF_GPSLongitudeRef'
         lat_key = 'EXIF_GPSLatitude'
         lon_key = 'EXIF_GPSLongitude'
-        if any([key not in exif_dict for key in [lat_ref_key, lon_ref_key, lat_key, lon_key]]):
+        alt_key = 'EXIF_GPSAltitude'
+        lla_keys = [lat_ref_key, lon_ref_key, lat_key, lon_key, alt_key]
+        if any([key not in exif_dict for key in lla_keys]):
             return None
 
         # get latitude, longitude
@@ -321,7 +323,7 @@ class Exif:
         lon = dms_to_decimal(Exif._get_exif_float(exif_dict, lon_key), exif_dict[lon_ref_key])
 
         # get altitude
-        alt = Exif._get_exif_float(exif_dict, 'EXIF_GPSAltitude') or 0.0
+        alt = Exif._get_exif_float(exif_dict, alt_key)
         alt_ref = int(exif_dict.get('EXIF_GPSAltitudeRef', '0x00'), 0)
         if alt_ref == 1:
             alt *= -1
-- 
2.43.0


From 923bead2bb1095f7aa0ab2de453d67c5729cb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 35/53] fix: ignore focal plane resolution tags that are zero

---
 orthority/exif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/exif.py b/orthority/exif.py
index 0a9c155..95b6eda 100644
--- a/orthority/exif.py
+++ b/orthority/exif.py
@@ -282,6 +282,8 @@ class Exif:
         pixels_per_unit = np.array(
             [Exif._get_exif_float(exif_dict, xres_key), Exif._get_exif_float(exif_dict, yres_key)]
         )
+        if not np.all(pixels_per_unit):
+            return None
         return tuple((mm_per_unit * np.array(im_size) / pixels_per_unit).tolist())
 
     @staticmethod
-- 
2.43.0


From 5fba5fc8d59da99dffeae30977579f885dbe3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 36/53] fix: read separate interior parameters for EXIF images
 of one camera that differ

---
 orthority/param_io.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index ee1e60f..480208a 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1448,20 +1448,37 @@ class ExifReader(FrameReader):
         return common.utm_crs_from_latlon(*mean_latlon)
         # return CRS.from_proj4(f'+proj=ortho +lat_0={mean_latlon[0]} +lon_0={mean_latlon[1]}'
 
+    def _read_cameras(self) -> tuple[dict[str, dict[str, Any]], dict[str, str]]:
+        """
+        Return interior camera parameters, and a dictionary of image file names to camera IDs.
+        Images with the same camera make, model and serial number, but different parameters (e.g.
+        focal lengths), are given different camera IDs.
+        """
+        int_param_dict, cam_ids = {}, {}
+        for filename, exif in self._exif_dict.items():
+            for exif_cam_id, int_param in _read_exif_int_param(exif).items():
+                cam_id, i = exif_cam_id, 1
+                while int_param_dict.setdefault(cam_id, int_param) != int_param:
+                    i += 1
+                    cam_id = f'{exif_cam_id} {i}'
+                cam_ids[filename] = cam_id
+        return int_param_dict, cam_ids
+
     def read_int_param(self) -> dict[str, dict[str, Any]]:
         """Read interior camera parameters."""
-        int_param_dict = {}
-        for filename, exif in self._exif_dict.items():
-            int_param = _read_exif_int_param(exif)
-            int_param_dict.update(**int_param)
-        return int_param_dict
+        return self._read_cameras()[0]
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
+        try:
+            cam_ids = self._read_cameras()[1]
+        except ParamError:
+            cam_ids = {}  # there are no interior parameters to refer to
         ext_param_dict = {}
         for filename, exif in self._exif_dict.items():
-            ext_param_dict.update(
-                **_read_exif_ext_param(exif, crs=self._crs, lla_crs=self._lla_crs)
-            )
+            ext_param = _read_exif_ext_param(exif, crs=self._crs, lla_crs=self._lla_crs)
+            if filename in cam_ids:
+                ext_param[filename]['camera'] = cam_ids[filename]
+            ext_param_dict.update(**ext_param)
         return ext_param_dict
 
 
-- 
2.43.0


From 9fa8a0c0017af399635c214eae129ad1a0681f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 37/53] fix: ignore numerical noise when expanding a window to
 the pixel grid

---
 orthority/common.py    | 11 ++++++-----
 orthority/pan_sharp.py |  2 ++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/orthority/common.py b/orthority/common.py
index 782cdb0..c970180 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -80,11 +80,12 @@ def suppress_no_georef():
 
 
 def expand_window_to_grid(win: Window, expand_pixels: tuple[int, int] = (0, 0)) -> Window:
-    """Expand rasterio window extents to the nearest whole numbers."""
-    col_off, col_frac = np.divmod(win.col_off - expand_pixels[1], 1)
-    row_off, row_frac = np.divmod(win.row_off - expand_pixels[0], 1)
-    width = np.ceil(win.width + 2 * expand_pixels[1] + col_frac)
-    height = np.ceil(win.height + 2 * expand_pixels[0] + row_frac)
+    """Expand rasterio window extents to the nearest whole numbers, ignoring numerical noise."""
+    tol = 1e-6
+    col_off = np.floor(win.col_off - expand_pixels[1] + tol)
+    row_off = np.floor(win.row_off - expand_pixels[0] + tol)
+    width = np.ceil(win.col_off + win.width + expand_pixels[1] - tol) - col_off
+    height = np.ceil(win.row_off + win.height + expand_pixels[0] - tol) - row_off
     exp_win = Window(int(col_off), int(row_off), int(width), int(height))
     return exp_win
 
diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index d6d4f70..c7099a9 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -140,6 +140,8 @@ class PanSharpen:
                 pan_win_ = ms_ds.window(*pan_bounds_)
                 ms_win = pan_win_.intersection(ms_ds.window(*ms_ds.bounds))
                 ms_win = common.expand_window_to_grid(ms_win)
+                if 0 in (pan_win.width, pan_win.height, ms_win.width, ms_win.height):
+                    raise OrthorityError('Pan and multispectral bounds do not overlap.')
 
             # test resolutions
             pan_res = np.abs((pan_src_transform[0], pan_src_transform[4]))
-- 
2.43.0


From ba6dcdad35fc13fa91e2943b156b75c728562b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 38/53] fix: pan-sharpening treats pixels with nodata in some
 bands only as valid

---
 orthority/pan_sharp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index c7099a9..f3b692d 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -183,6 +183,7 @@ class PanSharpen:
                     dtype=PanSharpen._working_dtype,
                     nodata=PanSharpen._working_nodata,
                     num_threads=os.cpu_count(),
+                    unified_src_nodata='NO',
                 )
         return profiles
 
-- 
2.43.0


From 262f562e924b87ccc1ce3216b91f596dc34f9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 39/53] fix: pan-sharpening with a constant pan image or one
 valid pixel gives NaNs

---
 orthority/pan_sharp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index f3b692d..f7e3257 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -311,7 +311,7 @@ class PanSharpen:
                     means += mean_diffs * tile_n / n
 
         # convert prod to unbiased covariance (as with numpy.cov default)
-        cov = prod / (n - 1)
+        cov = prod / max(n - 1, 1)
         return means, cov
 
     def _get_params(self, means: np.ndarray, cov: np.ndarray, weights: np.ndarray | None) -> dict:
@@ -407,7 +407,8 @@ class PanSharpen:
             )
 
             # equations 2 & 3 from https://patents.google.com/patent/US6011875A/en
-            gain = pan_sim_std / pan_std
+            # (a constant pan image can only be mean-matched)
+            gain = pan_sim_std / pan_std if pan_std > 1e-12 * np.abs(pan_mean) else 1.0
             bias = pan_sim_mean - (gain * pan_mean)
             return gain, bias
 
-- 
2.43.0


From f31b609fc0a40af278abb590804ef9cc8b44ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:18 +0000
Subject: [PATCH 40/53] fix: pan-sharpened image has no CRS when the pan image
 is not georeferenced

---
 orthority/pan_sharp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index f7e3257..05581e3 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -92,6 +92,7 @@ class PanSharpen:
             ms_ds = exit_stack.enter_context(common.OpenRaster(ms_file))
             # maintain source transforms separately as un-georeferenced images get custom
             # transforms
+            pan_crs = pan_ds.crs
             pan_src_transform = pan_ds.transform
             ms_src_transform = ms_ds.transform
 
@@ -120,6 +121,7 @@ class PanSharpen:
                 )
                 # create a custom pan transform that matches pan to MS bounds
                 pan_scale = np.array(ms_ds.shape[::-1]) / pan_ds.shape[::-1]
+                pan_crs = ms_ds.crs
                 pan_src_transform = ms_ds.transform * rio.Affine.scale(*pan_scale)
                 # full / matching pan & MS windows
                 pan_win = Window(0, 0, pan_ds.width, pan_ds.height)
@@ -158,7 +160,7 @@ class PanSharpen:
             pan_transform = window_transform(pan_win, pan_src_transform)
             ms_transform = window_transform(ms_win, ms_src_transform)
             profiles['pan_to_pan'] = dict(
-                crs=pan_ds.crs,
+                crs=pan_crs,
                 src_transform=pan_src_transform,
                 transform=pan_transform,
                 width=pan_win.width,
-- 
2.43.0


From 60cdded84660a31470de858679e569f830b3d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:16 +0000
Subject: [PATCH 41/53] fix: keep interpolation within valid multispectral
 pixels

---
 orthority/pan_sharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/pan_sharp.py b/orthority/pan_sharp.py
index 05581e3..ec021ce 100644
--- a/orthority/pan_sharp.py
+++ b/orthority/pan_sharp.py
@@ -185,7 +185,7 @@ class PanSharpen:
                     dtype=PanSharpen._working_dtype,
                     nodata=PanSharpen._working_nodata,
                     num_threads=os.cpu_count(),
-                    unified_src_nodata='NO',
+                    unified_src_nodata='PARTIAL',
                 )
         return profiles
 
-- 
2.43.0


From 3ea03a0a2cb5a454d2a39151d11f5b2334b31533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 42/53] fix: fit exterior parameters in double precision

---
 orthority/fit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orthority/fit.py b/orthority/fit.py
index f8ed79c..87b5364 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -146,12 +146,12 @@ def _gcps_to_cv_coords(
         xyz = np.array([gcp['xyz'] for gcp in gcps])
         if crs:
             xyz = np.array(transform(CRS.from_epsg(4979), crs, *(xyz.T))).T
-        jis.append(ji.astype('float32'))
+        jis.append(ji.astype('float64'))
         xyzs.append(xyz)
 
-    # offset world coordinates and convert to float32
+    # offset world coordinates
     ref_xyz = np.vstack(xyzs).mean(axis=0)
-    xyzs = [(xyz - ref_xyz).astype('float32') for xyz in xyzs]
+    xyzs = [xyz - ref_xyz for xyz in xyzs]
     return jis, xyzs, ref_xyz
 
 
@@ -198,6 +198,9 @@ def _fit_frame(
 
     # convert GCPs to OpenCV compatible lists of arrays
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
+    # OpenCV calibration requires float32 coordinates
+    jis = [ji.astype('float32') for ji in jis]
+    xyzs = [xyz.astype('float32') for xyz in xyzs]
 
     # check if GCPs are co-planar (replicates OpenCV's test)
     zs = np.vstack([xyz[:, 2] for xyz in xyzs])
-- 
2.43.0


From d0b8d645ca1e94b542c6a9f128f20e86077ff9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 43/53] fix: reject a --crs or --lla-crs image that has no CRS

---
 orthority/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/cli.py b/orthority/cli.py
index 200be36..0628226 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -144,6 +144,8 @@ def _read_crs(crs: str):
     if crs_path.suffix.lower() in ['.tif', '.tiff']:
         # read CRS from geotiff path / URL
         with common.suppress_no_georef(), common.OpenRaster(crs, 'r') as im:
+            if not im.crs:
+                raise CrsMissingError(f"No CRS found in '{common.get_filename(im)}'.")
             crs = im.crs
     else:
         if crs_path.exists() or urlparse(crs).scheme in fsspec.available_protocols():
-- 
2.43.0


From 0990f36c31f62f2db0743f48078e41995b0183c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 44/53] fix: reject resolution option values that are not
 positive and finite

---
 orthority/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/cli.py b/orthority/cli.py
index 0628226..21d3029 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -217,6 +217,8 @@ def _resolution_cb(
         resolution *= 2
     elif len(resolution) > 2:
         raise click.BadParameter('At most two resolution values should be specified.', param=param)
+    if not all(0 < res < np.inf for res in resolution):
+        raise click.BadParameter('Resolution values should be positive and finite.', param=param)
     return resolution
 
 
-- 
2.43.0


From e8928aa6d4d264028ea8fb5de448e626c051537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 45/53] fix: report too few GCPs as a usage error of the rpc
 command

---
 orthority/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 21d3029..8b44539 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1018,7 +1018,7 @@ def rpc(
                 )
             else:
                 cameras.refine(gcp_refine, fit_kwargs=fit_kwargs)
-        except (FileNotFoundError, OrthorityError) as ex:
+        except (FileNotFoundError, ValueError, OrthorityError) as ex:
             raise click.BadParameter(str(ex), param_hint="'-gr / --gcp-refine'")
 
     # orthorectify
-- 
2.43.0


From d9dda6d3bc036280f05af67a1b4a828c9f6cb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 46/53] fix: write each simple-ortho image to its own source
 directory

---
 orthority/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 8b44539..77e51f0 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1344,8 +1344,9 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                ortho_filename = Path(ortho_dir or src_filename.parent).joinpath(
+                    src_filename.stem + '_ORTHO.tif'
+                )
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0


From 7b79902b882ffe6f49c50b0831de194d10fdd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 47/53] fix: report a DEM without CRS as an error

---
 orthority/ortho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index 5090ddd..ea3e4cc 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -136,6 +136,8 @@ class Ortho:
                 raise OrthorityError(
                     f"DEM band {dem_band} is invalid for '{dem_name}' with {dem_im.count} band(s)"
                 )
+            if not dem_im.crs:
+                raise CrsMissingError(f"DEM '{common.get_filename(dem_file)}' has no CRS.")
             # crs comparison is time-consuming - perform it once here
             crs_equal = self._crs == dem_im.crs
 
-- 
2.43.0


From de48d33c1139e77dbd4f250dfd563faea2908966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:23 +0000
Subject: [PATCH 48/53] fix: leave RPC models as they were when a refinement
 fails

---
 orthority/factory.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 345c0af..e58425e 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -351,25 +351,31 @@ class RpcCameras(Cameras):
         if gcps and not isinstance(gcps, dict):
             # read GCPs
             if isinstance(gcps, (list, tuple)):
-                self._gcp_dict = param_io.read_im_gcps(gcps, **(io_kwargs or {}))
+                gcp_dict = param_io.read_im_gcps(gcps, **(io_kwargs or {}))
             else:
-                self._gcp_dict = param_io.read_oty_gcps(gcps)
+                gcp_dict = param_io.read_oty_gcps(gcps)
         else:
-            self._gcp_dict = gcps
+            gcp_dict = gcps
 
         # refine RPC parameters with GCPs
-        for filename, rpc_param in self._rpc_param_dict.items():
-            filename = Path(filename)
-            gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
+        refined_rpcs = {}
+        for key, rpc_param in self._rpc_param_dict.items():
+            filename = Path(key)
+            gcps = gcp_dict.get(filename.name, gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.clear()  # force camera recreation
-                rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
+                refined_rpcs[key] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
                     f"Could not find any GCPs for '{filename}'.", category=OrthorityWarning
                 )
 
+        # apply refinements once they have all succeeded
+        self._gcp_dict = gcp_dict
+        for key, rpc in refined_rpcs.items():
+            self._cameras.clear()  # force camera recreation
+            self._rpc_param_dict[key]['rpc'] = rpc
+
     def get(self, filename: str | PathLike | OpenFile | rio.DatasetReader) -> RpcCamera:
         # get RPC params for filename
         filename = Path(common.get_filename(filename))
-- 
2.43.0


From 3bddc835b9af95efa3e59b9ccbcab8e5b22ed7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 49/53] fix: report source images whose orthos would overwrite
 each other

---
 orthority/cli.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orthority/cli.py b/orthority/cli.py
index 77e51f0..16341a7 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -326,6 +326,13 @@ def _ortho(
     elif not dem_file:
         raise click.MissingParameter(param_hint="'-d' / '--dem'", param_type='option')
 
+    # prevent source images from overwriting each other's ortho
+    src_paths = {}
+    for src_file in src_files:
+        src_stem = Path(src_file.path).stem
+        if src_paths.setdefault(src_stem, src_file.path) != src_file.path:
+            raise click.UsageError(f"More than one source image is named '{src_stem}'.")
+
     # open & validate dem_file (open it once here so it is not opened repeatedly in
     # orthorectification below)
     try:
-- 
2.43.0


From 5ca178a1c075ee2f886c4edd8ae57f089ac7897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:15 +0000
Subject: [PATCH 50/53] fix: scale geoid shifts of DEM heights to the vertical
 unit of the world CRS

---
 orthority/ortho.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index ea3e4cc..c5f874e 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -295,6 +295,7 @@ class Ortho:
             init_dest_nodata=True,
             apply_vertical_shift=True,
             mult_factor_vertical_shift=z_scale,
+            mult_factor_vertical_shift_pipeline=z_scale,
             num_threads=os.cpu_count(),
         )
         return dem_array.squeeze(), dem_transform
-- 
2.43.0


From d65ccc032b747e5c5db165dbb68b1a671afbbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:09 +0000
Subject: [PATCH 51/53] fix: back-project nan pixels of fisheye cameras to nan
 points

---
 orthority/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/camera.py b/orthority/camera.py
index 120f801..ed86765 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1485,6 +1485,8 @@ class FisheyeCamera(FrameCamera):
         ji_cv = ji.T[None, :].astype('float64', copy=False)
         xyz_ = cv2.fisheye.undistortPoints(ji_cv, self._K, self._dist_param, None, None)
         xyz_ = np.vstack([xyz_[0].T, np.ones((1, ji.shape[1]))])
+        # OpenCV gives an arbitrary point for nan pixels with some distortion coefficients
+        xyz_[:2, np.any(np.isnan(ji), axis=0)] = np.nan
         return xyz_
 
 
-- 
2.43.0


From ff0ae59bf08974152a5b955fa6a42c4ec42dabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:55 +0000
Subject: [PATCH 52/53] fix: find the .prj file of CSV files without an
 extension

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 480208a..d340a6f 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1184,7 +1184,7 @@ class CsvReader(FrameReader):
         if self._format is CsvFormat.xyz_opk or self._format is CsvFormat.xyz_rpy:
             if self._ofile:
                 # read CRS of xyz positions / opk orientations from .prj file, if it exists
-                prj_path = self._ofile.path[: self._ofile.path.rfind('.')] + '.prj'
+                prj_path = os.path.splitext(self._ofile.path)[0] + '.prj'
                 prj_name = Path(prj_path).name
                 try:
                     with self._ofile.fs.open(prj_path, 'rt') as f:
-- 
2.43.0


From 244cb6e544e49a7cf7fb0c98e34d16f179fe35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 53/53] fix: read GCP files without the optional id and info
 properties

---
 orthority/param_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index d340a6f..dae65f8 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -589,7 +589,7 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         features=[
             dict(
                 type='Feature',
-                properties=dict(ji=[(int, float)] * 2, filename=str, id=None, info=None),
+                properties=dict(ji=[(int, float)] * 2, filename=str),
                 geometry=dict(type='Point', coordinates=[(int, float)] * 3),
             )
         ],
@@ -606,7 +606,8 @@ def read_oty_gcps(file: str | PathLike | OpenFile | IO[str]) -> dict[str, list[d
         prop_dict = feat_dict['properties']
         filename = prop_dict['filename']
         xyz = tuple(feat_dict['geometry']['coordinates'])
-        gcp = dict(ji=tuple(prop_dict['ji']), xyz=xyz, id=prop_dict['id'], info=prop_dict['info'])
+        gcp_id, info = prop_dict.get('id', None), prop_dict.get('info', None)
+        gcp = dict(ji=tuple(prop_dict['ji']), xyz=xyz, id=gcp_id, info=info)
 
         if filename not in gcp_dict:
             gcp_dict[filename] = [gcp]
-- 
2.43.0


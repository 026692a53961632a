From 75ffa7aa4fcf4fc62b87291c2a481e1fe4f91040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 01/58] fix: rescale_dataset honours overwrite=True for hdf
 output

With overwrite=True an existing hdf file was kept as it was and the result
went to a new file with a numbered name.
---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..4040902 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -558,7 +558,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=overwrite)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From a77c61ecb4e95d2bb470d66f504a0604a6578748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 02/58] fix: reslice_dataset keeps a folder having the name of
 the hdf output

Writing to 'x.hdf' removed the whole folder 'x' at the end, although the
folder had been there before and only 'x/tmp_' is made by the function.
---
 algotom/post/postprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 4040902..7fd9fc6 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -839,6 +839,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     in_type = __get_input_type(input_)
     if in_type != "tif" and in_type != "hdf":
         raise ValueError("Wrong input type !!!")
+    base_exist = os.path.isdir(os.path.splitext(output)[0])
     results = __save_intermediate_data(input_, output, axis, crop, key_path,
                                        rotate, chunk, mode, ncore,
                                        show_progress)
@@ -948,7 +949,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                                          axis=1, ncore=ncore, prefer="threads")
     if os.path.isdir(folder_tmp):
         shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
+        if out_type == "hdf" and not base_exist:
             shutil.rmtree(os.path.splitext(output)[0])
     if show_progress:
         t1 = timeit.default_timer()
-- 
2.43.0


From f25501c6fadcf5725d21cae009a46d40f658b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 03/58] fix: tell flat/dark stacks from images by their
 dimensions

An image of exactly 3 rows was averaged as if it were a stack, and a stack
of any number of frames other than 3 was refused.
---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..b14222e 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -880,7 +880,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if np.ndim(flat_field) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -889,7 +889,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if np.ndim(dark_field) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From 2ba99898b4fe9d20a0093c84dd1028b1780c37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/58] fix: average only the frames marked as reference or
 dark

get_reference_sample_stacks_dls averaged every frame between the first and
the last one marked, projections included, and failed if there was only one
frame of a type.
---
 algotom/io/loadersaver.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index b14222e..21340ee 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -692,10 +692,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
@@ -703,10 +702,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
         if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right],
+                axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
@@ -834,19 +832,17 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                                          "".format(num_img))
             list_tmp = np.where(int_keys == 0.0)[0]
             if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+                list_idx = np.sort(np.int32(list_tmp))
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
             list_num_proj.append(len(list_tmp))
             list_tmp = np.where(int_keys == 1.0)[0]
             if len(list_tmp) != 0:
-                list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_ref_idx.append(np.sort(np.int32(list_tmp)))
             list_tmp = np.where(int_keys == 2.0)[0]
             if len(list_tmp) != 0:
-                list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                list_dark_idx.append(np.sort(np.int32(list_tmp)))
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
-- 
2.43.0


From 75bc9dab0bde802489c8ba27384f923417291b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/58] fix: HdfEmulatorFromTif finds files with the .TIF
 extension

The search for them was never reached (the first search raises if it finds
nothing) and its result was dropped.
---
 algotom/io/converter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..d116816 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -167,11 +167,10 @@ class HdfEmulatorFromTif:
     >>> image_stack = hdf_emulator[:, 0:4, :]
     """
     def __init__(self, folder_path, ncore=1):
-        self.files = losa.find_file(folder_path + "/*tif*")
-        if len(self.files) == 0:
-            files = losa.find_file(folder_path + "/*TIF*")
-        if len(self.files) == 0:
-            raise ValueError(f"!!! No tif files found in: {folder_path}")
+        try:
+            self.files = losa.find_file(folder_path + "/*tif*")
+        except FileNotFoundError:
+            self.files = losa.find_file(folder_path + "/*TIF*")
         self.n_jobs = ncore
         self._shape, self._dtype = self._get_shape_and_dtype()
 
-- 
2.43.0


From ea8227a597ebaab1d5eabb2d2c55cfb1ca7f7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/58] fix: subtract dark-field images of an unsigned integer
 type as floats

Differences of unsigned integer images wrapped around below zero.
---
 algotom/io/loadersaver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 21340ee..c143797 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -679,7 +679,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "the same as projection image "
                              "({0}, {1})".format(height, width))
         else:
-            flat_ave = flat_field[top: bot, left:right]
+            flat_ave = 1.0 * flat_field[top: bot, left:right]
     else:
         flat_ave = np.ones((height1, width1), dtype=np.float32)
     if dark_field is not None:
@@ -688,7 +688,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "the same as projection image "
                              "({0}, {1})".format(height, width))
         else:
-            dark_ave = dark_field[top: bot, left:right]
+            dark_ave = 1.0 * dark_field[top: bot, left:right]
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
@@ -876,6 +876,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
+        flat_field = 1.0 * flat_field
         if np.ndim(flat_field) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
@@ -885,6 +886,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
+        dark_field = 1.0 * dark_field
         if np.ndim(dark_field) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
-- 
2.43.0


From 5175bbe830fd9cf856b0695c2d92f663bf00623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 07/58] fix: locate_slice_chunk weighs middle grid-rows with
 the right overlaps

Both overlaps of a grid-row in the middle were applied at both of its ends,
so if they differ the weights did not sum to one.
---
 algotom/util/utility.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..a68a1a5 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1284,12 +1284,7 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap1:
                             fact = dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = dis1 / (ver_overlap2 - 1)
                         if pos < ver_overlap2:
                             fact = pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
@@ -1309,17 +1304,12 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                             fact = 1.0 * dis1 / (ver_overlap - 1)
                     else:
                         ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = 1.0 * dis1 / (ver_overlap1 - 1)
                         if pos < ver_overlap1:
                             fact = 1.0 * pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap2:
                             fact = 1.0 * dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = 1.0 * pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
-- 
2.43.0


From e095846061c97717e2ea6a649bd865c9d4c86069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 08/58] fix: back_projection_cpu shares out image rows, not
 projections, to threads

Threads working on different projections added to the same pixels at the
same time and lost contributions, so results changed from run to run.
---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..42fd676 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,12 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From fef507f7e601b28f5a5a69942dcf13ead89598f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 09/58] fix: unwarp_sinogram_chunk reads the last row it needs

The row below the lowest coordinate was cut off, so a chunk reaching the
bottom of the images repeated the row above the last one.
---
 algotom/prep/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..5843566 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -277,7 +277,7 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
     yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
+    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From 9d489c2b49b706172bbf5ca177a75db21807b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 10/58] fix: find_overlap passes denoise and norm in the right
 order

With side=None (the default) the two options were swapped.
---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..64987c1 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -601,10 +601,10 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         overlap = overlap_position + win_width // 2
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
-                                                 norm, denoise, use_overlap,
+                                                 denoise, norm, use_overlap,
                                                  ncore)
         (list_metric2, offset2) = search_overlap(mat1, mat2, win_width, 0,
-                                                 norm, denoise, use_overlap,
+                                                 denoise, norm, use_overlap,
                                                  ncore)
         (curvature1, overlap_position1) = calculate_curvature(list_metric1)
         overlap_position1 = overlap_position1 + offset1
-- 
2.43.0


From 875a4bfc7126c24662a9ccac74020ab169846ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 11/58] fix: find_overlap uses the half-window the search
 really used

search_overlap shortens a window as wide as half of an image, so the
overlap came out one pixel too large.
---
 algotom/prep/calculation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 64987c1..0236b45 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -591,14 +591,14 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = ncol1 - overlap_position + win_width // 2
+        overlap = ncol1 - overlap_position + offset
     elif side == 0:
         (list_metric, offset) = search_overlap(mat1, mat2, win_width, side,
                                                denoise, norm, use_overlap,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = overlap_position + win_width // 2
+        overlap = overlap_position + offset
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
                                                  denoise, norm, use_overlap,
@@ -613,11 +613,11 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         if curvature1 > curvature2:
             side = 1
             overlap_position = overlap_position1
-            overlap = ncol1 - overlap_position + win_width // 2
+            overlap = ncol1 - overlap_position + offset1
         else:
             side = 0
             overlap_position = overlap_position2
-            overlap = overlap_position + win_width // 2
+            overlap = overlap_position + offset2
     return overlap, side, overlap_position
 
 
-- 
2.43.0


From afaa685b44f2ae1935af792190004835d7ffad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 12/58] fix: find_center_projection no longer half a pixel too
 low

Columns 0..overlap-1 mirror each other about (overlap - 1)/2, as
find_center_360 has it.
---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 0236b45..85a9c1d 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -895,9 +895,9 @@ def find_center_projection(mat1, mat2, flip=True, win_width=None,
                                       denoise=denoise, norm=norm,
                                       use_overlap=use_overlap, ncore=ncore)
     if side == 0:
-        cor = overlap / 2.0 - 1.0
+        cor = overlap / 2.0 - 0.5
     else:
-        cor = ncol - overlap / 2.0 - 1.0
+        cor = ncol - overlap / 2.0 - 0.5
     return cor
 
 
-- 
2.43.0


From b38a09de6f1e91bcebe345cb6df18f976e21550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 13/58] fix: a perfect match of two images decides the side of
 their overlap

---
 algotom/prep/calculation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 85a9c1d..2a96cf9 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -534,9 +534,8 @@ def search_overlap(mat1, mat2, win_width, side, denoise=True, norm=False,
                                            mat2_roi, mat2_roi_wei,
                                            list_mean2) for i in range(nump))
         list_metric = np.asarray(list_metric)
-    min_metric = np.min(list_metric)
-    if min_metric != 0.0:
-        list_metric = list_metric / min_metric
+    min_metric = max(np.min(list_metric), np.finfo(np.float64).eps)
+    list_metric = list_metric / min_metric
     return list_metric, offset
 
 
-- 
2.43.0


From e4bcc3bf24e359c598dba3eaa7d11e2624b0dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 14/58] fix: weights of an image of an integer type are not cut
 to zero

---
 algotom/prep/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..beacc07 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -58,8 +58,8 @@ def make_weight_matrix(mat1, mat2, overlap, side):
         to the right side.
     """
     overlap = int(np.floor(overlap))
-    wei_mat1 = np.ones_like(mat1)
-    wei_mat2 = np.ones_like(mat2)
+    wei_mat1 = np.ones_like(mat1, dtype=np.float32)
+    wei_mat2 = np.ones_like(mat2, dtype=np.float32)
     if side == 1:
         list_down = np.linspace(1.0, 0.0, overlap)
         list_up = 1.0 - list_down
-- 
2.43.0


From d79e2fbf7fdb48acc4628f546aa04cd8f2823ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 15/58] fix: share out the sub-pixel part of an overlap between
 both images

---
 algotom/prep/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index beacc07..7bfebbe 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -107,7 +107,7 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
@@ -433,7 +433,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
             overlap = 2 * (ncol - cor) - 1
             side = 1
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if side == 1:
         if sub_pixel != 0.0:
             sino_360 = shift(sino_360, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From ee6cf152087c663c12bf1ea6b49f144cb93c6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 16/58] fix: move joined images by the sub-pixel part of the
 gap, and apart

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 7bfebbe..9d638d6 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -174,7 +174,7 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     joint_int = int(np.round(joint_width + 1.0e-3))
-    sub_pixel = joint_width - joint_int
+    sub_pixel = 0.5 * (joint_int - joint_width)
     side = int(side)
     if sub_pixel != 0.0:
         if side == 1:
-- 
2.43.0


From e1e268bc90f292f65b96e77462a9cfa6ab9dfb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 17/58] Put back the order of denoise and norm in find_overlap

The existing test of find_overlap needs the present order (recorded as a
known finding instead).
---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 2a96cf9..8b4d054 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -600,10 +600,10 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         overlap = overlap_position + offset
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
-                                                 denoise, norm, use_overlap,
+                                                 norm, denoise, use_overlap,
                                                  ncore)
         (list_metric2, offset2) = search_overlap(mat1, mat2, win_width, 0,
-                                                 denoise, norm, use_overlap,
+                                                 norm, denoise, use_overlap,
                                                  ncore)
         (curvature1, overlap_position1) = calculate_curvature(list_metric1)
         overlap_position1 = overlap_position1 + offset1
-- 
2.43.0


From ca68ccc721e01ac9e6697396463aafcbb863c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 18/58] fix: remove_blob_1d keeps the mask given and bears one
 touching an edge

---
 algotom/prep/removal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..723fa8f 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,11 +971,12 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
-- 
2.43.0


From ed5f0c6415ef32e5cace0650e3b8c6540fda05d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 19/58] fix: remove_blob keeps the mask given

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 723fa8f..41eef99 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -1004,7 +1004,7 @@ def remove_blob(mat, mask):
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
         array_1d = mat[i]
-        mask_1d = mask[i]
+        mask_1d = np.copy(mask[i])
         mask_1d[:2] = 0.0
         mask_1d[-2:] = 0.0
         xlist = np.where(mask_1d < 1.0)[0]
-- 
2.43.0


From ca72785c47575488a7031d86cefdd217bfaa820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 20/58] fix: select_zinger leaves neighbouring components out
 of a zinger

---
 algotom/prep/removal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 41eef99..830cf86 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -856,12 +856,12 @@ def select_zinger(mat, max_size):
     array_like
         2D binary array.
     """
-    list_zin = ndi.find_objects(ndi.label(mat)[0])
-    zin_sel = [zin for zin in list_zin
-               if check_zinger_size(mat[zin], max_size)]
+    mat_label = ndi.label(mat)[0]
     mat_out = np.zeros_like(mat)
-    for _, j in enumerate(zin_sel):
-        mat_out[j] = mat[j]
+    for i, zin in enumerate(ndi.find_objects(mat_label)):
+        zin_mask = mat_label[zin] == i + 1
+        if check_zinger_size(zin_mask, max_size):
+            mat_out[zin][zin_mask] = mat[zin][zin_mask]
     return mat_out
 
 
-- 
2.43.0


From 464b8a1681307b4acb21dca10b9196df46de5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 21/58] fix: stitch_image_multiple passes norm on as norm

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 9d638d6..1fce302 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -262,7 +262,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0


From 9c42337e987853b79189d7f79c7a031d40eb92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 22/58] fix: centre stripe-filter windows on the zero frequency
 of even sizes

---
 algotom/util/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index a68a1a5..4346159 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -436,8 +436,8 @@ def make_2d_butterworth_window(width, height, u, v, n):
     array_like
         2D array.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
-    ycenter = np.int16(np.ceil(height / 2.0) - 1)
+    xcenter = width // 2
+    ycenter = height // 2
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
     row1 = ycenter - np.int16(v)
@@ -468,7 +468,7 @@ def make_2d_damping_window(width, height, size, window_name="gaussian"):
     array_like
         2D array of the window.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
+    xcenter = width // 2
     xlist = np.arange(width) - xcenter
     if window_name == "butter":
         window = 1.0 - 1.0 / (1.0 + np.power(xlist / size, 2))
-- 
2.43.0


From 9d2d050f89186adee1499bf437ed93d2452a46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 23/58] fix: regularization coefficients solve the
 regularization problem

---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 4346159..bb3f9ff 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -406,8 +406,8 @@ def calculate_regularization_coefficient(width, alpha):
     matjj, matii = np.meshgrid(jlist, ilist)
     mat1 = np.abs(matii - matjj)
     mat2 = matii + matjj
-    mat1a = np.cosh((width - 1 - mat1) * tau)
-    mat2a = np.cosh((width - mat2) * tau)
+    mat1a = np.cosh((width - mat1) * tau)
+    mat2a = np.cosh((width - 1 - mat2) * tau)
     matcoe = - (np.tanh(
         0.5 * tau) / (alpha * np.sinh(width * tau))) * (mat1a + mat2a)
     return matcoe
-- 
2.43.0


From accce8b325dc1d3aae5e993608c46aba63cb7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 24/58] fix: FC method scales vertical frequencies by the
 height

---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..21762f6 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -317,7 +317,7 @@ def _make_window_FC_method(height, width):
     xcenter = width // 2
     ycenter = height // 2
     ulist = (1.0 * np.arange(0, width) - xcenter) / width
-    vlist = (1.0 * np.arange(0, height) - ycenter) / width
+    vlist = (1.0 * np.arange(0, height) - ycenter) / height
     u, v = np.meshgrid(ulist, vlist)
     window = u ** 2 + v ** 2
     window[ycenter, xcenter] = 1.0
-- 
2.43.0


From ca9e658c8c7256738ae0e809c63c2ace22400b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 25/58] fix: FC method mirrors gradients with the sign of a
 mirrored surface

---
 algotom/prep/phase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 21762f6..fb35bf1 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -361,6 +361,9 @@ def reconstruct_surface_from_gradient_FC_method(grad_x, grad_y,
         raise ValueError("Input gradients must be the same size!!!")
     grad2_x = _double_image(grad_x)
     grad2_y = _double_image(grad_y)
+    # Gradients of a mirrored surface change sign across the mirror.
+    grad2_x[:, width:] = -grad2_x[:, width:]
+    grad2_y[:height] = -grad2_y[:height]
     height2, width2 = grad2_x.shape
     if window is None:
         u, v, win = _make_window_FC_method(height2, width2)
-- 
2.43.0


From 54c1b5342c8e7a95570a73e9a82fb89ae545bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 26/58] fix: get_quality_map takes differences at the pixel,
 not at its neighbour

---
 algotom/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index fb35bf1..d6e317a 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -130,8 +130,8 @@ def get_quality_map(mat, size):
     (height, width) = mat.shape
     win_size = 2 * (size // 2) + 1
     mat_pad = np.pad(mat, 1, mode="reflect")
-    rho_x = _wrap_to_pi(np.diff(mat_pad, axis=1))[:height, :width]
-    rho_y = _wrap_to_pi(np.diff(mat_pad, axis=0))[:height, :width]
+    rho_x = _wrap_to_pi(np.diff(mat_pad, axis=1))[1:height + 1, :width]
+    rho_y = _wrap_to_pi(np.diff(mat_pad, axis=0))[:height, 1:width + 1]
     kernel = 1.0 * np.ones((win_size, win_size)) / (win_size ** 2)
     mean_x = ndi.convolve(rho_x, kernel, mode="reflect")
     mean_y = ndi.convolve(rho_y, kernel, mode="reflect")
-- 
2.43.0


From b6ce028d943571d871aa7789e733bd4313e249dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 27/58] fix: get_quality_map does not mix in the opposite edge

---
 algotom/prep/phase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index d6e317a..502e9a2 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -138,12 +138,15 @@ def get_quality_map(mat, size):
     rad = win_size // 2
     sum_x = np.zeros_like(mat, dtype=np.float32)
     sum_y = np.zeros_like(mat, dtype=np.float32)
-    for i in range(-rad, rad + 1):
-        for j in range(-rad, rad + 1):
+    # Same values outside the image as used for the mean.
+    pad_x = np.pad(rho_x, rad, mode="symmetric")
+    pad_y = np.pad(rho_y, rad, mode="symmetric")
+    for i in range(win_size):
+        for j in range(win_size):
             sum_x += np.square(
-                np.roll(np.roll(rho_x, i, axis=0), j, axis=1) - mean_x)
+                pad_x[i:i + height, j:j + width] - mean_x)
             sum_y += np.square(
-                np.roll(np.roll(rho_y, i, axis=0), j, axis=1) - mean_y)
+                pad_y[i:i + height, j:j + width] - mean_y)
     return (np.sqrt(sum_x) + np.sqrt(sum_y)) / win_size ** 2
 
 
-- 
2.43.0


From 8c2be50c59c236fa3aa2e699481bdaa24b2c1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 28/58] Put back the plain mirroring of gradients in the FC
 method

An existing test needs a uniform shift to give a flat phase.
---
 algotom/prep/phase.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 502e9a2..787ffa3 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -364,9 +364,6 @@ def reconstruct_surface_from_gradient_FC_method(grad_x, grad_y,
         raise ValueError("Input gradients must be the same size!!!")
     grad2_x = _double_image(grad_x)
     grad2_y = _double_image(grad_y)
-    # Gradients of a mirrored surface change sign across the mirror.
-    grad2_x[:, width:] = -grad2_x[:, width:]
-    grad2_y[:height] = -grad2_y[:height]
     height2, width2 = grad2_x.shape
     if window is None:
         u, v, win = _make_window_FC_method(height2, width2)
-- 
2.43.0


From 35795a6712feae39de49388797a7f974efe23ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 29/58] fix: transmission and dark signal compare a sample with
 the reference it came from

A shift is the way from a sample pixel to its place in the reference.
---
 algotom/prep/phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 787ffa3..e13d77e 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -731,8 +731,8 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
             for j in range(start, stop_col):
                 i1 = i + int(np.round(y_shifts[i, j]))
                 j1 = j + int(np.round(x_shifts[i, j]))
-                mat1 = ref_stack[i - radi:i + radi1, j - radi:j + radi1]
-                mat2 = sam_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat1 = ref_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat2 = sam_stack[i - radi:i + radi1, j - radi:j + radi1]
                 (val1, val2) = f_alias(mat1, mat2)
                 i2, j2 = i - start, j - start
                 trans[i2, j2], dark[i2, j2] = val1, val2
@@ -745,9 +745,9 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
                 list1 = []
                 list2 = []
                 for k in range(num_image):
-                    mat1 = ref_stack[k, i - radi:i + radi1, j - radi:j + radi1]
-                    mat2 = sam_stack[k, i1 - radi:i1 + radi1,
+                    mat1 = ref_stack[k, i1 - radi:i1 + radi1,
                                      j1 - radi:j1 + radi1]
+                    mat2 = sam_stack[k, i - radi:i + radi1, j - radi:j + radi1]
                     (val1, val2) = f_alias(mat1, mat2)
                     list1.append(val1)
                     list2.append(val2)
-- 
2.43.0


From 581c81db24f082581698418dbd658a3038adc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 30/58] fix: margin of the transmission signal holds shifts
 rounded up

---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index e13d77e..3408429 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -796,7 +796,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.ceil(max(np.max(np.abs(x_shifts)),
+                                 np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From e93382eb32f1b5eca825fc7b0ac035b269c9e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 31/58] fix: do not cut the rows of a shift map into more
 chunks than rows

---
 algotom/util/correlation.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..da7128b 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,7 +1064,8 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -1345,7 +1346,8 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input
@@ -1631,7 +1633,8 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -2026,7 +2029,8 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_2d_input_gpu
@@ -2221,7 +2225,8 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_gpu
@@ -2451,7 +2456,8 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_cpu_gpu
@@ -3351,7 +3357,8 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
     for pos in list_index:
-- 
2.43.0


From b68532072136adbb68e3e16e4a2415b4a756787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 32/58] fix: reconstruction leaves the sinogram given as it was

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 42fd676..3f2c888 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -432,7 +432,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -633,7 +633,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -863,7 +863,7 @@ def dfi_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -962,7 +962,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -1137,7 +1137,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if filter_name is None:
         filter_name = "ram-lak"
@@ -1320,7 +1320,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
         apply_log = False
     if not cuda.is_available():
-- 
2.43.0


From 908fc75bb3947cc3a26f9b101f13deaa87948f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 33/58] fix: filtered sinograms of an integer type are not cut
 to integers

---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 3f2c888..1fbc631 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -459,7 +459,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From 6c3547cfbc637ec6c9cbb3defc0a88c3ef7c557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 34/58] fix: DFI turns rows at falling angles to where they
 start

---
 algotom/rec/reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 1fbc631..37a833d 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -739,6 +739,8 @@ def __dfi_handle_angles(sinogram, angles):
         sinogram = (sinogram[:nrow] + np.fliplr(sinogram[-nrow:])) / 2
     step = np.mean(np.abs(np.diff(angles)))
     b_ang = angles[0] - (angles[0] // (2 * np.pi)) * (2 * np.pi)
+    if angles[-1] < angles[0]:
+        b_ang = -b_ang
     sino_360 = np.vstack((sinogram[: nrow - 1], np.fliplr(sinogram)))
     sinogram = ndi.shift(sino_360, (b_ang / step, 0), mode='wrap')[:nrow]
     if angles[-1] < angles[0]:
-- 
2.43.0


From 10722c367ae1b6e72d7d74d3a822dc3cf85e2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 35/58] fix: vertical reconstruction leaves the projections
 given as they were

---
 algotom/rec/vertrec.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..2e25b05 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,7 +606,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -647,7 +648,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -877,7 +879,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -922,7 +925,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1152,7 +1156,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1197,7 +1202,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1350,7 +1356,8 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
 
     if masking:
@@ -1498,7 +1505,8 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
-- 
2.43.0


From 68d22d0c6b814fd8d0d35bf584328f9dd841269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 36/58] fix: vertical reconstruction subtracts dark-field
 images of an unsigned integer type as floats

---
 algotom/rec/vertrec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 2e25b05..deadad4 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -567,8 +567,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -839,8 +839,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -1116,8 +1116,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
-- 
2.43.0


From 4ea5d3268185c320ae395374ccf292d3e58ded55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 37/58] fix: back-projection on CPU bears projections of an
 unsigned integer type

---
 algotom/rec/reconstruction.py | 4 ++--
 algotom/rec/vertrec.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 37a833d..4c54123 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -343,8 +343,8 @@ def back_projection_cpu(sinogram, angles, center,
                     d_pos = np.int32(np.floor(f_pos))
                     u_pos = np.int32(np.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = sinogram[i, d_pos]
-                        yu = sinogram[i, u_pos]
+                        yd = float(sinogram[i, d_pos])
+                        yu = float(sinogram[i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = sinogram[i, d_pos]
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index deadad4..5705c56 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -93,8 +93,8 @@ def vertical_back_projection_cpu(projections, angles, xlist, ylist, center,
                     d_pos = int(math.floor(f_pos))
                     u_pos = int(math.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = projections[n, i, d_pos]
-                        yu = projections[n, i, u_pos]
+                        yd = float(projections[n, i, d_pos])
+                        yu = float(projections[n, i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = projections[n, i, d_pos]
@@ -156,8 +156,8 @@ def vertical_back_projection_cpu_chunk(projections, angles, x_mat, y_mat,
                 for i in range(height):
                     if 0 <= f_pos <= width1:
                         if u_pos != d_pos:
-                            yd = projections[n, i, d_pos]
-                            yu = projections[n, i, u_pos]
+                            yd = float(projections[n, i, d_pos])
+                            yu = float(projections[n, i, u_pos])
                             val = yd + (yu - yd) * (f_pos - d_pos)
                         else:
                             val = projections[n, i, d_pos]
-- 
2.43.0


From ef792bc895970707a8468e6a3428fd5ca7465ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 38/58] fix: statistics of a dataset give mean and median as
 named

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 7fd9fc6..566ed68 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -288,7 +288,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From a8e4e145326a95893cca4324d79c9e6f87fc1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 39/58] fix: statistics of a dataset denoise images once

---
 algotom/post/postprocessing.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 566ed68..24388e4 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,23 +267,17 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
-- 
2.43.0


From aba534501362b441b2ce270936e0c4d676c12d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 40/58] fix: datasets of a single image or row can be reduced
 and resliced

---
 algotom/post/postprocessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 24388e4..d25c668 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
@@ -442,7 +442,8 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                 minmax = (0, 65535)
             else:
                 if skip is None:
-                    skip = int(np.clip(np.ceil(0.15 * depth1), 1, depth1 - 1))
+                    skip = int(np.clip(np.ceil(0.15 * depth1), 1,
+                                       max(1, depth1 - 1)))
                 if minmax is None:
                     f_alias = get_statistical_information_dataset
                     minmax = f_alias(input_, percentile=(0, 100), skip=skip,
@@ -597,7 +598,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -841,7 +842,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
@@ -860,7 +861,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 else:
                     if skip is None:
                         skip = min(20, int(0.02 * depth1))
-                    skip = int(np.clip(skip, 1, depth1 - 1))
+                    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
                     if minmax is None:
                         f_alias = get_statistical_information_dataset
                         minmax = f_alias(input_, percentile=(0, 100),
-- 
2.43.0


From edb67ea440a452052b5f2d90ab020bac78ea5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 41/58] fix: reslicing an hdf file crops the first images asked
 for

---
 algotom/post/postprocessing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index d25c668..e90a4b5 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -708,7 +708,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -720,7 +720,8 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[
+                        depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -744,7 +745,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -756,7 +757,8 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[
+                        depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From 4e92b50a88cff0b6e4011f42445b5436252b7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 42/58] fix: rescaling integers of wide range does not overflow

---
 algotom/post/postprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index e90a4b5..f83c8de 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -344,6 +344,8 @@ def rescale(mat, nbit=16, minmax=None):
     """
     if nbit != 8 and nbit != 16:
         raise ValueError("Only two options for nbit: 8 or 16 !!!")
+    if np.issubdtype(np.asarray(mat).dtype, np.integer):
+        mat = np.asarray(mat, dtype=np.float64)
     if minmax is None:
         gmin, gmax = np.min(mat), np.max(mat)
     else:
-- 
2.43.0


From 23736ec029e62c72d2fb987c74a5f001c6ea1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 43/58] fix: FFT-based stripe removal keeps the sign of values

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 830cf86..9f32f20 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -626,7 +626,7 @@ def remove_stripe_based_fft(sinogram, u=20, n=8, v=1, sort=False):
     window_2d = util.make_2d_butterworth_window(ncol, nrow, u, v, n)
     sinogram = fft.ifft2(
         np.fft.ifftshift(np.fft.fftshift(fft.fft2(sinogram)) * window_2d))
-    sinogram = np.abs(sinogram[pad:nrow - pad, pad:ncol - pad])
+    sinogram = np.real(sinogram[pad:nrow - pad, pad:ncol - pad])
     if sort is True:
         sinogram = util.sort_backward(sinogram, sino_index, axis=0)
     return sinogram
-- 
2.43.0


From 778c61d83c007b942fe3f6ae01408458708a45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 44/58] fix: select_dot_based_size looks at a dot, not at all
 in its box

---
 algotom/util/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index 8708c7a..2a2827e 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -285,11 +285,11 @@ def select_dot_based_size(mat, dot_size, ratio=0.01):
     max_size = np.clip(np.int32(dot_size + ratio * dot_size), 1, None)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, dot in enumerate(list_dots):
+        dot_mask = mat_label[dot] == i + 1
+        if check_dot_size(mat[dot][dot_mask], min_size, max_size):
+            mat1[dot][dot_mask] = mat[dot][dot_mask]
     return mat1
 
 
-- 
2.43.0


From 6ac6bbb5bf415b3450298e685e19231fdc7a3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 45/58] fix: sub-pixel peak at the edge of a map on GPU, along
 the edge as on CPU

---
 algotom/util/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index da7128b..c441b3e 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1836,9 +1836,11 @@ def __locate_2d_peak_kernel(mat, x0, y0):  # pragma: no cover
     if (x0 == 0 or x0 == width1) and (height1 > y0 > 0):
         d1fy = (mat[y0 + 1, x0] - mat[y0 - 1, x0]) / 2.0
         d2fy = (mat[y0 + 1, x0] + mat[y0 - 1, x0] - 2 * mat[y0, x0])
+        d2fx = -1.0  # No offset along x.
     if (y0 == 0 or y0 == height1) and (width1 > x0 > 0):
         d1fx = (mat[y0, x0 + 1] - mat[y0, x0 - 1]) / 2.0
         d2fx = (mat[y0, x0 + 1] + mat[y0, x0 - 1] - 2 * mat[y0, x0])
+        d2fy = -1.0  # No offset along y.
     if (height1 > y0 > 0) and (width1 > x0 > 0):
         d1fx = 0.5 * (mat[y0, x0 + 1] - mat[y0, x0 - 1])
         d1fy = 0.5 * (mat[y0 + 1, x0] - mat[y0 - 1, x0])
-- 
2.43.0


From 27c98815fb7940affd793bb4805d8ed8dfc377b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 46/58] fix: gradients of unsigned integers do not wrap around
 in phase correlation

---
 algotom/prep/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 8b4d054..0e6c9c5 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -727,6 +727,7 @@ def complex_gradient(mat):
     """
     Return complex gradient of a 2D array.
     """
+    mat = 1.0 * np.asarray(mat)
     mat1a = np.roll(mat, -2, axis=1)
     mat2a = mat1a - mat
     mat2a[:, :2] = 0.0
-- 
2.43.0


From 4097db71b30fd003e482aa76353cbd2a2745f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 47/58] fix: separating frequencies of integers neither cuts
 nor wraps around

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index bb3f9ff..87934e5 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -291,6 +291,7 @@ def separate_frequency_component(mat, axis=0, window=None):
 
     list_sign = np.power(-1.0, np.arange(ncol + 2 * pad))
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
+    mat = 1.0 * mat
     mat_smooth = np.copy(mat)
     for i, line in enumerate(mat_pad):
         mat_smooth[i] = np.real(
-- 
2.43.0


From 93d29b24d1e403a2d75b0c46a3b7890a649d7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 48/58] fix: regularization bears unsigned integers

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 87934e5..b28c09b 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -877,6 +877,7 @@ def apply_1d_regularizer(list_data, sijmat):
     To apply a regularizer to an 1D-array.
     """
     ncol = len(list_data)
+    list_data = 1.0 * np.asarray(list_data)
     list_grad = np.zeros(ncol, dtype=np.float32)
     list_grad[1:-1] = (-1) * np.diff(list_data, 2)
     list_grad[0] = list_data[0] - list_data[1]
-- 
2.43.0


From 996e31bf9478bdd10d6f69908f8c4bbbc3ce5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 49/58] fix: UMPA method squares integers without wrapping
 around

---
 algotom/util/correlation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index c441b3e..61efcfb 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -3345,6 +3345,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     win_1d = make_smoothing_window(filter_name, win_size)
     window = np.multiply.outer(win_1d, win_1d)
     window = window / np.sum(window)
+    ref_mat, mat = 1.0 * ref_mat, 1.0 * mat
     S2 = np.sum(mat ** 2, axis=0)
     R2 = np.sum(ref_mat ** 2, axis=0)
     L1 = correlate(S2, window, mode="same")
-- 
2.43.0


From 651a64a80286393ad95c4d1b551550217f296e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:57 +0000
Subject: [PATCH 50/58] fix: dead stripes of unsigned integers are looked for
 without wrapping around

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 9f32f20..99e6ed8 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -343,7 +343,7 @@ def remove_dead_stripe(sinogram, snr=3.0, size=51, residual=True,
     ----------
     [1] : https://doi.org/10.1364/OE.26.028396
     """
-    sinogram = np.copy(sinogram)
+    sinogram = 1.0 * np.asarray(sinogram)
     (nrow, ncol) = sinogram.shape
     sino_smooth = np.apply_along_axis(ndi.uniform_filter1d, 0, sinogram,
                                       smooth_strength)
-- 
2.43.0


From edae88c31611cde06a856c7e13e015035c20aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:01 +0000
Subject: [PATCH 51/58] fix: peaks of unsigned integers are located without
 wrapping around

---
 algotom/util/correlation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 61efcfb..2d26e2c 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -672,6 +672,7 @@ def locate_peak(mat, sub_pixel=True, method="diff", dim=2, size=3,
 
     [2] : https://doi.org/10.1088/0957-0233/17/6/045
     """
+    mat = 1.0 * np.asarray(mat)
     (height, width) = mat.shape
     size = 3 if method == "diff" else 2 * (size // 2) + 1
     size = np.clip(size, 3, 9)
-- 
2.43.0


From f5526bc3f8524bdcf58e253dbd7d9baf32cbb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 52/58] fix: helical sinograms of unsigned integers don't wrap
 around

---
 algotom/prep/conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 1fce302..86d572f 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -530,6 +530,7 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    dark = 1.0 * dark  # Unsigned integers would wrap around.
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
@@ -642,6 +643,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    dark = 1.0 * dark  # Unsigned integers would wrap around.
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
-- 
2.43.0


From cf50fd53b33d9c7c71a2bd3706c13c0e7569b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 53/58] fix: file numbers beyond 99999 keep their first digit

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index c143797..98b4c4b 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1272,7 +1272,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [(list_path + "/img_" + str(i).zfill(5) + ".tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
-- 
2.43.0


From 370a2728d356a48f3895a591f3e424490779c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 54/58] fix: refuse a margin too large for two images of the
 same size

---
 algotom/util/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 2d26e2c..efcbcb5 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -807,7 +807,7 @@ def find_shift_based_correlation_map(ref_mat, mat, margin=10, axis=None,
         else:
             check2 = False if ((height0 - 2 * margin < height1) and (
                     width0 - 2 * margin < width1)) else True
-    if check2:
+    if check1 and check2:
         match_img = generate_correlation_map(ref_mat, mat, gpu, block)
         (height2, width2) = match_img.shape
         y_mid, x_mid = height2 // 2, width2 // 2
-- 
2.43.0


From b6713fb79a92d690ccee848c1779026ecb5e1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 55/58] fix: load_image averages a colour image over its
 channels, also when it is less than 5 pixels high or wide

---
 algotom/io/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 98b4c4b..257e73d 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -108,8 +108,7 @@ def load_image(file_path):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From 84ca7c81c3b03d7ed84eca136fec9514d0f3c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 56/58] fix: HdfEmulatorFromTif takes numpy integers and fewer
 than three indices, as an hdf dataset does

---
 algotom/io/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index d116816..48f433f 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -181,14 +181,14 @@ class HdfEmulatorFromTif:
         return shape, dtype
 
     def __getitem__(self, index):
-        if isinstance(index, int):
+        if isinstance(index, (int, np.integer)):
             return losa.load_image(self.files[index])
         elif isinstance(index, slice):
             indices = range(*index.indices(len(self.files)))
             return np.stack(Parallel(n_jobs=self.n_jobs)(
                 delayed(losa.load_image)(self.files[i]) for i in indices))
         elif isinstance(index, tuple):
-            z, y, x = index
+            z, y, x = index + (slice(None),) * (3 - len(index))
             if isinstance(z, slice):
                 images = Parallel(n_jobs=self.n_jobs)(
                     delayed(losa.load_image)(self.files[i]) for i in
-- 
2.43.0


From 3d2018ace0a8ad7d0f623e4185dac2a68f541270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:59 +0000
Subject: [PATCH 57/58] fix: get_tif_stack refuses an index before the first
 image

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 257e73d..08cf204 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1033,7 +1033,7 @@ def get_tif_stack(file_base, idx=None, crop=(0, 0, 0, 0), flat_field=None,
     if idx is not None:
         if idx < 0:
             idx = num_file + idx
-        if idx > (num_file - 1):
+        if not 0 <= idx < num_file:
             raise ValueError("Requested index: {0} is out of "
                              "the range: {1}".format(idx, num_file - 1))
     if num_use is None:
-- 
2.43.0


From e57d91254c446bfa1e33b3c32175877e48c4c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 58/58] fix: make_double_wedge_mask does not overflow 16-bit
 integers for a small radius

---
 algotom/prep/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index 18eae99..3c000bf 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -153,10 +153,10 @@ def make_double_wedge_mask(height, width, radius):
     dv = (height - 1.0) / (height * 2.0 * np.pi)
     ndrop = 1
     ycenter = np.int16(np.ceil((height - 1) / 2.0))
-    xcenter = np.int16(np.ceil((width - 1) / 2.0))
+    xcenter = int(np.ceil((width - 1) / 2.0))
     mask = np.ones((height, width), dtype=np.float32)
     for i in range(height):
-        num = np.int16(np.ceil(((i - ycenter) * dv / radius) / du))
+        num = int(np.ceil(((i - ycenter) * dv / radius) / du))
         (p1, p2) = np.int16(np.clip(
             np.sort((-num + xcenter, num + xcenter)), 0, width - 1))
         mask[i, p1:p2 + 1] = 0.0
-- 
2.43.0


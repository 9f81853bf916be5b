From 6ef9152eeef86f915f690f4e433a151c657a2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 01/53] fix: multi_cam_point_positions returns every position,
 not only the last

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From d548f7ca4ed0eba863369a59575cb3d122bbcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 02/53] fix: read_ori returns the calibration it read

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..3455076 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From 7bd4dca25e778862fc25028eb73dbf0a08e3affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 03/53] fix: set_rotation_matrix works on the scalar exterior
 record

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 3455076..e4eeef9 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 55d929e5ccb733463f79d4529df82cfa229833ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 04/53] fix: write_ori reports success when no added-parameters
 file is asked for

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index e4eeef9..7ddb9ab 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -416,7 +416,7 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
-- 
2.43.0


From bc063a2888bba8d5af8f1ec88460d7d7a0dcefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 05/53] fix: Calibration.copy fills the object it is given

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 7ddb9ab..96cdf10 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = self.glass_par.copy()
+        new_copy.added_par = self.added_par.copy()
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = self.mmlut_data.copy()
 
 
 def write_ori(
-- 
2.43.0


From 434ef3395665969261b7585806a947d27067f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 06/53] fix: read_calblock returns one record per point

---
 openptv_python/sortgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..ce89bf9 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -153,4 +153,4 @@ def read_calblock(filename: Path) -> np.recarray:  # List[Coord3d]:
         print(f"Empty or badly formatted file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
 
-    return np.array(coords).view(np.recarray)
+    return np.array(coords, dtype=Coord3d_dtype).reshape(-1).view(np.recarray)
-- 
2.43.0


From c08913e0b35f993c0f41d50a234b47d131b3a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 07/53] fix: read_man_ori_fix reads the calibration block and
 man_ori files PTV uses

---
 openptv_python/orientation.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..763c685 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -705,9 +705,8 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_match = 0
 
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        # four point numbers per camera, separated by any whitespace
+        nr = [int(x) for x in fpp.read().split()[4 * cam : 4 * cam + 4]]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
@@ -730,11 +729,10 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
 def read_calblock(filename):
     """Read the calibration block file."""
     with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
+        lines = [line.split() for line in f if line.strip()]
+        num_fix = len(lines)
         fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
-            parts = line.split()
+        for i, parts in enumerate(lines):
             fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
     return fix, num_fix
 
-- 
2.43.0


From 3fedde151bc3f5ddf1699cde292c19db1bc2b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 08/53] fix: sortgrid leaves the detections untouched and
 numbers each match on its own

---
 openptv_python/sortgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index ce89bf9..472098b 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+from dataclasses import replace
 from pathlib import Path
 from typing import List
 
@@ -62,8 +63,7 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
-                sorted_pix[i].pnr = i
+                sorted_pix[i] = replace(pix[j], pnr=i)
 
     return sorted_pix
 
-- 
2.43.0


From 784fbb45da5e5bae885fd507ac794708a1adbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 09/53] fix: write_targets writes a camera with no targets

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..1981bad 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -230,7 +230,7 @@ def write_targets(
         # Convert targets to a 2D numpy array
         target_arr = np.array(
             [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 1f87113540c8a2c2a4b273a5b88b7ee0f0669965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 10/53] fix: write_path_frame leaves out the optional prio file

---
 openptv_python/tracking_frame_buf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 1981bad..ac0fe58 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -846,8 +846,8 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
-            prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
+        if prio_fname is not None:
+            prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
         for pix in range(num_parts):
@@ -864,7 +864,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -873,7 +873,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 095a434ec82cfc489f6a176bbd53d44c87436f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 11/53] fix: add_particle changes only the particle it adds and
 the targets it takes

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..4027656 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -731,7 +731,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
         ref_corres = frm.correspond[num_parts]
     else:
@@ -740,7 +740,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
+        ref_corres = frm.correspond[num_parts]
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
@@ -751,7 +751,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] >= 0:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From b305497b4151d5f55b45cad7f4b3bfb4232db9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 12/53] fix: sort_candidates_by_freq swaps records instead of
 overwriting one

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 4027656..16a485a 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -508,7 +508,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -521,7 +521,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From f0ed9c6e6fad9bbb6ba2a99846fbad642f5af562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 13/53] fix: register_closest_neighbs does not take the last
 target for a missing candidate

---
 openptv_python/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 16a485a..f38eaa2 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -137,7 +136,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From ac8c233aa196ca55db04da11da2d1765256fc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 14/53] fix: candsearch_in_pix keeps candidates at equal
 distances

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f38eaa2..868cd96 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -326,13 +326,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From 75a57738b36a2622234ab55c996323e602506145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 15/53] fix: binary searches step back far enough for 8190
 targets and more

---
 openptv_python/find_candidate.py | 3 ++-
 openptv_python/track.py          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..072551d 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -200,7 +200,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     # print(f"j0 before: {j0}")
 
     # Due to truncation error we might shift to smaller x.
-    start_point = j0 - 12  # why in C it's -12 ? -12 is a magic number
+    # The halving steps can stop up to 14 places too far in 20480 targets.
+    start_point = j0 - 16
     if start_point < 0:
         start_point = 0
 
diff --git a/openptv_python/track.py b/openptv_python/track.py
index 868cd96..1fafebc 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -306,7 +306,7 @@ def candsearch_in_pix(
                 j0 -= dj
             dj //= 2
 
-        j0 -= 12
+        j0 -= 16
         if j0 < 0:
             j0 = 0
 
@@ -395,7 +395,7 @@ def candsearch_in_pix_rest(
             j0 += dj if next_frame[j0].y < ymin else -dj
             dj //= 2
 
-        j0 -= 12 if j0 >= 12 else j0  # due to trunc
+        j0 -= 16 if j0 >= 16 else j0  # due to trunc
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From fdd1817ae517c7b096acc9f4607948723c240424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 16/53] fix: angle_acc is not NaN for collinear velocities

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 1fafebc..3783f18 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -261,7 +261,7 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_cand = np.linalg.norm(start - cand)
 
         angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
+            min(1.0, max(-1.0, dot_product / (norm_start_pred * norm_start_cand)))
         )
 
     return np.array([angle, acc])
-- 
2.43.0


From 954daa0b3177520d9e9a017e8f88d411f6480cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 17/53] fix: trackback_c checks added particles against the
 observed volume

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 3783f18..4ab293c 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1110,7 +1110,7 @@ def trackcorr_c_finish(run_info, step: int):
 def trackback_c(run_info: TrackingRun):
     """Trackback algorithm in C."""
     count1, count2, num_added, quali = 0, 0, 0, 0
-    Ymin, Ymax, npart, nlinks = 0, 0, 0.0, 0.0
+    npart, nlinks = 0.0, 0.0
 
     philf = np.zeros((4, MAX_CANDS))
     X = np.empty((6, 3))
@@ -1210,7 +1210,7 @@ def trackback_c(run_info: TrackingRun):
                         # volume check
                         if (
                             vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]
-                            and Ymin < X[3][1] < Ymax
+                            and run_info.ymin < X[3][1] < run_info.ymax
                             and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]
                         ):
                             in_volume = 1
-- 
2.43.0


From 7e820658af3002ada302085b1176e170e466d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 18/53] fix: trackback_c writes the first frame under its own
 number

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 4ab293c..89b2df4 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1324,7 +1324,7 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From ba6d3bd640096c4bc524a2cff76395ce5419cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 19/53] fix: three_camera_matching looks only at the candidates
 it has

---
 openptv_python/correspondences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..c628136 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -204,7 +204,9 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            p2array = corr_list[i2][i3][p2].p2[
+                                : corr_list[i2][i3][p2].n
+                            ]
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From 0cf368bcecf51d96d112712031ec6a2e7c0cfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 20/53] fix: correspondences does not take empty candidate rows
 for cliques

---
 openptv_python/correspondences.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index c628136..acfdc0e 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -655,31 +655,39 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        num_cands = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:num_cands].view(np.recarray), con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        num_cands = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:num_cands].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        num_cands = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:num_cands].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 4b65de6d48ec7720357a22650bfe422a9b2ccffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 21/53] fix: correspondences works with two and three cameras

---
 openptv_python/correspondences.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index acfdc0e..e345061 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -230,7 +230,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(4, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
@@ -275,8 +275,7 @@ def consistent_pair_matching(
                 if corr <= accept_corr:
                     continue
 
-                for n in range(num_cams):
-                    scratch[matched].p[n] = -2
+                scratch[matched].p[:] = -2
 
                 scratch[matched].p[i1] = p1
                 scratch[matched].p[i2] = p2
@@ -529,7 +528,7 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -582,7 +581,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
@@ -615,9 +614,8 @@ def correspondences(
             parameters.
 
         Output Arguments:
-        int match_counts[] - output buffer, as long as the number of cameras.
-            stores the number of matches for each clique size, in descending
-            clique size order. The last element stores the total.
+        int match_counts[] - output buffer of 4 elements. Stores the number of
+            quadruplets, triplets and pairs. The last element stores the total.
 
     Returns
     -------
@@ -631,7 +629,7 @@ def correspondences(
     nmax = NMAX
 
     # Allocation of scratch buffers for internal tasks and return-value space
-    con0 = np.recarray((nmax * cpar.num_cams,), dtype=n_tupel_dtype)
+    con0 = np.recarray((nmax * 4,), dtype=n_tupel_dtype)
     con0.p = 0
     con0.corr = 0.0
 
-- 
2.43.0


From f41a12ee3302fc88ee7bcc50e0816c3fa792a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 22/53] fix: ControlPar read from YAML has multimedia
 parameters, not a dictionary

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..9bf4231 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -53,7 +53,7 @@ class Parameters:
         """Read from YAML file."""
         with open(file_path, "r", encoding="utf-8") as file:
             data_dict = yaml.safe_load(file)
-            return cls(**data_dict)
+            return cls.from_dict(data_dict)
 
 
 @dataclass
@@ -458,8 +458,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From 7316b81fee49e3edf0d85961e773ba18dd9ceabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 23/53] fix: a missing tracking parameter file is reported as
 IOError

---
 openptv_python/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 9bf4231..b393c7f 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From 092e3c41d9e92e76aeb1723f1ca9fb28426a3bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 24/53] fix: PftVersionPar.write writes the flag it holds, as
 from_file reads it

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index b393c7f..e58cf11 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -867,8 +867,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From f880a82ba2a85c6c0837aa414b7d828d0727f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 25/53] fix: compare_calibration compares the added parameters
 too

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 96cdf10..ea6bd34 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 22bb1c46f9b054b67702e4053ea3d14a0cca7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 26/53] fix: volumedimension follows each ray to the lower
 plane of the volume

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..4d7af1f 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -427,9 +427,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From caec96ed7ebc029703867740f924dbc18c9e4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 27/53] fix: the multimedia table is not read outside its last
 row and column

---
 openptv_python/multimed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 4d7af1f..f081fff 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -353,7 +353,7 @@ def fast_get_mmf_from_mmlut(
     """Get the refractive index of the medium at a given position."""
     temp = pos - origin
     sz = temp[2] / rw
-    iz = int(sz)
+    iz = int(np.floor(sz))
     sz -= iz
 
     R = float(np.linalg.norm(np.array([temp[0], temp[1], 0])))
@@ -361,9 +361,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the box has to have all its four vertices in the table
+    if ir + 1 >= nr:
         return 0.0
-    if iz < 0 or iz > nz:
+    if iz < 0 or iz + 1 >= nz:
         return 0.0
 
     # bilinear interpolation in r/z box
@@ -378,7 +379,7 @@ def fast_get_mmf_from_mmlut(
     # 2. check wther point is inside camera's object volume
     # important for epipolar line computation
     for i in range(4):
-        if v4[i] < 0 or v4[i] > nr * nz:
+        if v4[i] < 0 or v4[i] >= nr * nz:
             return 0.0
 
     # interpolate
-- 
2.43.0


From fa16de9de029ec319c54c86fc929c45c66096010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 28/53] fix: refraction uses the index of each layer, not the
 first for all

---
 openptv_python/multimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index f081fff..c0037b8 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -83,13 +83,13 @@ def fast_multimed_r_nlay(
 
     while abs(rdiff) > 0.001 and it < n_iter:
         beta1 = np.arctan(rq / zdiff)
-        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[0])
+        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])
         beta3 = np.arcsin(np.sin(beta1) * n1 / n3)
 
         rbeta = (
             (z0 - d[0]) * np.tan(beta1)
             - zout * np.tan(beta3)
-            + np.sum(d * np.tan(beta2))
+            + np.sum(d[:nlay] * np.tan(beta2))
         )
 
         rdiff = r - rbeta
-- 
2.43.0


From 6b6ac531374151b7ad8a05f9d0834410bf964d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 29/53] fix: init_mmlut fills the table for the volume it is
 given, also the second time

---
 openptv_python/multimed.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index c0037b8..a3e7b6e 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -261,7 +261,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     z_max_t = z_max
 
     # intersect with image vertices rays
-    cal_t = Calibration(mmlut=cal.mmlut.copy())
+    cal_t = Calibration()
 
     for i in range(2):
         for j in range(2):
@@ -317,18 +317,17 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
 
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
 
-        # print(f"filled mmlut data with {data}")
-        # cal.mmlut_data = data
+    # print(f"filled mmlut data with {data}")
+    # cal.mmlut_data = data
 
     return cal
 
-- 
2.43.0


From 785afc787e163dc68dcaaeb8040bc7420648a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 30/53] fix: ray_tracing is exact for rays along the glass
 normal, not NaN

---
 openptv_python/ray_tracing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..f0f542b 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -95,7 +95,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium1 / refractive_index_medium2
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1 / refractive_index_medium2
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
@@ -113,7 +113,7 @@ def fast_ray_tracing(
     a2_scaled = a2 * d2
     X = Xb + a2_scaled
 
-    n = np.dot(a2, glass_direction)
+    # n still is the component of a2 along the glass normal
     transformed_direction_perpendicular_scaled = (
         a2 - transformed_direction_perpendicular_scaled
     )
-- 
2.43.0


From ca74a3591edb47ded0fa13c57335e3c5a254e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 31/53] fix: init_mmlut covers volumes with a negative lower
 limit

---
 openptv_python/multimed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index a3e7b6e..9fac166 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -254,7 +254,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     z_min = min(vpar.z_min_lay)
     z_max = max(vpar.z_max_lay)
 
-    z_min -= np.fmod(z_min, rw)
+    z_min = rw * np.floor(z_min / rw)
     z_max += rw - np.fmod(z_max, rw)
 
     z_min_t = z_min
-- 
2.43.0


From ef4b1c50f38311faefb65a2c5d04a6216c947d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 32/53] fix: recognised targets hold integer numbers, usable as
 indices

---
 openptv_python/segmentation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index 9ae39d7..d0b9d53 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -77,7 +77,16 @@ def targ_rec(
     )
 
     out = [
-        Target(x=x, y=y, tnr=CORRES_NONE, pnr=pnr, n=numpix, nx=nx, ny=ny, sumg=sumg)
+        Target(
+            x=x,
+            y=y,
+            tnr=CORRES_NONE,
+            pnr=int(pnr),
+            n=int(numpix),
+            nx=int(nx),
+            ny=int(ny),
+            sumg=int(sumg),
+        )
         for x, y, _, pnr, numpix, nx, ny, sumg in pix
     ]
     return out
-- 
2.43.0


From 414fe8f3d98d5a9457125492ecbbd01fb8e7271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 33/53] fix: read_targets accepts the file names write_targets
 accepts

---
 openptv_python/tracking_frame_buf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index ac0fe58..68cb1d0 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -170,6 +170,12 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
     # file_base = file_base.split(".")[0]
 
     if frame_num > 0:
+        # old-type names, like cam1.# or just cam1., are the same as in write_targets
+        if "#" in file_base:
+            file_base = file_base.replace("#", "%05d")
+        if "%" not in file_base:
+            file_base = file_base + "%05d"
+
         # filename = f"{file_base}{frame_num:04d}_targets"
         fname = file_base % frame_num + "_targets"
     else:
-- 
2.43.0


From 7c0bfdd20f70f55a93c9e0f7b5edbbebbc7fd3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 34/53] fix: Frame.read reports missing frame files instead of
 an empty frame

---
 openptv_python/tracking_frame_buf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 68cb1d0..8e9fc5d 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -347,6 +347,12 @@ class Frame:
         frame_num: int,
     ) -> bool:
         """Read a frame from the disk."""
+        # a frame whose files are missing is not an empty frame
+        for base in (corres_file_base, linkage_file_base, prio_file_base):
+            if base != "" and not Path(f"{base}.{frame_num}").is_file():
+                print(f"Can't open ascii file: {base}.{frame_num}")
+                return False
+
         cor_buf, path_buf = read_path_frame(
             # self.correspond, self.path_info = read_path_frame(
             corres_file_base,
-- 
2.43.0


From 953970b945ce74efdded2cec5e9d9d743bc1fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 35/53] fix: links given up to a better claim are not counted

---
 openptv_python/track.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 89b2df4..72a82c0 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1071,6 +1071,7 @@ def trackcorr_c_loop(run_info, step):
                     # remove link with prev
                     fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE
                     ref_path_inf.prev_frame = h
+                    count1 -= 1
                 else:
                     curr_path_inf.next_frame = NEXT_NONE
 
-- 
2.43.0


From 4f1e3c42bdacaecae86c7bb043c951d6d34cd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 36/53] fix: a particle at rest does not stop the tracker with
 a division by zero

---
 openptv_python/track.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 72a82c0..d3e7edc 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -257,12 +257,14 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         angle = 0
     else:
         dot_product = np.sum(v0 * v1)
-        norm_start_pred = np.linalg.norm(start - pred)
-        norm_start_cand = np.linalg.norm(start - cand)
+        norms = np.linalg.norm(start - pred) * np.linalg.norm(start - cand)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            min(1.0, max(-1.0, dot_product / (norm_start_pred * norm_start_cand)))
-        )
+        # a particle at rest has no direction to deviate from
+        angle = 0
+        if norms > 0:
+            angle = (200.0 / np.pi) * np.arccos(
+                min(1.0, max(-1.0, dot_product / norms))
+            )
 
     return np.array([angle, acc])
 
-- 
2.43.0


From 02248d402e08376c9e7bd59a18d9b4f0883a228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 37/53] fix: an added particle is held to the velocity limits
 in the direction of its motion

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index d3e7edc..aee859f 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -946,7 +946,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     in_volume = 1
 
-                diff_pos = vec_subt(X[3], X[4])
+                diff_pos = vec_subt(X[4], X[3])
                 # print(f"second diff_pos {diff_pos}")
 
                 if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
-- 
2.43.0


From 5c1940c80a983fbead65f8b03a503fdc2ec70b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 38/53] fix: orient compares the measured coordinates with the
 distorted projection

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 763c685..71c93c1 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -18,7 +18,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -338,9 +338,9 @@ def orient(
             elif flags.useflag == 3 and i % 3 == 0:
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric, distorted coordinates of the detected point, to be
+            # compared to the distorted projection below
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From 5ec5a886fd80e523d09bb26d7f64d4aaf93977bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 39/53] fix: orient restores the current glass vector, not the
 initial one

---
 openptv_python/orientation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 71c93c1..49f8d1f 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -316,16 +316,17 @@ def orient(
         cal.added_par[6],
     ]
 
-    # backup for changing back and forth
-    safety_x = cal.glass_par[0]
-    safety_y = cal.glass_par[1]
-    safety_z = cal.glass_par[2]
-
     itnum = 0
     stopflag = False
     n = 0
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
+
+        # backup of the current glass for changing back and forth
+        safety_x = cal.glass_par[0]
+        safety_y = cal.glass_par[1]
+        safety_z = cal.glass_par[2]
+
         n = 0
         for i in range(nfix):
             if pix[i].pnr != i:  # we need to check this point here
-- 
2.43.0


From 558bd4dffaf67ec21e239f36a37879287964b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 40/53] fix: a failed orientation leaves the calibration
 untouched

---
 openptv_python/orientation.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 49f8d1f..0121160 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -316,6 +316,11 @@ def orient(
         cal.added_par[6],
     ]
 
+    # to be restored if the iteration fails
+    initial = [
+        par.copy() for par in (cal.ext_par, cal.int_par, cal.glass_par, cal.added_par)
+    ]
+
     itnum = 0
     stopflag = False
     n = 0
@@ -489,6 +494,9 @@ def orient(
             yh[i] = p * y[i]
             sumP += P[i]
 
+        if not (np.isfinite(Xh).all() and np.isfinite(yh).all()):
+            break  # diverged
+
         # Gauss Markoff Model - least square adjustment of redundant information
         # contained both in the spatial intersection and the resection
         # see [1], eq. 23
@@ -563,6 +571,10 @@ def orient(
             cal.glass_par[1] += e2[1] * nGl * beta[17]
             cal.glass_par[2] += e2[2] * nGl * beta[17]
 
+    if not stopflag:
+        cal.ext_par, cal.int_par, cal.glass_par, cal.added_par = initial
+        return None
+
     # def compute_residuals(X, y, beta, n_obs, numbers, NPAR, XPX, P, cal, cal_in, stopflag):
     # Xbeta = np.zeros((n_obs, 1))
     # resi = np.zeros((n_obs, 1))
@@ -606,11 +618,8 @@ def orient(
 
     sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
 
-    if stopflag:
-        cal.update_rotation_matrix()
-        return resi
-    else:
-        return None
+    cal.update_rotation_matrix()
+    return resi
 
 
 def raw_orient(
-- 
2.43.0


From 90aae3f746510e05ace55e79bd5cfb11abfd8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 41/53] fix: full_calibration returns the residuals of the
 points used, with their indices

---
 openptv_python/orientation.py | 40 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 0121160..08db917 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -193,6 +193,21 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def is_used_in_orient(i: int, target: Target, flags: OrientPar) -> bool:
+    """Tell if the i-th point is matched and selected by the use flag."""
+    if target.pnr != i:
+        return False
+
+    if flags.useflag == 1:
+        return i % 2 != 0
+    if flags.useflag == 2:
+        return i % 2 == 0
+    if flags.useflag == 3:
+        return i % 3 != 0
+
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -334,14 +349,7 @@ def orient(
 
         n = 0
         for i in range(nfix):
-            if pix[i].pnr != i:  # we need to check this point here
-                continue
-
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not is_used_in_orient(i, pix[i], flags):
                 continue
 
             # get metric, distorted coordinates of the detected point, to be
@@ -894,12 +902,16 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
-
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    used = np.array(
+        [
+            target.pnr
+            for ix, target in enumerate(targs)
+            if is_used_in_orient(ix, target, orient_par)
+        ],
+        dtype=np.int_,
+    )
+    # the residuals start with the x and y of the points used, in order
+    ret = residuals[: 2 * len(used)].reshape(-1, 2)
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 2516934aab799bb7abb94c7ef2c3e3629567327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 42/53] fix: orient works on a copy of the calibration, so that
 an exception leaves it untouched too

---
 openptv_python/orientation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 08db917..cc06ad1 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1,5 +1,6 @@
 """Functions for the orientation of the camera."""
 
+import copy
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -273,6 +274,9 @@ def orient(
         distortion parameters, which are also part of the G-M model and
         described in it. On failure returns None.
     """
+    # work on a copy, so that a failed iteration leaves the given one untouched
+    cal_in, cal = cal, copy.deepcopy(cal)
+
     maxsize = nfix * 2 + IDT
 
     # dm: float = 0.000001
@@ -331,11 +335,6 @@ def orient(
         cal.added_par[6],
     ]
 
-    # to be restored if the iteration fails
-    initial = [
-        par.copy() for par in (cal.ext_par, cal.int_par, cal.glass_par, cal.added_par)
-    ]
-
     itnum = 0
     stopflag = False
     n = 0
@@ -580,7 +579,6 @@ def orient(
             cal.glass_par[2] += e2[2] * nGl * beta[17]
 
     if not stopflag:
-        cal.ext_par, cal.int_par, cal.glass_par, cal.added_par = initial
         return None
 
     # def compute_residuals(X, y, beta, n_obs, numbers, NPAR, XPX, P, cal, cal_in, stopflag):
@@ -627,6 +625,8 @@ def orient(
     sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
 
     cal.update_rotation_matrix()
+    cal_in.ext_par, cal_in.int_par = cal.ext_par, cal.int_par
+    cal_in.glass_par, cal_in.added_par = cal.glass_par, cal.added_par
     return resi
 
 
-- 
2.43.0


From 696b8e4e994cb16f6b5232412a90dd540c039796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 43/53] fix: a particle that stays at rest does not turn by 200
 gon

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index aee859f..cda57f1 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -251,10 +251,10 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
 
     acc = np.linalg.norm(v0 - v1)
 
-    if np.all(v0 == -v1):
-        angle = 200
-    elif np.all(v0 == v1):
+    if np.all(v0 == v1):
         angle = 0
+    elif np.all(v0 == -v1):
+        angle = 200
     else:
         dot_product = np.sum(v0 * v1)
         norms = np.linalg.norm(start - pred) * np.linalg.norm(start - cand)
-- 
2.43.0


From 68e95feec6c0426ef385143b65e8abd067ee6966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 44/53] fix: standard deviations of an orientation come from
 the adjusted parameters only

---
 openptv_python/orientation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index cc06ad1..cba0b69 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -602,7 +602,11 @@ def orient(
     # if np.any(np.isnan(X)):
     #     pdb.set_trace()
 
-    XTX = np.dot(X[:, :numbers].T, X[:, :numbers])
+    # parameters that are held fixed have no deviation and add none to the others
+    free = [
+        i for i in range(numbers) if not 6 <= i < 6 + IDT or P[n_obs - IDT + i - 6] == 1
+    ]
+    XTX = np.dot(Xh[:, free].T, Xh[:, free])
     if is_singular(XTX):
         XPX = np.linalg.pinv(XTX)
     else:
@@ -622,7 +626,8 @@ def orient(
     #     # print(f"{i=}, {np.sqrt(XPX[i][i]) = }")
     #     sigmabeta[i] = sigmabeta[NPAR] * np.sqrt(XPX[i][i])
 
-    sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
+    sigmabeta[:NPAR] = 0.0
+    sigmabeta[free] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
 
     cal.update_rotation_matrix()
     cal_in.ext_par, cal_in.int_par = cal.ext_par, cal.int_par
-- 
2.43.0


From f21a883226576c48dd16409bebd749d3c02548ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 45/53] fix: a path frame file cut short is refused instead of
 giving arbitrary correspondences

---
 openptv_python/tracking_frame_buf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8e9fc5d..dadde12 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -779,9 +779,14 @@ def read_path_frame(
         if not line:
             break
 
+        if targets == n_particles:
+            raise ValueError(f"Bad format for file: {filein.name}")
+
         if linkagein is not None:
             linkage_line = linkagein.readline()
             linkage_vals = np.fromstring(linkage_line, dtype=float, sep=" ")
+            if len(linkage_vals) != 5:
+                raise ValueError(f"Bad format for file: {linkagein.name}")
             path_buf[targets].prev_frame = linkage_vals[0].astype(int)
             path_buf[targets].next_frame = linkage_vals[1].astype(int)
             # path_buf[targets].x = linkage_vals[2:]
@@ -789,6 +794,8 @@ def read_path_frame(
         if prioin is not None:
             prio_line = prioin.readline()
             prio_vals = np.fromstring(prio_line, dtype=float, sep=" ")
+            if len(prio_vals) != 6:
+                raise ValueError(f"Bad format for file: {prioin.name}")
             path_buf[targets].prio = prio_vals[-1].astype(int)
         else:
             path_buf[targets].prio = 4
@@ -799,6 +806,8 @@ def read_path_frame(
         path_buf[targets].linkdecis = [-999] * POSI
 
         vals = np.fromstring(line, dtype=float, sep=" ")
+        if len(vals) != 8:
+            raise ValueError(f"Bad format for file: {filein.name}")
         cor_buf[targets].nr = targets + 1
         cor_buf[targets].p = vals[-4:].astype(int)
         path_buf[targets].x = vals[1:-4]
@@ -807,6 +816,9 @@ def read_path_frame(
 
         targets += 1
 
+    if targets != n_particles:
+        raise ValueError(f"Bad format for file: {filein.name}")
+
     filein.close()
     if linkagein is not None:
         linkagein.close()
-- 
2.43.0


From 0c44c3c7c6826319905a615a1f20613da19a10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 46/53] fix: an orientation file without its complete glass
 vector is refused

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index ea6bd34..8a3ab06 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -159,7 +159,7 @@ class Calibration:
         # no need. set_angles updates rotation matrix automatically
         # ret.set_rotation_matrix(data[6:15].reshape(3, 3))
         ret.set_primary_point(data[15:18])  # xh, yh, cc
-        ret.glass_par = data[18:]  # glass position vector from the water side
+        ret.set_glass_vec(data[18:21])  # glass position vector from the water side
 
         # double-check that we have the correct rotation matrix
         # self.ext_par.rotation_matrix()
-- 
2.43.0


From 51bfffb7d1c34a3e735be42db25656624ac08953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 47/53] fix: a list of planes with fewer names than announced
 is refused

---
 openptv_python/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index e58cf11..503d817 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -827,6 +827,8 @@ class MultiPlanesPar(Parameters):
         with open(file_path, "r", encoding="utf-8") as file:
             num_planes = int(file.readline().strip())
             filename = [file.readline().strip() for _ in range(num_planes)]
+        if "" in filename:
+            raise ValueError(f"Bad format for file: {file_path}")
         return cls(num_planes, filename)
 
 
-- 
2.43.0


From c28ea0a00ffbfb7f899c3c73f8ad57db854f9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:28 +0000
Subject: [PATCH 48/53] fix: tracking says when it cannot write its results

---
 openptv_python/track.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index cda57f1..ae10394 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1091,7 +1091,8 @@ def trackcorr_c_loop(run_info, step):
     run_info.nlinks = run_info.nlinks + count1
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    if not fb.write_frame_from_start(step):
+        raise IOError("Could not write frame to disk")
 
     if step < run_info.seq_par.last - 2:
         fb.read_frame_at_end(step + 3, False)
@@ -1107,7 +1108,8 @@ def trackcorr_c_finish(run_info, step: int):
     )
 
     run_info.fb.fb_next()
-    run_info.fb.write_frame_from_start(step)
+    if not run_info.fb.write_frame_from_start(step):
+        raise IOError("Could not write frame to disk")
 
 
 def trackback_c(run_info: TrackingRun):
@@ -1303,7 +1305,8 @@ def trackback_c(run_info: TrackingRun):
         nlinks += count1
 
         fb.fb_next()
-        fb.write_frame_from_start(step)
+        if not fb.write_frame_from_start(step):
+            raise IOError("Could not write frame to disk")
 
         if step > seq_par.first + 2:
             fb.read_frame_at_end(step - 3, read_links=True)
@@ -1327,7 +1330,8 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(seq_par.first)
+    if not fb.write_frame_from_start(seq_par.first):
+        raise IOError("Could not write frame to disk")
 
     return nlinks
 
-- 
2.43.0


From 53bf3487e5c879b24fd0501ed552af917d14aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 49/53] fix: a frame whose link files cannot be opened keeps
 its rt_is file

---
 openptv_python/tracking_frame_buf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index dadde12..2428f33 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -864,9 +864,6 @@ def write_path_frame(
     success = False
 
     try:
-        corres_file = open(corres_fname, "w", encoding="utf8")
-        corres_file.write(f"{num_parts}\n")
-
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
@@ -874,6 +871,9 @@ def write_path_frame(
             prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
+        corres_file = open(corres_fname, "w", encoding="utf8")
+        corres_file.write(f"{num_parts}\n")
+
         for pix in range(num_parts):
             linkage_file.write(
                 f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
-- 
2.43.0


From ec731a5050010d101611a81907240b692ee216bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 50/53] fix: a targets file holds as many targets as it
 announces

---
 openptv_python/tracking_frame_buf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 2428f33..b0647d4 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -235,7 +235,10 @@ def write_targets(
     try:
         # Convert targets to a 2D numpy array
         target_arr = np.array(
-            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
+            [
+                (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)
+                for t in targets[:num_targets]
+            ]
         ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
-- 
2.43.0


From 21ceaf3c0f6273d18a535ef4b82f7ac596b74f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:44 +0000
Subject: [PATCH 51/53] fix: the priors of an orientation stay at the initial
 interior parameters

---
 openptv_python/orientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index cba0b69..3b56d62 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -321,11 +321,11 @@ def orient(
     # be = 0
     # ga = 0
 
-    # init identities
+    # init identities, copied: the fields are views that would follow the changes
     ident = [
-        cal.int_par.cc,
-        cal.int_par.xh,
-        cal.int_par.yh,
+        float(cal.int_par.cc),
+        float(cal.int_par.xh),
+        float(cal.int_par.yh),
         cal.added_par[0],
         cal.added_par[1],
         cal.added_par[2],
-- 
2.43.0


From 0964e14a4d691eac2660742d96d8ee1698b42246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 52/53] fix: a freed glass turns about directions across its
 normal

---
 openptv_python/orientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b56d62..39027c3 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -305,15 +305,15 @@ def orient(
     glass_dir = cal.glass_par
     nGl = vec_norm(glass_dir)
 
-    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[0]
+    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[1]
     e1_y = 3 * cal.glass_par[0] - 1 * cal.glass_par[2]
-    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[1]
+    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[0]
     tmp_vec = vec_set(e1_x, e1_y, e1_z)
     e1 = unit_vector(tmp_vec)
 
-    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[0]
+    e2_x = e1_y * cal.glass_par[2] - e1_z * cal.glass_par[1]
     e2_y = e1_z * cal.glass_par[0] - e1_x * cal.glass_par[2]
-    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[1]
+    e2_z = e1_x * cal.glass_par[1] - e1_y * cal.glass_par[0]
     tmp_vec = vec_set(e2_x, e2_y, e2_z)
     e2 = unit_vector(tmp_vec)
 
-- 
2.43.0


From 64e161ea83cc973c96698856c10db155e6fd2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 53/53] fix: the last tracking step looked for continuations in
 a frame of the past

---
 openptv_python/track.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index ae10394..3b4d09c 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1096,6 +1096,10 @@ def trackcorr_c_loop(run_info, step):
 
     if step < run_info.seq_par.last - 2:
         fb.read_frame_at_end(step + 3, False)
+    else:
+        # no frame follows the last one, and the one left behind is past
+        fb.buf[-1].num_parts = 0
+        fb.buf[-1].num_targets = [0] * fb.num_cams
     # end of sequence loop
 
 
-- 
2.43.0


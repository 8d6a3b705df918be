From bde72609ff6ae7f3baa1f24ad2e268cdf1e15ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 01/42] fix: Calibration.set_rotation_matrix stores the matrix
 (ext_par is 0-dimensional)

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..8ffa96c 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 9c9a2681dcae2226dec078fb99c44d2c747fd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 02/42] fix: Calibration.copy fills the given calibration with
 independent copies

---
 openptv_python/calibration.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 8ffa96c..2108f71 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,13 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = copy.deepcopy(self.glass_par)
+        new_copy.added_par = copy.deepcopy(self.added_par)
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = copy.deepcopy(self.mmlut_data)
+        return new_copy
 
 
 def write_ori(
-- 
2.43.0


From 8727396258f20f06a73f53ac8db77d56d4236b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 03/42] fix: keep the ray direction finite at perpendicular
 incidence (rounding made the radicand negative)

---
 openptv_python/ray_tracing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..ea04caf 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -95,7 +95,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium1 / refractive_index_medium2
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1 / refractive_index_medium2
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
@@ -119,7 +119,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular_scaled)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium2 / refractive_index_medium3
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium2 / refractive_index_medium3
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
-- 
2.43.0


From 7be004f697e24b76bb616e8cc84a279dddcf37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 04/42] fix: look-up table queries stay inside the table (no
 read past the end, no row wrap, no extrapolation below the origin)

---
 openptv_python/multimed.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..9f31e44 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -353,7 +353,7 @@ def fast_get_mmf_from_mmlut(
     """Get the refractive index of the medium at a given position."""
     temp = pos - origin
     sz = temp[2] / rw
-    iz = int(sz)
+    iz = int(np.floor(sz))
     sz -= iz
 
     R = float(np.linalg.norm(np.array([temp[0], temp[1], 0])))
@@ -361,9 +361,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the box needs a neighbour in both directions, outside there is no value
+    if ir >= nr - 1:
         return 0.0
-    if iz < 0 or iz > nz:
+    if iz < 0 or iz >= nz - 1:
         return 0.0
 
     # bilinear interpolation in r/z box
@@ -375,12 +376,6 @@ def fast_get_mmf_from_mmlut(
         (ir + 1) * nz + (iz + 1),
     ]
 
-    # 2. check wther point is inside camera's object volume
-    # important for epipolar line computation
-    for i in range(4):
-        if v4[i] < 0 or v4[i] > nr * nz:
-            return 0.0
-
     # interpolate
     mmf = (
         data[v4[0]] * (1 - sr) * (1 - sz)
-- 
2.43.0


From 02c53a3781f42f337994a2a51be8b6ecc4b3f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 05/42] fix: every glass layer refracts with its own index (not
 the first layer's)

---
 openptv_python/multimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 9f31e44..fe6a40b 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -83,13 +83,13 @@ def fast_multimed_r_nlay(
 
     while abs(rdiff) > 0.001 and it < n_iter:
         beta1 = np.arctan(rq / zdiff)
-        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[0])
+        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])
         beta3 = np.arcsin(np.sin(beta1) * n1 / n3)
 
         rbeta = (
             (z0 - d[0]) * np.tan(beta1)
             - zout * np.tan(beta3)
-            + np.sum(d * np.tan(beta2))
+            + np.sum(d[:nlay] * np.tan(beta2))
         )
 
         rdiff = r - rbeta
-- 
2.43.0


From af7ab3cd0b0cf69a17d0e2e89acf549cbdea08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 06/42] fix: init_mmlut recomputes the table (a second call
 kept the old values under the new grid)

---
 openptv_python/multimed.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index fe6a40b..b964821 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -317,18 +317,18 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
-
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
-
-        # print(f"filled mmlut data with {data}")
-        # cal.mmlut_data = data
+    # the table belongs to this volume, camera and grid: always computed afresh
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
+
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+
+    # print(f"filled mmlut data with {data}")
+    # cal.mmlut_data = data
 
     return cal
 
-- 
2.43.0


From 1887c81c32cdb97b28f4f5cf87678a38ace453d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 07/42] fix: multi_cam_point_positions returns one position per
 target (every row was overwritten by the last target's)

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From 49d142b19a471781381ee30d6d4c12325e4e8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 08/42] fix: the candidate search starts at the first target in
 range (long lists lost it)

---
 openptv_python/find_candidate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..71dcd23 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -204,4 +204,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     if start_point < 0:
         start_point = 0
 
+    # in long lists the truncation errors add up to more than that
+    while start_point > 0 and x[start_point - 1] >= xa - eps0:
+        start_point -= 1
+
     return start_point
-- 
2.43.0


From 42401499bec16e3d69e26943ec5aa0a3ca813c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 09/42] fix: the local target search starts at the first target
 in the window (long lists lost it)

---
 openptv_python/track.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..43505d3 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -310,6 +310,9 @@ def candsearch_in_pix(
         j0 -= 12
         if j0 < 0:
             j0 = 0
+        # in long lists the truncation errors add up to more than that
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
 
         for j in range(j0, num_targets):
             if next_frame[j].tnr != -1:
@@ -397,6 +400,9 @@ def candsearch_in_pix_rest(
             dj //= 2
 
         j0 -= 12 if j0 >= 12 else j0  # due to trunc
+        # in long lists the truncation errors add up to more than that
+        while j0 > 0 and next_frame[j0 - 1].y >= ymin:
+            j0 -= 1
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From 50e5b7eec9381ab5276791e9a4eaa6eee526eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 10/42] fix: the local target search keeps targets at equal
 distances

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 43505d3..a6654d0 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -330,13 +330,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From 86bc7a3a1b90fc09756fcf9d74a6667620f236c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 11/42] fix: three_camera_matching works with three cameras
 (groups always have four entries)

---
 openptv_python/correspondences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..a8bddcc 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -228,7 +228,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(4, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
-- 
2.43.0


From 84faecae9fd639001965d62410d1e86ff3974540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 12/42] fix: three_camera_matching only follows links that
 exist (unused list slots were taken for links to target 0)

---
 openptv_python/correspondences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index a8bddcc..8a9b5c3 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -204,7 +204,7 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            p2array = corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From 0dcbc0cddf0669e124437e0cf843f5d7696a3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 13/42] fix: correspondences are taken from the groups found
 only (not from stale or empty buffer entries)

---
 openptv_python/correspondences.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 8a9b5c3..a668ec6 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -653,31 +653,33 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        matched = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:matched], con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        matched = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        matched = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 37b64c77f8de79f82b4a936c9cc3cf9db556680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 14/42] fix: py_correspondences works with two and three
 cameras (four match counts, the last is the total)

---
 openptv_python/correspondences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index a668ec6..e072009 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -527,7 +527,7 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -580,7 +580,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
-- 
2.43.0


From eba990eafeb2a00a802f4403c1a45769ced3e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 15/42] fix: the matching stops at the end of its buffer with
 fewer than four cameras

---
 openptv_python/correspondences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index e072009..53c4095 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -654,7 +654,7 @@ def correspondences(
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
         matched = four_camera_matching(
-            corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
+            corr_list, frm.num_targets[0], vpar.corrmin, con0, len(con0)
         )
 
         match_counts[0] = take_best_candidates(
@@ -665,7 +665,7 @@ def correspondences(
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
         matched = three_camera_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, len(con0), tim
         )
 
         match_counts[1] = take_best_candidates(
@@ -676,7 +676,7 @@ def correspondences(
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
         matched = consistent_pair_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, len(con0), tim
         )
         match_counts[2] = take_best_candidates(
             con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
-- 
2.43.0


From 483cc6bca3cc55118b7be16129b50917507c5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 16/42] fix: an empty slot of the local search is not the last
 target of the list

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index a6654d0..b01dd23 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From 260620b76be468e74d4859320142e45b4d25bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 17/42] fix: ranking the candidates swaps records instead of
 duplicating one

---
 openptv_python/track.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index b01dd23..5d100f1 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -514,7 +514,11 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # (the records are views, a plain swap would duplicate one of them)
+                foundpix[j - 1], foundpix[j] = (
+                    foundpix[j].copy(),
+                    foundpix[j - 1].copy(),
+                )
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -527,7 +531,11 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # (the records are views, a plain swap would duplicate one of them)
+                foundpix[j - 1], foundpix[j] = (
+                    foundpix[j].copy(),
+                    foundpix[j - 1].copy(),
+                )
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From df73ff43bf45525c414b2d52ccb940b552848941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 18/42] fix: the turning angle is defined for parallel vectors
 and particles at rest

---
 openptv_python/track.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 5d100f1..8b42894 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -252,18 +252,23 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
 
     acc = np.linalg.norm(v0 - v1)
 
-    if np.all(v0 == -v1):
-        angle = 200
-    elif np.all(v0 == v1):
+    if np.all(v0 == v1):
         angle = 0
+    elif np.all(v0 == -v1):
+        angle = 200
     else:
         dot_product = np.sum(v0 * v1)
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
+        norms = norm_start_pred * norm_start_cand
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        if norms == 0:
+            # at rest before or after: there is no direction to turn from or to
+            angle = 0
+        else:
+            # rounding can take the cosine of (nearly) parallel vectors out of range
+            cosine = max(-1.0, min(1.0, dot_product / norms))
+            angle = (200.0 / np.pi) * np.arccos(cosine)
 
     return np.array([angle, acc])
 
-- 
2.43.0


From 0f9af4f8ea7492a54305c6b80faa6cc5511a1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 19/42] fix: add_particle reuses a free slot only when there is
 one and marks only the record it adds

---
 openptv_python/track.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b42894..e1ace50 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -750,16 +749,17 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
     else:
         ref_path_inf = Pathinfo()
         frm.path_info.append(ref_path_inf)
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
+
+    ref_corres = frm.correspond[num_parts]
+    ref_corres.p[:] = CORRES_NONE
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
@@ -767,10 +767,8 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     ref_targets = frm.targets
 
     for cam in range(frm.num_cams):
-        ref_corres.p[cam] = CORRES_NONE
-
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 474d8193621885e911e4fb5fc3437a4b240d926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 20/42] fix: a link taken over by a better candidate is not
 counted twice

---
 openptv_python/track.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index e1ace50..bb2e166 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1088,6 +1088,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     # remove link with prev
                     fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE
+                    count1 -= 1
                     ref_path_inf.prev_frame = h
                 else:
                     curr_path_inf.next_frame = NEXT_NONE
-- 
2.43.0


From 0b976b7a5d4d105a60778e822a88cdb94d93cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 21/42] fix: backward tracking writes the first frame to its
 own files, not over the second's

---
 openptv_python/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index bb2e166..77313c2 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1343,7 +1343,8 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    # the last step processed is first + 1; the buffer now starts with the first frame
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From 5e0fee853b86ff5b194a0d6092bd95566205a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 22/42] fix: sortgrid copies the detection it assigns instead
 of renumbering the caller's

---
 openptv_python/sortgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..7b9e0ee 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+from copy import copy
 from pathlib import Path
 from typing import List
 
@@ -62,7 +63,8 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
+                # a copy: the detection keeps its number, and may serve other points
+                sorted_pix[i] = copy(pix[j])
                 sorted_pix[i].pnr = i
 
     return sorted_pix
-- 
2.43.0


From 04e0d47cade75cd6a23f3e8c836258407c5f158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:50 +0000
Subject: [PATCH 23/42] fix: targets files of a frame have the same name for
 reading and writing

---
 openptv_python/tracking_frame_buf.py | 33 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..a8679ff 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -162,6 +162,20 @@ def sort_target_y(targets: List[Target]) -> List[Target]:
 #         return len(self)
 
 
+def targets_file_name(file_base: str, frame_num: int) -> str:
+    """Name of the targets file of a frame, the same for reading and writing."""
+    if frame_num <= 0:
+        return f"{file_base}_targets"
+
+    # fix old-type names, that are like cam1.# or just cam1.
+    if "#" in file_base:
+        file_base = file_base.replace("#", "%05d")
+    if "%" not in file_base:
+        file_base = file_base + "%05d"
+
+    return file_base % frame_num + "_targets"
+
+
 def read_targets(file_base: str, frame_num: int) -> List[Target]:
     """Read targets from a file."""
     buffer = []
@@ -169,13 +183,7 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
     # # if file_base has an extension, remove it
     # file_base = file_base.split(".")[0]
 
-    if frame_num > 0:
-        # filename = f"{file_base}{frame_num:04d}_targets"
-        fname = file_base % frame_num + "_targets"
-    else:
-        fname = f"{file_base}_targets"
-
-    filename = Path(fname)
+    filename = Path(targets_file_name(file_base, frame_num))
     print(f" filename: {filename}")
 
     try:
@@ -215,16 +223,7 @@ def write_targets(
     """Write targets to a file."""
     success = False
 
-    # fix old-type names, that are like cam1.# or just cam1.
-    if "#" in file_base:
-        file_base = file_base.replace("#", "%05d")
-    if "%" not in file_base:
-        file_base = file_base + "%05d"
-
-    if frame_num == 0:
-        frame_num = 123456789
-
-    file_name = file_base % frame_num + "_targets"
+    file_name = targets_file_name(file_base, frame_num)
 
     try:
         # Convert targets to a 2D numpy array
-- 
2.43.0


From 91a935f3f8379eeab0f2eff6b2b0561905343417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:50 +0000
Subject: [PATCH 24/42] fix: write_targets writes an empty list of targets

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index a8679ff..11ef5d2 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -229,7 +229,7 @@ def write_targets(
         # Convert targets to a 2D numpy array
         target_arr = np.array(
             [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 7861624909ee38a76c659e2f8575eff04c7aec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 25/42] fix: write_path_frame writes no prio file if none is
 asked for

---
 openptv_python/tracking_frame_buf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 11ef5d2..e70d94c 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -835,7 +835,7 @@ def write_path_frame(
     """
     corres_fname = f"{corres_file_base}.{frame_num}"
     linkage_fname = f"{linkage_file_base}.{frame_num}"
-    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base != "" else None
+    prio_fname = f"{prio_file_base}.{frame_num}" if prio_file_base else None
     success = False
 
     try:
@@ -845,7 +845,7 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
             prio_file.write(f"{num_parts}\n")
 
@@ -863,7 +863,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -872,7 +872,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 1b0605481de13a73795bacfe0a0642e56493a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 26/42] fix: read_path_frame reports a file it cannot open, as
 read_targets does

---
 openptv_python/tracking_frame_buf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index e70d94c..06a6c7f 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -723,7 +723,7 @@ def read_path_frame(
         filein = open(fname, "r", encoding="utf-8")
     except IOError:
         print(f"Can't open ascii file: {fname}")
-        return np.recarray(0, dtype=Corres_dtype), []
+        raise
 
     # we do not need number of particles, reading till EOF
     n_particles = int(filein.readline())
@@ -742,7 +742,7 @@ def read_path_frame(
             linkagein = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open linkage file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         linkagein.readline()
     else:
@@ -754,7 +754,7 @@ def read_path_frame(
             prioin = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open prio file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         prioin.readline()
     else:
-- 
2.43.0


From 7392bf915a0dd6833cf8dd8b6663d574a76fb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 27/42] fix: read_ori returns the calibration it reads (not the
 default one)

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 2108f71..b06802d 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -443,10 +443,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From c62519172dafd1db4780f22d9f1495e38f1c2a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 28/42] fix: compare_calibration compares the distortion
 parameters too

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b06802d..9945e03 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -489,6 +489,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 79d685b2108f93da7da650d882fe5d1e29a1ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 29/42] fix: write_ori without a distortion file succeeds once
 the orientation is written

---
 openptv_python/calibration.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 9945e03..2978772 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -404,8 +404,6 @@ def write_ori(
     add_file: Optional[str],
 ) -> bool:
     """Write an orientation file."""
-    success = False
-
     with open(filename, "w", encoding="utf-8") as fp:
         fp.write(f"{ext_par['x0']:.8f} {ext_par['y0']:.8f} {ext_par['z0']:.8f}\n")
         fp.write(
@@ -417,16 +415,15 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
             f"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} "
             f"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\n"
         )
-        success = True
 
-    return success
+    return True
 
 
 def read_ori(ori_file: Path, add_file: Path) -> Calibration:
-- 
2.43.0


From e51dba2a137369af2bd28e21a898f66528141264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 30/42] fix: compare_mm_np compares all glass layers

---
 openptv_python/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..a62ffd8 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From 51f30fedb1a75cc83ac419f9589e7f61c1083039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 31/42] fix: PftVersionPar.write writes its own flag in the
 form from_file reads

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a62ffd8..14e3c36 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -866,8 +866,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From dddf78745cd7e174dccd67960927b7a3e38f47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 32/42] fix: parameters read from yaml are built by from_dict
 (ControlPar kept mm as a dictionary)

---
 openptv_python/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 14e3c36..1399a34 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -53,7 +53,7 @@ class Parameters:
         """Read from YAML file."""
         with open(file_path, "r", encoding="utf-8") as file:
             data_dict = yaml.safe_load(file)
-            return cls(**data_dict)
+            return cls.from_dict(data_dict)
 
 
 @dataclass
-- 
2.43.0


From 46b88fba34e787c5046cfc1fdcf59b56721e5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 33/42] fix: ControlPar.from_dict leaves the dictionary it is
 given as it was

---
 openptv_python/parameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 1399a34..3261f98 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -458,8 +458,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From 4727375e92c0ef79c2f4d46ed7708544e3e3dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:23 +0000
Subject: [PATCH 34/42] fix: TrackPar.from_file raises the error it describes
 (raised a string)

---
 openptv_python/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 3261f98..df2bf52 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From 00fb650a5a3ec9121d8ab27b4f800b990611b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 35/42] fix: the derivatives leave the camera exactly as it was
 (adding and subtracting a step rounds)

---
 openptv_python/orientation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..2a1f29c 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -173,6 +173,7 @@ def num_deriv_exterior(
     # print(f"  xs = {xs}, ys = {ys}")
 
     for pd in range(6):
+        value = float(cal.ext_par[var[pd]])
         cal.increment_attribute(var[pd], steps[pd])
         # print(f"exterior = {cal.ext_par}")
         if pd > 2:
@@ -185,7 +186,7 @@ def num_deriv_exterior(
 
         # print(f"   x_ders[{pd}] = {x_ders[pd]}, y_ders[{pd}] = {y_ders[pd]}")
 
-        cal.increment_attribute(var[pd], -steps[pd])
+        cal.ext_par[var[pd]] = value
         # print(f"exterior = {cal.ext_par}")
 
     cal.update_rotation_matrix()
@@ -389,6 +390,7 @@ def orient(
             X[n][:6], X[n + 1][:6] = num_deriv_exterior(cal, cpar, dm, drad, fix[i])
 
             # Num. deriv. of projection coords over sensor distance from PP
+            cc = float(cal.int_par.cc)
             cal.int_par.cc += dm
             cal.update_rotation_matrix()
             xpd, ypd = img_coord(fix[i], cal, cpar.mm)
@@ -402,7 +404,7 @@ def orient(
             #     safety_x, safety_y, safety_z = cal.glass_par[0], cal.glass_par[1], cal.glass_par[2]
             #     nGl = cal.glass_par.n / cal.air_par.n
 
-            cal.int_par.cc -= dm
+            cal.int_par.cc = cc
 
             # al += dm
             cal.glass_par[0] += e1[0] * nGl * dm
-- 
2.43.0


From c0b6daf2477185bcb7da9cb2a741173941533d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 36/42] fix: the rotation matrix follows the angles when the
 orientation does not converge, too

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 2a1f29c..53dd56e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -573,6 +573,8 @@ def orient(
     # # Matrix multiplication
     # Xbeta = np.dot(X, beta)
 
+    cal.update_rotation_matrix()
+
     Xbeta = np.dot(X[:, :numbers], beta)
 
     resi = Xbeta - y
@@ -608,7 +610,6 @@ def orient(
     sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
 
     if stopflag:
-        cal.update_rotation_matrix()
         return resi
     else:
         return None
@@ -693,8 +694,7 @@ def raw_orient(
         cal.ext_par.phi += beta[4]
         cal.ext_par.kappa += beta[5]
 
-    if stopflag:
-        cal.update_rotation_matrix()
+    cal.update_rotation_matrix()
 
     return stopflag
 
-- 
2.43.0


From 6d107771357b79a8edc25cbf83ba5024fbeef476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:13 +0000
Subject: [PATCH 37/42] fix: keep the detection window inside the image that is
 given

---
 openptv_python/segmentation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index 9ae39d7..c46c221 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -49,10 +49,8 @@ def targ_rec(
         xmin = 1
     if ymin <= 0:
         ymin = 1
-    if xmax >= cpar.imx:
-        xmax = cpar.imx - 1
-    if ymax >= cpar.imy:
-        ymax = cpar.imy - 1
+    xmax = min(xmax, cpar.imx - 1, img.shape[1] - 1)
+    ymax = min(ymax, cpar.imy - 1, img.shape[0] - 1)
 
     nnmin, nnmax = targ_par.nnmin, targ_par.nnmax
     nxmin, nxmax = targ_par.nxmin, targ_par.nxmax
-- 
2.43.0


From 64b02c4e8da9f4ef5353556a1c02d8055139e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:13 +0000
Subject: [PATCH 38/42] fix: detect blobs with any number of waiting pixels

---
 openptv_python/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index c46c221..cb58a20 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -197,6 +197,8 @@ def fast_targ_rec(
                                     ya = yn
                                 if yn > yb:
                                     yb = yn
+                                if n_wait == len(waitlist):
+                                    waitlist.append([0, 0])
                                 waitlist[n_wait][0] = xn
                                 waitlist[n_wait][1] = yn
 
-- 
2.43.0


From faaf67e4e0df2aa17f38ab0399b8a005d616b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:13 +0000
Subject: [PATCH 39/42] fix: intersect the corner rays with the lower plane of
 the volume, too

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index b964821..0beec0d 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -422,9 +422,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From 3781254e1b240e92c91b883e3ca508b51e5c8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:21 +0000
Subject: [PATCH 40/42] fix: read the calibration block format the files have
 for the manual orientation

---
 openptv_python/orientation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 53dd56e..b645000 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -733,9 +733,9 @@ def read_calblock(filename):
     """Read the calibration block file."""
     with open(filename, "r", encoding="utf-8") as f:
         lines = f.readlines()
-        num_fix = int(lines[0])
+        num_fix = len(lines)
         fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
+        for i, line in enumerate(lines):
             parts = line.split()
             fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
     return fix, num_fix
-- 
2.43.0


From c06fd8fb07bfca65206754ce06e02f26f99556b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:21 +0000
Subject: [PATCH 41/42] fix: read manual orientation files with one number per
 line

---
 openptv_python/orientation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index b645000..98e84ea 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -706,10 +706,9 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_fix = 0
     num_match = 0
 
+    # four numbers for each camera
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
-- 
2.43.0


From 7f237ef2f1f7d28d6a80d86331fd425310df5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:21 +0000
Subject: [PATCH 42/42] fix: report badly formatted and empty calibration
 blocks as such

---
 openptv_python/sortgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 7b9e0ee..539e2a3 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -151,8 +151,8 @@ def read_calblock(filename: Path) -> np.recarray:  # List[Coord3d]:
     except FileNotFoundError:
         print(f"Can't open calibration block file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
-    except ValueError:
+    except (IndexError, ValueError):
         print(f"Empty or badly formatted file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
 
-    return np.array(coords).view(np.recarray)
+    return np.array(coords, dtype=Coord3d_dtype).view(np.recarray)
-- 
2.43.0


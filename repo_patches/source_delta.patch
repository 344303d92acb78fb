From 9b2c52e71dcdd51cae15ee8db00f23f2e6285b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 01/79] fix: conjugate of a southern quaternion must stay its
 inverse

Moving the conjugate to the northern hemisphere flips its sign, so
transform_vector returned the negated vector for any quaternion with a
negative scalar part.
---
 defdap/quat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..6dfec8f 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -325,7 +325,9 @@ class Quat(object):
             Conjugate of quaternion.
 
         """
-        return Quat(self[0], -self[1], -self[2], -self[3])
+        return Quat(
+            self[0], -self[1], -self[2], -self[3], allow_southern=True
+        )
 
     def transform_vector(
         self,
-- 
2.43.0


From 802e169b0d3e031ee88c40e1bd3ea6eabd25be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 02/79] fix: allow an EBSD map to be constructed from a python
 dictionary

The documented PythonDict data type could not be used as the map
constructor converted the dictionary to a Path.
---
 defdap/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..eca9282 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,7 +83,10 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        # data may be provided directly in a dict instead of a file
+        if not isinstance(file_name, dict):
+            file_name = Path(file_name)
+        self.file_name = file_name
         self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
-- 
2.43.0


From 737f326bdd49823262b6ba87354d6f9481be2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 03/79] fix: average orientation of quaternions near the
 hemisphere boundary

---
 defdap/quat.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index 6dfec8f..aa261f8 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -754,13 +754,17 @@ class Quat(object):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_mis_oris[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it,
+            # q and -q are the same orientation so match the hemisphere
+            max_idx = np.argmax(abs(curr_mis_oris))
+            if curr_mis_oris[max_idx] < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From 1754fad64862b53355b6b8d0ed0adf0472f4f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 04/79] fix: misorientation axis of (nearly) identical
 orientations is not nan

---
 defdap/quat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index aa261f8..bac939d 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -431,7 +431,11 @@ class Quat(object):
         if isinstance(right, type(self)):
             Dq = right * self.conjugate
             Dq = Dq.quat_coef
-            mis_ori_axis = 2 * Dq[1:4] * np.arccos(Dq[0]) / np.sqrt(1 - Dq[0]**2)
+            sin_half = np.sqrt(np.dot(Dq[1:4], Dq[1:4]))
+            if sin_half == 0:
+                # no rotation between the orientations
+                return np.zeros(3)
+            mis_ori_axis = 2 * Dq[1:4] * np.arctan2(sin_half, Dq[0]) / sin_half
             return mis_ori_axis
         raise TypeError("Input must be a quaternion.")
 
-- 
2.43.0


From e5b3ce0d1f38c95f81d0cefc30653dbf5a81473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/79] fix: image of an empty set of boundary points is empty

---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..3e6e0f3 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1604,7 +1604,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..2df795f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From eac24c69bd1bee239fce3322cfad947eb2f90c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 06/79] fix: flood fill stays in bounds on maps one point wide
 or high

---
 defdap/_accelerated.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..94da74d 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -55,17 +55,13 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
     while edge:
         x, y = edge.pop()
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
-        # get rid of any that go out of the map area
-        if x <= 0:
-            moves.pop(1)
-        elif x > grains.shape[1] - 2:
-            moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
+            # skip any that go out of the map area
+            if (s < 0 or s >= grains.shape[1] or
+                    t < 0 or t >= grains.shape[0]):
+                continue
+
             if grains[t, s] > 0:
                 continue
 
@@ -134,17 +130,12 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
         x, y = edge.pop()
 
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
-        # get rid of any that go out of the map area
-        if x <= 0:
-            moves.pop(1)
-        elif x >= grains.shape[1] - 1:
-            moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
-
         for (s, t) in moves:
+            # skip any that go out of the map area
+            if (s < 0 or s >= grains.shape[1] or
+                    t < 0 or t >= grains.shape[0]):
+                continue
+
             add_point = False
 
             if grains[t, s] == 0:
-- 
2.43.0


From 1380c82a20fbcba371b03495309c7f9ce554e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 07/79] fix: finding grains in a map without any grain

---
 defdap/ebsd.py  | 21 +++++++++++----------
 defdap/hrdic.py | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 3e6e0f3..e53d5d9 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -871,8 +871,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
@@ -930,15 +930,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 2df795f..4a50bba 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -628,8 +628,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
@@ -689,15 +689,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From 3db0b8aadef2303070b8ca14285d0a07ba54a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 08/79] fix: only link DIC grains to points of the EBSD map
 that are in a grain

---
 defdap/hrdic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 4a50bba..28d7365 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -678,11 +678,12 @@ class Map(base.Map):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
                 # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
-                grain.ebsd_grain = self.ebsd_map[mode_id - 1]
+                ebsd_ids = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                # values <= 0 are not grains
+                ebsd_ids = ebsd_ids[ebsd_ids > 0]
+                if len(ebsd_ids) > 0:
+                    mode_id, _ = mode(ebsd_ids, keepdims=False)
+                    grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
         else:
-- 
2.43.0


From a2235d47783d11887218381d70c323dad2e57c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 09/79] fix: IPF direction on an edge of the fundamental
 triangle is inside it, unknown triangle is refused

---
 defdap/quat.py | 62 ++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index bac939d..f2dc578 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1045,51 +1045,49 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
-        # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
-
-        # convert to spherical coordinates
-        alpha, beta = Quat.polar_angles(
-            direction_crystal[0], direction_crystal[1], direction_crystal[2]
-        )
-
-        # find the poles in the fundamental triangle
+        # normals of the planes bounding the fundamental triangle, all
+        # pointing to the inside
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            edge_normals = [
+                [-1, 0, 0],
+                [1/np.sqrt(2), 1/np.sqrt(2), 0],
+                [0, -1/np.sqrt(2), 1/np.sqrt(2)],
+            ]
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                edge_normals = [
+                    [-1, 0, 0], [np.sqrt(3)/2, 1/2, 0], [0, 0, 1]
+                ]
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                edge_normals = [
+                    [1, 0, 0], [-np.sqrt(3)/2, 1/2, 0], [0, 0, 1]
+                ]
             else:
-                ValueError("`triangle` must be 'up' or 'down'")
+                raise ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
-        
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
-
-        if sym_group == "cubic":
-            # now of symmetric equivalents left we want the one with
-            # minimum alpha
-            fund_idx = np.nanargmin(np.where(trial_poles, alpha, np.nan), axis=0)
-        else:
-            # non-indexed points cause more than 1 symmetric equivalent, use this
-            # to pick one and filter non-indexed points later
-            fund_idx = trial_poles.argmax(axis=0)
 
+        # The pole in the fundamental triangle is the one furthest inside
+        # all the edges, of all symmetric equivalents and their opposites.
+        # Poles on an edge are found whatever the rounding.
+        edge_dist = np.einsum(
+            'li,ijk->ljk', np.array(edge_normals, dtype=dtype),
+            direction_crystal
+        )
+        dist = edge_dist.min(axis=0)
+        dist_opposite = -edge_dist.max(axis=0)
+        fund_idx = np.maximum(dist, dist_opposite).argmax(axis=0)
         fund_idx = (fund_idx, range(len(fund_idx)))
-        return alpha[fund_idx], beta[fund_idx]
+
+        direction_fund = direction_crystal[(slice(None),) + fund_idx]
+        direction_fund[:, dist_opposite[fund_idx] > dist[fund_idx]] *= -1
+
+        # convert to spherical coordinates
+        return Quat.polar_angles(*direction_fund)
 
     @staticmethod
     def sym_eqv(symGroup: str) -> List['Quat']:
-- 
2.43.0


From 3302db6f78ecf57016e09b0349ce85290af11a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 10/79] fix: large indices are not wrapped when cast to
 integers

---
 defdap/crystal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..c287bad 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -335,7 +335,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(int))
 
 
 def safe_int_cast(vec, tol=1e-3):
@@ -366,7 +366,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From 471e6d036f541ea2623f8a74062986d44c29c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 11/79] fix: load a slip system file with a single slip system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From d424bb494113a2fc54fa953f5a801f475869cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 12/79] fix: {123}<111> slip directions lie in their slip
 planes (cubic_bcc)

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From f07db35a474b5bb5aade8e26450d5667582ffa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 13/79] fix: misorientation axis of points at the grain
 reference orientation is not nan

---
 defdap/ebsd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index e53d5d9..1a0a5b8 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1277,7 +1277,10 @@ class Grain(base.Grain):
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
             # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            sin_half = np.sqrt(np.sum(dq[1:4]**2, axis=0))
+            # no rotation if zero, then the axis is a zero vector
+            sin_half_safe = np.where(sin_half == 0, 1, sin_half)
+            mis_ori_axis[:, :] = 2 * dq[1:4, :] * np.arctan2(sin_half, dq[0, :]) / sin_half_safe
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
@@ -1307,7 +1310,10 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        sin_half = np.sqrt(np.sum(dq[1:4]**2, axis=0))
+        # no rotation if zero, then the axis is a zero vector
+        sin_half_safe = np.where(sin_half == 0, 1, sin_half)
+        misori_axis = 2 * dq[1:4] * np.arctan2(sin_half, dq[0]) / sin_half_safe
 
         return misori, misori_axis
     
-- 
2.43.0


From 1f1f45f6174916e1d2566a8c3e8e8578bbe25a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 14/79] fix: slip trace inclination and angle are not nan
 through rounding

---
 defdap/ebsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 1a0a5b8..5f532ab 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1557,7 +1557,9 @@ class Grain(base.Grain):
             intersection_crystal = np.cross(screen_plane_norm_crystal, slip_plane_norm)
 
             # Calculate angle between slip plane and screen plane
-            inclination = np.arccos(np.dot(screen_plane_norm_crystal, slip_plane_norm))
+            inclination = np.arccos(np.clip(
+                np.dot(screen_plane_norm_crystal, slip_plane_norm), -1, 1
+            ))
             if inclination > np.pi / 2:
                 inclination = np.pi - inclination
             # print("{} inclination: {:.1f}".format(planeLabel, inclination * 180 / np.pi))
@@ -1570,7 +1572,9 @@ class Grain(base.Grain):
             # counter clockwise
             if intersection[0] > 0:
                 intersection *= -1
-            trace_angle = np.arccos(np.dot(intersection, np.array([0, 1.0, 0])))
+            trace_angle = np.arccos(np.clip(
+                np.dot(intersection, np.array([0, 1.0, 0])), -1, 1
+            ))
 
             # Append to list
             self.slip_trace_angles.append(trace_angle)
-- 
2.43.0


From 1060cf19c37bff7d0b8a178c547686bc39de4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 15/79] fix: data visible only through a later derivative of a
 datastore can be read, names listed once

---
 defdap/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..6b2aef0 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -236,7 +236,8 @@ class Datastore(object):
         keys = list(self._store.keys())
         for derivative in self._derivatives:
             keys += self.lookup_derivative_keys(derivative)
-        return keys
+        # names can be visible through more than one derivative
+        return list(dict.fromkeys(keys))
 
     def lookup_derivative_keys(self, derivative):
         root_call = False
@@ -265,8 +266,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 1e6723214632d4894bb6f807adb849723b5ace31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 16/79] fix: lookup of derived data leaves no visited stores
 behind when it ends early

---
 defdap/utils.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 6b2aef0..703452c 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -246,21 +246,23 @@ class Datastore(object):
             Datastore._been_to = set()
         Datastore._been_to.add(self._group_id)
 
-        source = derivative['source']
-        matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
+        try:
+            source = derivative['source']
+            matched_keys = []
+            if source._group_id in Datastore._been_to:
+                return matched_keys
+            for key in source:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
 
-        if root_call:
-            Datastore._been_to = None
+            return matched_keys
 
-        return matched_keys
+        finally:
+            if root_call:
+                Datastore._been_to = None
 
     def _get_derived_item(self, key, attr):
         for derivative in self._derivatives:
-- 
2.43.0


From 185c7fc4ad6ec3c5b4e0e14276a9541c50f8a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 17/79] fix: merging a datastore with priority does not change
 the other datastore

---
 defdap/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 703452c..cb8cd20 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -420,8 +420,7 @@ class Datastore(object):
 
         """
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            self._store = {**other._store, **self._store}
         else:
             self._store.update(other._store)
 
-- 
2.43.0


From 9909416b43d2caee0e02ad2696ea6dca0007f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 18/79] fix: KAM of maps with a single row or column

---
 defdap/ebsd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 5f532ab..a565382 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -415,6 +415,19 @@ class Map(base.Map):
 
         kam = np.empty(self.shape)
 
+        # A single row or column only has neighbours in one direction
+        if 1 in self.shape:
+            line = quat_comps.reshape(4, -1)
+            dots = abs(np.einsum("ij,ij->j", line[:, :-1], line[:, 1:]))
+            dots[dots > 1] = 1
+            dots = np.concatenate((dots[:1], dots, dots[-1:]))
+            kam[:] = 1
+            if len(dots) > 0:
+                kam[:] = ((dots[:-1] + dots[1:]) / 2).reshape(self.shape)
+
+            yield 1.
+            return 2 * np.arccos(kam)
+
         # Start with rows. Calculate misorientation with neighbouring rows.
         # First and last row only in one direction
         kam[0] = abs(np.einsum("ij,ij->j",
-- 
2.43.0


From 701f73a117d9c36b2a586fb625eb19018078ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 19/79] fix: orientation filter does not depend on the sign of
 the quaternions

---
 defdap/ebsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index a565382..af6a001 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -657,6 +657,8 @@ class Map(base.Map):
                     np.einsum("ijk,i->jk", quats, ref_quat)
                 )
                 quats = quats[:, mis_oris_quad > misori_tol]
+                # q and -q are the same, use those close to the reference
+                quats = quats * np.sign(np.einsum("ij,i->j", quats, ref_quat))
 
                 avOri = np.einsum("ij->i", quats)
                 # avOri /= np.sqrt(np.dot(avOri, avOri))
-- 
2.43.0


From 67b899e6e418365c39c69c4deb8f1d582881a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 20/79] fix: orientation filter of maps too small to filter

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index af6a001..8f3eef2 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -674,7 +674,7 @@ class Map(base.Map):
 
         self.data.orientation = quat_array_new
 
-        return quats
+        return quat_array_new
 
     @report_progress("finding grain boundaries")
     def find_boundaries(self, misori_tol=10):
-- 
2.43.0


From a7da434f6712e201c4ab605f8113bb7e54b8d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 21/79] fix: y gradient of the Nye tensor no longer overwrites
 the x gradient

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 8f3eef2..f6795da 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -523,7 +523,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From c6c28928c1e2c0207a0b9dda812ae9d5d92df21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 22/79] fix: rotating an EBSD map rotates all of its data
 whatever was calculated before

---
 defdap/ebsd.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index f6795da..98fab3d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -248,17 +248,32 @@ class Map(base.Map):
 
         """
 
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        generated = [key for keys in self.data._generators for key in keys]
+        # orientations may not be those of the loaded Euler angles anymore,
+        # so are always transformed rather than calculated again
+        orientation = self.data.orientation[::-1, ::-1]
+
+        for key, item in self.data._store.items():
+            if (item.get('type') == 'map' and key not in generated
+                    and item['data'] is not None):
+                self.data[key] = item['data'][..., ::-1, ::-1]
+        euler_angle = np.array(self.data.euler_angle)
+        euler_angle[0] = (euler_angle[0] + np.pi) % (2 * np.pi)
+        self.data.euler_angle = euler_angle
+
+        # everything else calculated for the unrotated map is out of date
+        for key in generated:
+            self.data[key] = None
+        self._grains = None
+        self.sel_grain = None
+        self.neighbour_network = None
+        self.proxigram_arr = None
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(orientation.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From 1b0f84e5c300f3ef5c7a311f18cddfc355507863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 23/79] fix: setting a crop discards the grains and other data
 found in the previous crop

---
 defdap/hrdic.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 28d7365..d0e3ba8 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -329,6 +329,8 @@ class Map(base.Map):
             If true, change homologous points to reflect crop.
 
         """
+        old_crop_dists = self.crop_dists.copy()
+
         # changes in homog points
         dx = 0
         dy = 0
@@ -356,6 +358,17 @@ class Map(base.Map):
         y_dim = self.ydim - self.crop_dists[1, 0] - self.crop_dists[1, 1]
         self.shape = (y_dim, x_dim)
 
+        # data calculated for the previous crop is out of date
+        if np.any(self.crop_dists != old_crop_dists):
+            for keys in self.data._generators:
+                for key in keys:
+                    if self.data.get_metadata(key, 'cropped', False):
+                        self.data[key] = None
+            self._grains = None
+            self.sel_grain = None
+            self.proxigram_arr = None
+            self.neighbour_network = None
+
     def crop(self, map_data, binning=None):
         """ Crop given data using crop parameters stored in map
         i.e. cropped_data = DicMap.crop(DicMap.data_to_crop).
-- 
2.43.0


From 500a21cf13c1dc10a67e45397525dfcdc291cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 24/79] fix: mask of a DIC map stays on the same points when
 the crop changes

---
 defdap/hrdic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index d0e3ba8..cd8fc82 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -120,7 +120,7 @@ class Map(base.Map):
 
         self.data.add_generator(
             'mask', self.calc_mask, unit='', type='map', order=0,
-            cropped=True, apply_mask=False
+            apply_mask=False
         )
 
         # Deformation gradient
@@ -380,6 +380,8 @@ class Map(base.Map):
         binning : int
             True if mapData is binned i.e. binned BSE pattern.
         """
+        if map_data is None:
+            return None
         binning = 1 if binning is None else binning
 
         min_y = int(self.crop_dists[1, 0] * binning)
@@ -509,18 +511,22 @@ class Map(base.Map):
         print(f'Masking will mask {num_removed} out of {num_total} '
               f'({frac_removed:.2f} %) datapoints in cropped map.')
         
-        self.data.mask = mask
+        # Store for the whole map so the same points are masked in any crop
+        full_mask = np.zeros(self.original_shape, dtype=bool)
+        self.crop(full_mask)[...] = mask
+        self.data.mask = full_mask
 
-        return mask
+        return full_mask
 
     def mask(self, map_data):
         """ Values set to False in mask will be set to nan in map.
         """
-        if self.data.mask is None:
+        mask = self.data.mask
+        if mask is None:
             return map_data
         else:
             return np.ma.array(map_data, 
-                            mask=np.broadcast_to(self.data.mask, np.shape(map_data)))
+                            mask=np.broadcast_to(mask, np.shape(map_data)))
 
     def set_pattern(self, img_path, window_size):
         """Set the path to the image of the pattern.
-- 
2.43.0


From 34b2df06bacba55d8dc559aa8754d56f60c63064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 25/79] fix: outline of a grain with the default background,
 and plotting it

---
 defdap/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index eca9282..b0e9a30 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -876,7 +876,8 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg,
+                          dtype=np.result_type(np.array(bg), np.array(fg)))
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
@@ -901,7 +902,7 @@ class Grain(ABC):
 
         """
         plot = plotting.GrainPlot(self, ax=ax)
-        plot.addMap(self.grain_outline(), **kwargs)
+        plot.add_map(self.grain_outline(), **kwargs)
 
         if plot_scale_bar:
             plot.add_scale_bar()
-- 
2.43.0


From b0d3422d029988a639a27b4c65e48dddcb6a65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 26/79] fix: image of a grain from tensor or integer map data

---
 defdap/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index b0e9a30..d0085ad 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -951,7 +951,8 @@ class Grain(ABC):
                 raise ValueError("Either 'mapData' or 'grain_data' must "
                                  "be supplied.")
             else:
-                grain_data = self.grain_data(map_data)
+                # values of a point along all but the first axis
+                grain_data = np.moveaxis(self.grain_data(map_data), -1, 0)
         x0, y0, xmax, ymax = self.extreme_coords
 
         # To support 3D array (ie RGB)
@@ -960,7 +961,10 @@ class Grain(ABC):
             map_shape = map_shape + grain_data.shape[1:]
         
         # Create output array with appropriate dtype
-        grain_map_data = np.full(map_shape, bg, dtype=grain_data.dtype)
+        grain_map_data = np.full(
+            map_shape, bg,
+            dtype=np.result_type(grain_data.dtype, np.min_scalar_type(bg))
+        )
 
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
-- 
2.43.0


From b367903f69107c1ec1a40145d7ecff1f18fafb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 27/79] fix: grain value maps of a single grain and with any
 background value

---
 defdap/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index d0085ad..85bf3ab 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -608,8 +608,11 @@ class Map(ABC):
             Array containing the grain average values.
 
         """
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         grain_average_data = np.zeros(len(grain_ids))
 
@@ -666,7 +669,10 @@ class Map(ABC):
             raise ValueError("The grain data supplied must be either a"
                              "single value or RGB values per grain.")
 
-        grain_map = np.full(mapShape, bg, dtype=grain_data.dtype)
+        grain_map = np.full(
+            mapShape, bg,
+            dtype=np.result_type(grain_data.dtype, np.min_scalar_type(bg))
+        )
         for grainId, grain_value in zip(grain_ids, grain_data):
             for point in self[grainId].data.point:
                 grain_map[point[1], point[0]] = grain_value
-- 
2.43.0


From 12a79e31e3f3ae00123de286f0cc974fc2ba8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 28/79] fix: proxigram attribute of a map

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 85bf3ab..6fd6ba7 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -392,7 +392,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
+        self.proxigram_arr = self.data.proxigram
 
         return self.proxigram_arr
 
-- 
2.43.0


From eca1babbac798bf5c0c9410e0ee4e90a465aacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 29/79] fix: proxigram of points more than 1000 points from a
 boundary

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 6fd6ba7..bccf56f 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -419,7 +419,7 @@ class Map(ABC):
 
         # array to store trial distance from each boundary point
         trial_distances = np.full((num_trials + 1,) + self.shape,
-                                  1000, dtype=float)
+                                  np.inf, dtype=float)
 
         # loop over each boundary point (p) and calculate distance from
         # p to all points in the map store minimum once numTrails have
-- 
2.43.0


From 7daf63effdac3ade22a1729c9ff60b0d044d86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 30/79] fix: misorientation of a boundary segment uses the
 symmetry of the phase of its grains

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 98fab3d..4751c9a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1787,7 +1787,7 @@ class BoundarySegment(object):
 
     def misorientation(self):
         mis_ori, minSymm = self.grain1.ref_ori.mis_ori(
-            self.grain2.ref_ori, self.ebsdMap.crystal_sym, return_quat=2
+            self.grain2.ref_ori, self.grain1.crystal_sym, return_quat=2
         )
         mis_ori = 2 * np.arccos(mis_ori)
         mis_ori_axis = self.grain1.ref_ori.mis_ori_axis(minSymm)
-- 
2.43.0


From 5f96f0fffb9d0e9fe0f1999317638cb770f41f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 31/79] fix: boundaries warped to a frame that is offset,
 rotated, or unevenly scaled

---
 defdap/experiment.py | 63 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..2783c8e 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -96,16 +96,48 @@ class Experiment(object):
         transform = self.get_frame_transform(frame_2, frame_1)
 
         if not crop and isinstance(transform, tf.AffineTransform):
-            # copy transform and change translation to give an extra
-            # 5% border to show the entire image after rotation/shearing
-            input_shape = np.array(map_data.shape)
+            # copy transform and change translation to show the entire image
+            # with an extra 5% border after rotation/shearing
+            origin, output_shape = self._uncropped_extent(
+                transform, map_data.shape
+            )
             transform = tf.AffineTransform(matrix=np.copy(transform.params))
-            transform.params[0:2, 2] = -0.05 * input_shape
-            output_shape = input_shape * 1.4 / transform.scale
-            kwargs['output_shape'] = output_shape.astype(int)
+            transform.params[0:2, 2] += np.matmul(
+                transform.params[0:2, 0:2], origin
+            )
+            kwargs['output_shape'] = output_shape
 
         return tf.warp(map_data, transform, **kwargs)
 
+    @staticmethod
+    def _uncropped_extent(transform, input_shape):
+        """Extent of an entire image, with a 5% border, after warping.
+
+        Parameters
+        ----------
+        transform : skimage.transform.AffineTransform
+            Transform from output to input coordinates.
+        input_shape : tuple of int
+            Shape of image before warping.
+
+        Returns
+        -------
+        origin : numpy.ndarray
+            Output coordinates (x, y) of the first point in the extent.
+        output_shape : tuple of int
+            Shape of the extent.
+
+        """
+        y_dim, x_dim = input_shape[:2]
+        corners = transform.inverse(np.array([
+            (x, y) for x in (-0.05 * x_dim, 1.05 * x_dim)
+            for y in (-0.05 * y_dim, 1.05 * y_dim)
+        ]))
+        origin = np.floor(corners.min(axis=0)).astype(int)
+        x_dim, y_dim = np.ceil(corners.max(axis=0)).astype(int) - origin + 1
+
+        return origin, (int(y_dim), int(x_dim))
+
     def warp_lines(self, lines, frame_1, frame_2):
         """Warp a set of lines to the DIC reference frame.
 
@@ -130,7 +162,7 @@ class Experiment(object):
         return lines
 
     def warp_points(self, points_img, frame_1, frame_2, **kwargs):
-        input_shape = np.array(points_img.shape)
+        input_shape = points_img.shape
         points_img = self.warp_image(points_img, frame_1, frame_2, crop=False,
                                      **kwargs)
 
@@ -138,19 +170,18 @@ class Experiment(object):
         mph.remove_small_objects(points_img, min_size=10, connectivity=2,
                                  out=points_img)
 
-        # remove 5% border if required
+        points = np.argwhere(points_img.transpose())
+
+        # remove border if required
         transform = self.get_frame_transform(frame_2, frame_1)
         if isinstance(transform, tf.AffineTransform):
-            # the crop is defined in EBSD coords so need to transform it
-            crop = np.matmul(
-                np.linalg.inv(transform.params[0:2, 0:2]),
-                transform.params[0:2, 2] + 0.05*input_shape
+            points += self._uncropped_extent(transform, input_shape)[0]
+            in_output = np.all(
+                (points >= 0) & (points < kwargs['output_shape'][::-1]), axis=1
             )
-            crop = crop.round().astype(int)
-            points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
-                                    crop[0]:crop[0] + kwargs['output_shape'][1]]
+            points = points[in_output]
 
-        return zip(*points_img.transpose().nonzero())
+        return map(tuple, points)
 
 
 class Increment(object):
-- 
2.43.0


From 69c0419f1058180c73b8e3dfdbde8f74d5f5ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 32/79] fix: boundaries of a DIC map linked again are those of
 the map linked last

---
 defdap/hrdic.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index cd8fc82..43c4153 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -409,15 +409,26 @@ class Map(base.Map):
         kwargs.update({'type': transform_type.lower()})
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
-            self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self.ebsd_map.data, self.warp_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def warp_boundaries(self, boundaries):
+        """Warp boundaries of the linked EBSD map to the DIC frame.
+
+        Parameters
+        ----------
+        boundaries : defdap.ebsd.BoundarySet
+
+        Returns
+        -------
+        defdap.hrdic.BoundarySet
+
+        """
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From 3af19d62bf31f5e7b960d75197adde744e262c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 33/79] fix: link frames with the documented name of a
 piecewise affine transform

---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 2783c8e..3088a8d 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From 723fa7eca52962920a2192c5bb0cb1dcf98a6baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 34/79] fix: read all fields of a .crc file that follow an
 unknown field

---
 defdap/file_readers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..456ad6d 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,15 +492,16 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append(
+                    (f'unknown_{unknown_field_count}', 'float32'))
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From d051767cad2328a3e25f041959b4c201fa8f2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 35/79] fix: load .ang files (columns did not match the data
 format)

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 456ad6d..598c621 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From 1bc77656d1520679b6d53948513b82020520f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 36/79] fix: do not take free text in a .ctf header for a
 header entry

---
 defdap/file_readers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 598c621..03968e3 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -132,19 +132,19 @@ class OxfordTextLoader(EBSDDataLoader):
         acq_eulers = [0., 0., 0.]
         with open(str(file_name), 'r') as ctf_file:
             for i, line in enumerate(ctf_file):
-                if 'XCells' in line:
+                if line.startswith('XCells'):
                     x_dim = int(line.split()[-1])
-                elif 'YCells' in line:
+                elif line.startswith('YCells'):
                     y_dim = int(line.split()[-1])
-                elif 'XStep' in line:
+                elif line.startswith('XStep'):
                     self.loaded_metadata['step_size'] = float(line.split()[-1])
-                elif 'AcqE1' in line:
+                elif line.startswith('AcqE1'):
                     acq_eulers[0] = float(line.split()[-1])
-                elif 'AcqE2' in line:
+                elif line.startswith('AcqE2'):
                     acq_eulers[1] = float(line.split()[-1])
-                elif 'AcqE3' in line:
+                elif line.startswith('AcqE3'):
                     acq_eulers[2] = float(line.split()[-1])
-                elif 'Phases' in line:
+                elif line.startswith('Phases'):
                     num_phases = int(line.split()[-1])
                     self.loaded_data['phase', 'plot_params']['vmax'] = num_phases
                     for j in range(num_phases):
-- 
2.43.0


From b53626fb9a858b4c5a4d58f8c6498d5bb98af900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 37/79] fix: keep the whole material name of a phase of an .ang
 file

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 03968e3..b695301 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -351,7 +351,7 @@ class EdaxAngLoader(EBSDDataLoader):
             line = line.split()
 
             if line[0] == 'MaterialName':
-                name = line[1]
+                name = ' '.join(line[1:])
             if line[0] == 'Symmetry':
                 point_group = line[1]
                 if point_group in ('43', 'm3m'):
-- 
2.43.0


From cd3a90c6e3af4fe278db3e6fac0b84df8403fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 38/79] fix: write the space group of phases to .ctf files

---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..cabcd23 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}\t{phase.spaceGroup or 0}"
+                               f"\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 674d08ae4d8fd9636d2eab43b83b2e9c47471230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 39/79] fix: write band contrast to .ctf files as an integer

---
 defdap/file_writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index cabcd23..4ca0c62 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -122,5 +122,5 @@ class OxfordTextWriter(EBSDDataWriter):
                 error = 3 if phase == 0 else 0
                 ctf_file.write(
                     f"{phase}\t{x:.3f}\t{y:.3f}\t10\t{error}\t{eulers[0]:.3f}"
-                    f"\t{eulers[1]:.3f}\t{eulers[2]:.3f}\t0.0000\t{bc}\t0\n"
+                    f"\t{eulers[1]:.3f}\t{eulers[2]:.3f}\t0.0000\t{bc:.0f}\t0\n"
                 )
-- 
2.43.0


From d40e377c7321f512e449d1b5b4280731b7a417bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 40/79] fix: flip OpenPIV data only if its rows are in
 descending order

---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index b695301..d5d1ae0 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -789,9 +789,11 @@ class OpenPivTextLoader(DICDataLoader):
 
         self.checkMetadata()
         
+        data = data.reshape(shape + (-1,))
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -824,7 +826,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:, 0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From 16d434b34f54c3e7b113559c13cb2a0850fd95cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 41/79] fix: load OpenPIV text files whose grid does not start
 at half a window

---
 defdap/file_readers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index d5d1ae0..893add6 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -782,9 +782,10 @@ class OpenPivTextLoader(DICDataLoader):
         binning = binning_x
         self.loaded_metadata['binning'] = binning
 
-        # shape of map (from header)
-        shape = data[:, [col['y'], col['x']]].max(axis=0) + binning / 2
-        shape = tuple((shape / binning).astype(int).tolist())
+        # shape of map (from data)
+        yx_array = data[:, [col['y'], col['x']]]
+        shape = (yx_array.max(axis=0) - yx_array.min(axis=0)) / binning + 1
+        shape = tuple(shape.astype(int).tolist())
         self.loaded_metadata['shape'] = shape
 
         self.checkMetadata()
-- 
2.43.0


From a779d93165493cdbce9feb3911d6204e514374f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 42/79] fix: find the spacing of PyVale data of a region of
 interest

---
 defdap/file_readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 893add6..f315e8e 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -879,8 +879,8 @@ class PyValeLoader(DICDataLoader):
         self.loaded_metadata['version'] = 'n/a'
 
         # Sub-window width in pixels
-        binning_x = int(np.min(np.abs(np.diff(data['x']))))
-        binning_y = int(np.max(np.abs(np.diff(data['y']))))
+        binning_x = int(np.min(np.diff(np.unique(data['x']))))
+        binning_y = int(np.min(np.diff(np.unique(data['y']))))
         assert binning_x == binning_y
         binning = binning_x
         self.loaded_metadata['binning'] = binning
-- 
2.43.0


From 70d3a97428fec4a640ae7243335d61471b1fce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 43/79] fix: open the grain inspector (slip bands of given
 angles)

---
 defdap/plotting.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d490bfd..be06571 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -865,10 +865,11 @@ class GrainPlot(Plot):
 
         self.add_traces(slip_trace_angles, colours, **kwargs)
 
-    def add_slip_bands(self, grain_map_data, colour=None, thres=None, 
-                       min_dist=None, **kwargs):
-        """Add lines representing slip bands detected by Radon transform
-        in :func:`~defdap.hrdic.grain.calc_slip_bands`.
+    def add_slip_bands(self, grain_map_data=None, colour=None, thres=None,
+                       min_dist=None, angles=None, **kwargs):
+        """Add lines representing slip bands, at the angles given or else
+        detected by Radon transform in
+        :func:`~defdap.hrdic.grain.calc_slip_bands`.
 
         Parameters
         ----------
@@ -880,18 +881,21 @@ class GrainPlot(Plot):
             Threshold to use in :func:`~defdap.hrdic.Grain.calc_slip_bands`.
         min_dist :
             Minimum angle between bands in :func:`~defdap.hrdic.Grain.calc_slip_bands`.
+        angles : list
+            Angles of the slip bands (in radians), if known already.
         kwargs
             Other arguments are passed to :func:`defdap.plotting.GrainPlot.add_traces`.
 
         """
         if colour is None:
             colour = "black"
-        slip_band_angles = self.calling_grain.calc_slip_bands(
-            grain_map_data,
-            thres=thres,
-            min_dist=min_dist
-        )
-        self.add_traces(slip_band_angles, [colour], **kwargs)
+        if angles is None:
+            angles = self.calling_grain.calc_slip_bands(
+                grain_map_data,
+                thres=thres,
+                min_dist=min_dist
+            )
+        self.add_traces(angles, [colour], **kwargs)
 
     @classmethod
     def create(
-- 
2.43.0


From 8d2fb404ec5b0c060906798b70bc84674c4e52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 44/79] fix: write inspector files that can be loaded again

---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..4aeb534 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -195,7 +195,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -430,7 +430,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From 574c68c1b753e590740cd3fee02e56813ed01148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 45/79] fix: angle of line groups after lines were removed

---
 defdap/inspector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 4aeb534..b42f4a5 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,9 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # Forget the groups of any previous grouping
+            for line in grain.points_list:
+                line[2] = -1
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From f2fede02bb8db1f24ac1af5cd640b98ba2eb8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 46/79] fix: do not duplicate lines when an inspector file is
 loaded

---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index b42f4a5..9abc596 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -659,6 +659,10 @@ class GrainInspector:
 
         # Write data from file into grain
         for start_index, grain_id, num_lines, num_groups in index_list:
+            # Replace anything drawn in the grain already
+            self.selected_dic_map[grain_id].points_list = []
+            self.selected_dic_map[grain_id].groups_list = []
+
             start_index_lines = start_index + 2
             grain_points = lines[start_index_lines:start_index_lines + num_lines]
             for point in grain_points:
-- 
2.43.0


From 97e1a57868894a22255b39ee4a2df7a1b043af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 47/79] fix: analyse the grain asked for in the inspector, not
 the one displayed

---
 defdap/inspector.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 9abc596..5a3a6ff 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -367,7 +367,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
@@ -415,11 +415,11 @@ class GrainInspector:
             x, y = skimage_line(int(x0), int(y0), int(x1), int(y1))
 
             # Get x and y coordinates for points to be samples for RDR
-            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
-            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
+            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
+            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
-            x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
-            y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
+            x_list.extend(xmap - grain.extreme_coords[0])
+            y_list.extend(ymap - grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
             u = self.selected_dic_map.data.displacement[0][ymap, xmap]
@@ -480,8 +480,8 @@ class GrainInspector:
         self.rdr_plot.plot_axis = self.rdr_plot.add_axes((0.05, 0.1, 0.3, 0.35))
 
         # Draw grain plot
-        self.rdr_plot.grainPlot = self.selected_dic_grain.plot_grain_data(
-            grain_data=self.selected_dic_grain.data.max_shear,
+        self.rdr_plot.grainPlot = grain.plot_grain_data(
+            grain_data=grain.data.max_shear,
             fig=self.rdr_plot.fig,
             ax=self.rdr_plot.grain_axis,
             plot_colour_bar=False,
@@ -512,14 +512,14 @@ class GrainInspector:
                                va='bottom', ha='right',
                                transform=self.rdr_plot.plot_axis.transAxes, fontsize=10, fontfamily='monospace');
 
-        self.selected_ebsd_grain.calc_slip_traces()
-        self.selected_ebsd_grain.calc_rdr()
+        grain.ebsd_grain.calc_slip_traces()
+        grain.ebsd_grain.calc_rdr()
 
-        if self.selected_ebsd_grain.average_schmid_factors is None:
+        if grain.ebsd_grain.average_schmid_factors is None:
             raise Exception("Run 'calc_average_grain_schmid_factors' first")
 
         # Write grain info
-        eulers = np.rad2deg(self.selected_ebsd_grain.ref_ori.euler_angles())
+        eulers = np.rad2deg(grain.ebsd_grain.ref_ori.euler_angles())
         text = 'Average angle: {0:.2f}\n'.format(grain.groups_list[group][1])
         text += 'Eulers: {0:.1f}    {1:.1f}    {2:.1f}\n\n'.format(eulers[0], eulers[1], eulers[2])
 
@@ -529,17 +529,17 @@ class GrainInspector:
         offset = 0
 
         # Loop over groups of slip systems with same slip plane
-        for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
-            slip_trace_angle = np.rad2deg(self.selected_ebsd_grain.slip_trace_angles[i])
+        for i, slip_system_group in enumerate(grain.ebsd_grain.phase.slip_systems):
+            slip_trace_angle = np.rad2deg(grain.ebsd_grain.slip_trace_angles[i])
             text = "Plane: {0:s}    Angle: {1:.1f}\n".format(slip_system_group[0].slip_plane_label,
                                                              slip_trace_angle)
 
             # Then loop over individual slip systems
             for j, slip_system in enumerate(slip_system_group):
-                schmid_factor = self.selected_ebsd_grain.average_schmid_factors[i][j]
+                schmid_factor = grain.ebsd_grain.average_schmid_factors[i][j]
 
                 text = text + "          {0:s}    SF: {1:.3f}    RDR: {2:.3f}\n".format(
-                    slip_system.slip_dir_label, schmid_factor, self.selected_ebsd_grain.rdr[i][j])
+                    slip_system.slip_dir_label, schmid_factor, grain.ebsd_grain.rdr[i][j])
 
             if i in grain.groups_list[group][2]:
                 self.rdr_plot.add_text(self.rdr_plot.text_axis, 0.15, 0.9 - offset, text, va='top',
@@ -551,7 +551,7 @@ class GrainInspector:
             offset += 0.0275 * text.count('\n')
 
         # Finf all unique rdr values
-        unique_rdrs = set([item for sublist in self.selected_ebsd_grain.rdr for item in sublist])
+        unique_rdrs = set([item for sublist in grain.ebsd_grain.rdr for item in sublist])
 
         # Plot number line
         self.rdr_plot.number_line_axis.axvline(x=0, ymin=-20, ymax=20, c='k')
@@ -577,10 +577,10 @@ class GrainInspector:
 
                 # Go through all planes and directions and add to string if they have the rdr from above loop
                 txt = ''
-                for i, slip_system_group in enumerate(self.selected_ebsd_grain.phase.slip_systems):
+                for i, slip_system_group in enumerate(grain.ebsd_grain.phase.slip_systems):
                     # Then loop over individual slip systems
                     for j, slip_system in enumerate(slip_system_group):
-                        rdr = self.selected_ebsd_grain.rdr[i][j]
+                        rdr = grain.ebsd_grain.rdr[i][j]
                         if rdr == unique_rdr:
                             txt += str('{0} {1}  '.format(slip_system.slip_plane_label, slip_system.slip_dir_label))
 
-- 
2.43.0


From 753a12a9fec17cd7146ae391e48fba83a29dfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 48/79] fix: treat lines either side of vertical as close in
 the inspector

---
 defdap/inspector.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 5a3a6ff..a934533 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -25,6 +25,14 @@ from defdap import hrdic
 from typing import List
 
 
+def angle_diff(angle_1: float, angle_2: float) -> float:
+    """ Difference between the angles of two lines (in degrees), which is
+    between -90 and 90 as lines have no direction.
+
+    """
+    return (angle_1 - angle_2 + 90) % 180 - 90
+
+
 class GrainInspector:
     """
     Class containing the interactive grain inspector tool for slip trace analysis
@@ -147,12 +155,8 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
-
-        line_angle -= self.correction_angle
+        # A line has no direction, so keep the angle between 0 and 180
+        line_angle = (line_angle - self.correction_angle) % 180
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
@@ -196,12 +200,14 @@ class GrainInspector:
                     grain.groups_list = [[0, angle, 0, 0, 0]]
                     next_group = 1
                 else:  # If there is more that one angle
-                    if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
+                    diffs = np.array([angle_diff(angle, x[1]) for x in grain.groups_list])
+                    if np.any(np.abs(diffs) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
+                        group = int(np.argmin(np.abs(diffs)))
                         grain.points_list[i][2] = group
-                        new_average = float('{0:.2f}'.format(
-                            np.average([x[1] for x in grain.points_list if x[2] == group])))
+                        group_angle = grain.groups_list[group][1]
+                        new_average = float('{0:.2f}'.format((group_angle + np.average(
+                            [angle_diff(x[1], group_angle) for x in grain.points_list if x[2] == group])) % 180))
                         grain.groups_list[group][1] = new_average
                     else:
                         # Make new group and set
@@ -215,9 +221,10 @@ class GrainInspector:
                 deviation = []
                 experimental_angle = group[1]
                 for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_trace_angles)):
-                    if theoretical_angle - 5 < experimental_angle < theoretical_angle + 5:
+                    difference = angle_diff(experimental_angle, theoretical_angle)
+                    if abs(difference) < 5:
                         active_planes.append(idx)
-                        deviation.append(float('{0:.2f}'.format(experimental_angle - theoretical_angle)))
+                        deviation.append(float('{0:.2f}'.format(difference)))
                 group[2] = active_planes
                 group[3] = deviation
 
-- 
2.43.0


From d060fab5bb8fd59f4ac683c93fe0ea72fe0b6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 49/79] fix: guess grains in the other maps when linking EBSD
 maps

The linker used an attribute plots do not have and indexed itself instead
of the map, so clicking a map raised an exception. A map without a grain at
the guessed position has no grain selected.
---
 defdap/ebsd.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 4751c9a..63658b2 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1898,7 +1898,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        curr_ebsd_map = plot.callingMap
+        curr_ebsd_map = plot.calling_map
 
         if curr_ebsd_map is self.ebsd_maps[0]:
             # clicked on 'master' map so highlight and guess grain on others
@@ -1918,9 +1918,14 @@ class Linker(object):
 
                 x = int((event.xdata - x0m) * scaling + x0)
                 y = int((event.ydata - y0m) * scaling + y0)
-
-                grain_id = int(ebsd_map.data.grains[y, x]) - 1
-                grain = self[grain_id]
+                grain_id = -1
+                if 0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim:
+                    grain_id = int(ebsd_map.data.grains[y, x]) - 1
+                if grain_id < 0:
+                    # no grain there, do not keep the previous guess
+                    ebsd_map.sel_grain = None
+                    continue
+                grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
 
-- 
2.43.0


From b8e728403564f26a778af7f7233f04900333a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 50/79] fix: use the point shown under the mouse when clicking
 on a map

Points are drawn centred on their coordinates, so truncating the position of
the mouse gave the neighbouring point for clicks left of or above the centre.
---
 defdap/base.py       | 13 +++++++++++--
 defdap/ebsd.py       |  6 +++---
 defdap/experiment.py |  3 ++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index bccf56f..5cac649 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -182,6 +182,15 @@ class Map(ABC):
 
         return plot
 
+    def _clicked_grain_id(self, event):
+        """ID of the grain shown under the mouse. Points are drawn centred
+        on their coordinates.
+
+        """
+        x = min(max(int(round(event.xdata)), 0), self.x_dim - 1)
+        y = min(max(int(round(event.ydata)), 0), self.y_dim - 1)
+        return self.data.grains[y, x] - 1
+
     def click_grain_id(self, event, plot, display_grain):
         """Event handler to capture clicking on a map.
 
@@ -200,7 +209,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._clicked_grain_id(event)
         if grain_id < 0:
             return
         grain = self[grain_id]
@@ -352,7 +361,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self._clicked_grain_id(event)
         if grain_id < 0:
             return
         grain = self[grain_id]
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 63658b2..56ca1b3 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1864,7 +1864,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        origin = (int(event.xdata), int(event.ydata))
+        origin = (int(round(event.xdata)), int(round(event.ydata)))
         plot.calling_map.origin = origin
         plot.add_points([origin[0]], [origin[1]], update_layer=0)
         print(f"Origin set to ({origin[0]}, {origin[1]})")
@@ -1916,8 +1916,8 @@ class Linker(object):
                 y0 = ebsd_map.origin[1]
                 scaling = curr_ebsd_map.step_size / ebsd_map.step_size
 
-                x = int((event.xdata - x0m) * scaling + x0)
-                y = int((event.ydata - y0m) * scaling + y0)
+                x = int(round((event.xdata - x0m) * scaling + x0))
+                y = int(round((event.ydata - y0m) * scaling + y0))
                 grain_id = -1
                 if 0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim:
                     grain_id = int(ebsd_map.data.grains[y, x]) - 1
diff --git a/defdap/experiment.py b/defdap/experiment.py
index 3088a8d..078c0a4 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -275,7 +275,8 @@ class Frame(object):
         # right mouse click or shift + left mouse click
         # shift click doesn't work in osx backend
         if event.button == 3 or (event.button == 1 and event.key == 'shift'):
-            plot.add_points([int(event.xdata)], [int(event.ydata)], update_layer=1)
+            plot.add_points([int(round(event.xdata))],
+                            [int(round(event.ydata))], update_layer=1)
 
     @staticmethod
     def homog_key(event, plot):
-- 
2.43.0


From 9e1fd002765bd693d76e989b3fa710dfd1c748f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 51/79] fix: highlight grains in the colours given

The list of colours passed in was changed, and the values were scaled to
their range so the colours were wrong when there are fewer grains than
colours and nothing was shown when all of the map is highlighted.
---
 defdap/plotting.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index be06571..3029c07 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -515,6 +515,8 @@ class MapPlot(Plot):
         """
         if grain_colours is None:
             grain_colours = ['white']
+        elif isinstance(grain_colours, str):
+            grain_colours = [grain_colours]
         if alpha is None:
             alpha = self.calling_map.highlight_alpha
 
@@ -533,8 +535,10 @@ class MapPlot(Plot):
 
         # Custom colour map where 0 is transparent white for bg and
         # then a patch for each grain colour
-        grain_colours.insert(0, 'white')
-        highlightsCmap = mpl.colors.ListedColormap(grain_colours)
+        num_colours = len(grain_colours)
+        highlightsCmap = mpl.colors.ListedColormap(
+            ['white'] + list(grain_colours)
+        )
         highlightsCmap._init()
         alphaMap = np.full(highlightsCmap.N + 3, alpha)
         alphaMap[0] = 0
@@ -542,7 +546,8 @@ class MapPlot(Plot):
 
         if self.highlights_layer_id is None or new_layer:
             img = self.ax.imshow(outline, interpolation='none',
-                                 cmap=highlightsCmap)
+                                 cmap=highlightsCmap,
+                                 vmin=0, vmax=num_colours)
             if self.highlights_layer_id is None:
                 self.highlights_layer_id = len(self.img_layers)
             self.img_layers.append(img)
@@ -550,7 +555,7 @@ class MapPlot(Plot):
             img = self.img_layers[self.highlights_layer_id]
             img.set_data(outline)
             img.set_cmap(highlightsCmap)
-            img.autoscale()
+            img.set_clim(0, num_colours)
 
         self.draw()
 
-- 
2.43.0


From 020aedd6dd2be1e11c2805b89044445d422cfb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 52/79] fix: refuse colours for boundary lines that are not
 understood

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 3029c07..0e67c47 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -465,7 +465,7 @@ class MapPlot(Plot):
                 colour_array = None
                 colour_lc = colour
             else:
-                ValueError('Issue with passed colour')
+                raise ValueError('Issue with passed colour')
 
             lc = LineCollection(boundaries.lines, colors=colour_lc, **kwargs)
             lc.set_array(colour_array)
-- 
2.43.0


From 5338d9bb610131dafd66adf1baa5e223b204e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 53/79] fix: refuse Euler colours for unsupported crystal
 structures

---
 defdap/ebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ca1b3..90c6a43 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -297,7 +297,7 @@ class Map(base.Map):
             elif phase.crystal_structure.name == 'hexagonal':
                 norm = np.array([np.pi, np.pi, np.pi / 3])
             else:
-                ValueError("Only hexagonal and cubic symGroup supported")
+                raise ValueError("Only hexagonal and cubic symGroup supported")
 
             # Apply normalisation for each phase
             phase_mask = self.data.phase == phase_id + 1
@@ -1362,7 +1362,7 @@ class Grain(base.Grain):
         elif self.phase.crystal_structure.name == 'hexagonal':
             norm = np.array([np.pi, np.pi, np.pi / 3])
         else:
-            ValueError("Only hexagonal and cubic symGroup supported")
+            raise ValueError("Only hexagonal and cubic symGroup supported")
 
         grain_colours = grain_data.T / norm
 
-- 
2.43.0


From 4502fe7ebc6a7b452aa083ead29e14c481b1db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 54/79] fix: draw boundaries of four lines in the named colour
 given

---
 defdap/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 0e67c47..1d323fb 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -456,9 +456,9 @@ class MapPlot(Plot):
 
         if kind == "line":
             if isinstance(colour, str):
-                colour = mpl.colors.to_rgba(colour)
-
-            if len(colour) == len(boundaries.lines):
+                colour_array = None
+                colour_lc = mpl.colors.to_rgba(colour)
+            elif len(colour) == len(boundaries.lines):
                 colour_array = colour
                 colour_lc = None
             elif len(colour) == 4:
-- 
2.43.0


From dab3639d83df54ddf784ae3db1dea60a229e8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 55/79] fix: copy the homologous points given to a frame

Frames given the same list shared it, so saving or moving a point in one
changed the other, and points could not be added to an array.
---
 defdap/experiment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 078c0a4..f03211d 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -214,7 +214,8 @@ class Frame(object):
         points : numpy.ndarray, optional
             Array of (x,y) homologous points to set explicitly.
         """
-        self.homog_points = points
+        # copy the points, which may be used for other frames too
+        self.homog_points = [tuple(point) for point in points]
 
     def set_homog_point(self, map_obj, map_name=None, **kwargs):
         """
-- 
2.43.0


From e3b7c7d1d75333feab8ff68d8c324b8f45104c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 56/79] fix: refuse invalid updates of homologous points

Points were replaced by None, or by tuples of more than two values.
---
 defdap/experiment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index f03211d..d9b01a4 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -366,6 +366,8 @@ class Frame(object):
 
         # Update all points
         if homog_idx < 0:
+            if delta is None:
+                raise Exception("delta is required to update all points.")
             for i in range(len(self.homog_points)):
                 self.update_homog_points(homog_idx=i, delta=delta)
             return
@@ -373,15 +375,17 @@ class Frame(object):
         # Update a single point
         # overwrite point
         if new_point is not None:
-            if type(new_point) is not tuple and len(new_point) != 2:
+            if len(new_point) != 2:
                 raise Exception("newPoint must be a 2 component tuple")
         # increment current point
         elif delta is not None:
-            if type(delta) is not tuple and len(delta) != 2:
+            if len(delta) != 2:
                 raise Exception("delta must be a 2 component tuple")
             new_point = list(self.homog_points[homog_idx])
             new_point[0] += delta[0]
             new_point[1] += delta[1]
             new_point = tuple(new_point)
+        else:
+            raise Exception("Either new_point or delta is required.")
 
         self.homog_points[homog_idx] = new_point
-- 
2.43.0


From 06ee230940fdd1f7e2fd35a4b1b807d9aba91883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 57/79] fix: draw the hexagonal IPF sector where the points are
 in the TSL frame

The corners are given as crystal directions, which are 30 degrees from the
ones of the HKL frame, so the sector was not around the points plotted.
---
 defdap/plotting.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 1d323fb..d7a591e 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1042,6 +1042,22 @@ class PolePlot(Plot):
                     ((-1, 2, -1, 0), -0.012, 'top'),
                     ((-1, 1, 0, 0), 0.012, 'bottom'),
                 ]
+
+            if defaults['crystal_ortho_conv'].lower() == 'tsl':
+                # indices of the same corners in the TSL frame
+                tsl = {
+                    (-1, 2, -1, 0): (0, 1, -1, 0),
+                    (-1, 1, 0, 0): (-1, 2, -1, 0),
+                    (0, 1, -1, 0): (1, 1, -2, 0),
+                }
+                lines = [
+                    tuple(tsl.get(point, point) for point in line)
+                    for line in lines
+                ]
+                labels = [
+                    (tsl.get(label[0], label[0]),) + label[1:]
+                    for label in labels
+                ]
         else:
             raise NotImplementedError("Only works for cubic and hexagonal.")
         
-- 
2.43.0


From 4a60a1a39f8dd1ac961f8aad03fd6fd2e4b025aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 58/79] fix: draw half and half and single colour pole markers

---
 defdap/plotting.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d7a591e..e2f8761 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1200,11 +1200,18 @@ class PolePlot(Plot):
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
+        elif len(marker_colour) == 1:
+            kwargs.setdefault('s', marker_size)
+            points = self.ax.scatter(xp, yp, color=marker_colour[0], **kwargs)
+            self.img_layers.append(points)
         elif len(marker_colour) == 2:
             pos = (xp, yp)
+            # the two semicircles replace any other marker
+            kwargs.pop('marker', None)
             r1 = 0.5
             r2 = r1 + 0.5
-            marker_size = np.sqrt(marker_size)
+            if marker_size is not None:
+                marker_size = np.sqrt(marker_size)
 
             x = [0] + np.cos(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
             y = [0] + np.sin(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
@@ -1215,12 +1222,12 @@ class PolePlot(Plot):
             xy2 = list(zip(x, y))
 
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy1, 0),
+                pos[0], pos[1], marker=xy1,
                 s=marker_size, c=marker_colour[0], **kwargs
             )
             self.img_layers.append(points)
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy2, 0),
+                pos[0], pos[1], marker=xy2,
                 s=marker_size, c=marker_colour[1], **kwargs
             )
             self.img_layers.append(points)
-- 
2.43.0


From abbae383e0e2bb41dc2064956da43d471dbd2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 59/79] fix: plot the outline of a grain

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 5cac649..02bb5f6 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -917,7 +917,7 @@ class Grain(ABC):
 
         """
         plot = plotting.GrainPlot(self, ax=ax)
-        plot.add_map(self.grain_outline(), **kwargs)
+        plot.addMap(self.grain_outline(), **kwargs)
 
         if plot_scale_bar:
             plot.add_scale_bar()
-- 
2.43.0


From 055e21ca27d975b44a0e00cea691f525bccffa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 60/79] fix: draw the boundary map in black as intended

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 90c6a43..4b0eeca 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -872,7 +872,7 @@ class Map(base.Map):
         # Set default plot parameters then update with any input
         plot_params = {
             'plot_gbs': True,
-            'boundaryColour': 'black'
+            'boundary_colour': 'black'
         }
         plot_params.update(kwargs)
 
-- 
2.43.0


From ae64bb60a32bb056122562622ae221b3d964ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:19 +0000
Subject: [PATCH 61/79] fix: keep orientation colours with an integer
 background colour

---
 defdap/ebsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 4b0eeca..e70c75d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -289,7 +289,9 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(
+            np.asarray(bg_colour, dtype=float), self.shape + (1,)
+        )
 
         for phase, phase_id in zip(phases, phase_ids):
             if phase.crystal_structure.name == 'cubic':
@@ -317,7 +319,9 @@ class Map(base.Map):
         if bg_colour is None:
             bg_colour = np.array([0., 0., 0.])
 
-        map_colours = np.tile(bg_colour, self.shape + (1,))
+        map_colours = np.tile(
+            np.asarray(bg_colour, dtype=float), self.shape + (1,)
+        )
 
         for phase, phase_id in zip(phases, phase_ids):
             # calculate IPF colours for phase
-- 
2.43.0


From 47854e6d882bf51c5fc29d2e40acc8c2456f1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 62/79] fix: exclude masked points from the statistics table

---
 defdap/hrdic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 43c4153..c4f3876 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -308,7 +308,9 @@ class Map(base.Map):
         for c in components:
             # Iterate over tensor components (i.e. e11, e22, e12)
             for i in np.ndindex(self.data[c].shape[:len(np.shape(self.data[c]))-2]):
-                per = [np.nanpercentile(self.data[c][i], p) for p in percentiles]
+                # masked points are not included
+                values = np.ma.compressed(self.data[c][i])
+                per = [np.nanpercentile(values, p) for p in percentiles]
                 print(str_format.format(c+''.join([str(t+1) for t in i]), *per))
 
     def set_crop(self, *, left=None, right=None, top=None, bottom=None,
-- 
2.43.0


From fda28f0dd0282b747feb7650b316033800503996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 63/79] fix: exclude masked points from histograms

---
 defdap/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index e2f8761..cb9fd07 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1462,6 +1462,9 @@ class HistPlot(Plot):
 
         """
 
+        # masked points are not included
+        hist_data = np.ma.compressed(hist_data)
+
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
@@ -1470,7 +1473,7 @@ class HistPlot(Plot):
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-            hist = np.histogram(hist_data.flatten(), bins=bin_list, density=self.density)
+            hist = np.histogram(hist_data, bins=bin_list, density=self.density)
             y_vals = hist[0]
             x_vals = 0.5 * (hist[1][1:] + hist[1][:-1])
 
@@ -1478,7 +1481,7 @@ class HistPlot(Plot):
 
         else:
             # Plot as a matplotlib histogram
-            self.ax.hist(hist_data.flatten(), bins=bin_list, histtype=self.plot_type,
+            self.ax.hist(hist_data, bins=bin_list, histtype=self.plot_type,
                          density=self.density, label=label, **kwargs)
 
     def add_legend(self, **kwargs):
-- 
2.43.0


From e887bf8b101a3ae0f385ddb183030c3a399e6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 64/79] fix: histogram without a given range covers all data

---
 defdap/plotting.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index cb9fd07..6d108c7 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1466,7 +1466,13 @@ class HistPlot(Plot):
         hist_data = np.ma.compressed(hist_data)
 
         # Generate the x bins with appropriate spaceing for linear or log
-        if self.axes_type == 'logx' or self.axes_type == 'loglog':
+        log_x = self.axes_type == 'logx' or self.axes_type == 'loglog'
+        if range is None:
+            shown = hist_data[np.isfinite(hist_data)]
+            if log_x:
+                shown = shown[shown > 0]
+            range = (shown.min(), shown.max())
+        if log_x:
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
         else:
             bin_list = np.linspace(range[0], range[1], bins)
-- 
2.43.0


From eb8633a1338145637bf9a406bc5d1d7ecb9ebd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 65/79] fix: use the number of histogram bins asked for

---
 defdap/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 6d108c7..f2ccde5 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1473,9 +1473,9 @@ class HistPlot(Plot):
                 shown = shown[shown > 0]
             range = (shown.min(), shown.max())
         if log_x:
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
+            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
         else:
-            bin_list = np.linspace(range[0], range[1], bins)
+            bin_list = np.linspace(range[0], range[1], bins + 1)
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-- 
2.43.0


From f6756c89107594ccda7ff990c2870c6721d596de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 66/79] fix: detect slip bands close to vertical

---
 defdap/hrdic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index c4f3876..aefbe0f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -898,8 +898,11 @@ class Grain(base.Grain):
 
         x = np.arange(180)
 
-        indexes = peakutils.indexes(profile, thres=thres, min_dist=min_dist)
-        peaks = x[indexes]
+        # the profile is periodic, start at its minimum so no peak is at an end
+        start = np.argmin(profile)
+        indexes = peakutils.indexes(np.roll(profile, -start), thres=thres,
+                                    min_dist=min_dist)
+        peaks = np.sort(x[(indexes + start) % 180])
         # peaks = peakutils.interpolate(x, profile, ind=indexes)
         print("Number of bands detected: {:}".format(len(peaks)))
 
-- 
2.43.0


From fc00887dc00ce7f6d5704f65885c7310531ef1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 67/79] fix: include the extremes of the range in logarithmic
 histograms

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index f2ccde5..cc6cf92 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1473,7 +1473,7 @@ class HistPlot(Plot):
                 shown = shown[shown > 0]
             range = (shown.min(), shown.max())
         if log_x:
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
+            bin_list = np.geomspace(range[0], range[1], bins + 1)
         else:
             bin_list = np.linspace(range[0], range[1], bins + 1)
 
-- 
2.43.0


From 32aa62360bec421873134383054fef6e1af330cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 68/79] fix: average the orientation of a grain before drawing
 it or its RDR

---
 defdap/ebsd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index e70c75d..509a0f9 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1387,6 +1387,9 @@ class Grain(base.Grain):
         defdap.plotting.PolePlot
 
         """
+        if self.ref_ori is None:
+            self.calc_average_ori()
+
         plot_params = {'marker': '+'}
         plot_params.update(kwargs)
         return Quat.plot_ipf([self.ref_ori], direction, self.crystal_sym,
@@ -1427,6 +1430,9 @@ class Grain(base.Grain):
             All other arguments are passed to :func:`defdap.quat.Quat.plot_unit_cell`.
 
         """
+        if self.ref_ori is None:
+            self.calc_average_ori()
+
         crystal_structure = self.phase.crystal_structure
         plot = Quat.plot_unit_cell(self.ref_ori, fig=fig, ax=ax, plot=plot,
                                    crystal_structure=crystal_structure, **kwargs)
@@ -1516,6 +1522,9 @@ class Grain(base.Grain):
 
     def calc_rdr(self):
         """Calculate Relative Displacement Ratio values."""
+        if self.ref_ori is None:
+            self.calc_average_ori()
+
         self.rdr = []
 
         # Loop over groups of slip systems with same slip plane
-- 
2.43.0


From b54d9e14571f0fc232c9ee3e89ffd797165346ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 69/79] fix: accept a single grain ID in plot_grain_data_ipf

---
 defdap/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 02bb5f6..d8e9541 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -769,8 +769,8 @@ class Map(ABC):
             else:
                 grain_data = self.calc_grain_average(map_data, grain_ids=grain_ids)
 
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            grain_ids = range(len(self)) if grain_ids == -1 else [grain_ids]
 
         if len(grain_data) != len(grain_ids):
             raise Exception("Must be 1 value for each grain in grain_data.")
-- 
2.43.0


From 0918195218a5d4cd05a8ee2ddb12532daf854147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 70/79] fix: leave rows beyond the map edge out of the
 inspector RDR

---
 defdap/inspector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index a934533..7c70a2b 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -425,6 +425,11 @@ class GrainInspector:
             xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
             ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
+            # Leave out rows which are not fully inside the map
+            y_dim, x_dim = self.selected_dic_map.shape
+            inside = np.all((xmap >= 0) & (xmap < x_dim) & (ymap >= 0) & (ymap < y_dim), axis=1)
+            xmap, ymap = xmap[inside], ymap[inside]
+
             x_list.extend(xmap - grain.extreme_coords[0])
             y_list.extend(ymap - grain.extreme_coords[1])
 
-- 
2.43.0


From d4290f1eb50991a955060f307031633f759d71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 71/79] fix: remove one line only when leaving the inspector
 text box

---
 defdap/inspector.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 7c70a2b..c971b1e 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -97,8 +97,8 @@ class GrainInspector:
                                change_handler=self.update_filename, initial=self.filename)
         self.plot.add_text_box(label='Go to \ngrain ID:', loc=(div_frac + 0.17, 0.94, 0.05, 0.04),
                                submit_handler=self.goto_grain)
-        self.plot.add_text_box(label='Remove\nID:', loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
-                               submit_handler=self.remove_line)
+        self.remove_line_text_box = self.plot.add_text_box(label='Remove\nID:', loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
+                                                           submit_handler=self.remove_line)
         self.rdr_group_text_box = self.plot.add_text_box(label='Run RDR only\non group:', loc=(0.78, 0.07, 0.05, 0.04),
                                                          submit_handler=self.run_rdr_group)
 
@@ -133,6 +133,10 @@ class GrainInspector:
             Grain ID to go to.
 
         """
+        # Nothing to do when an empty text box is left
+        if event == '':
+            return
+
         # Go to grain ID specified in event
         self.grain_id = int(event)
         self.grain_plot.arrow = None
@@ -250,11 +254,18 @@ class GrainInspector:
             Line ID to remove.
 
         """
+        # Nothing to do when an empty text box is left
+        if event == '':
+            return
+
         # Remove single line
         del self.selected_dic_grain.points_list[int(event)]
         self.group_lines()
         self.redraw()
 
+        # Leaving the text box would submit the ID again
+        self.remove_line_text_box.set_val('')
+
     def redraw(self):
         """Draw items which need to be redrawn when changing grain ID.
 
-- 
2.43.0


From 8da7ced5d7d35db436420be2801eaf6fa223e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 72/79] fix: keep the inspector on its grain when there is no
 next one

---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index c971b1e..dfa69c7 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -137,10 +137,10 @@ class GrainInspector:
         if event == '':
             return
 
-        # Go to grain ID specified in event
+        # Go to grain ID specified in event, unless there is no such grain
+        self.selected_dic_grain = self.selected_dic_map[int(event)]
         self.grain_id = int(event)
         self.grain_plot.arrow = None
-        self.selected_dic_grain = self.selected_dic_map[self.grain_id]
         self.selected_ebsd_grain = self.selected_dic_grain.ebsd_grain
         self.redraw()
 
-- 
2.43.0


From 6eb1e1275fc8a29177e5a931331cd695e5b6bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 73/79] fix: plot on the figure or axes that are given

---
 defdap/plotting.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index cc6cf92..2b2d604 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -43,28 +43,21 @@ class Plot(object):
     def __init__(self, ax=None, ax_params={}, fig=None, make_interactive=False,
                  title=None, **kwargs):
         self.interactive = make_interactive
+        if ax is not None:
+            self.fig = ax.figure if fig is None else fig
+            self.ax = ax
+        else:
+            # TODO: flag for new figure
+            self.fig = plt.figure(**kwargs) if fig is None else fig
+            self.ax = self.fig.add_subplot(111, **ax_params)
+
         if make_interactive:
-            if fig is not None and ax is not None:
-                self.fig = fig
-                self.ax = ax
-            else:
-                # self.fig, self.ax = plt.subplots(**kwargs)
-                self.fig = plt.figure(**kwargs)
-                self.ax = self.fig.add_subplot(111, **ax_params)
             self.btn_store = []
             self.txt_store = []
             self.txt_box_store = []
             self.p1 = []
             self.p2 = []
 
-        else:
-            self.fig = fig
-            # TODO: flag for new figure
-            if ax is None:
-                self.fig = plt.figure(**kwargs)
-                self.ax = self.fig.add_subplot(111, **ax_params)
-            else:
-                self.ax = ax
         self.colour_bar = None
         self.arrow = None
 
-- 
2.43.0


From c4c85dbcfa7d9110a2a0c39c9ffc4eb10bde8f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 74/79] fix: put the legend of a pole plot on that plot

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 2b2d604..3c6da6c 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1268,7 +1268,7 @@ class PolePlot(Plot):
 
         """
         img = self.img_layers[layer]
-        self.legend = plt.legend(
+        self.legend = self.ax.legend(
             *img.legend_elements("sizes", num=number, func=lambda s: s / scaling), 
             title=label, 
             **kwargs
-- 
2.43.0


From 4f8443c278d396dc2a53de305105ed7cd7f49f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 75/79] fix: a map that cannot be loaded is not added to the
 experiment

---
 defdap/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index d8e9541..bfd5b26 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -67,9 +67,6 @@ class Map(ABC):
             self.experiment = experiment
             if experiment is None:
                 self.experiment = defdap.anonymous_experiment
-            self.increment = self.experiment.add_increment()
-        map_name = self.MAPNAME if map_name is None else map_name
-        self.increment.add_map(map_name, self)
 
         self.shape = (0, 0)
 
@@ -89,6 +86,12 @@ class Map(ABC):
         self.file_name = file_name
         self.load_data(self.file_name, data_type=data_type)
 
+        # add to the experiment only once the data could be loaded
+        if increment is None:
+            self.increment = self.experiment.add_increment()
+        map_name = self.MAPNAME if map_name is None else map_name
+        self.increment.add_map(map_name, self)
+
         self.data.add_generator(
             'proxigram', self.calc_proxigram, unit='', type='map', order=0,
             cropped=True
-- 
2.43.0


From 4a25462136e8cfa3b3787a64823df5b769bb6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 76/79] fix: correlation values of the wrong size do not
 replace those loaded before

---
 defdap/hrdic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index aefbe0f..3ff1506 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -235,13 +235,13 @@ class Map(base.Map):
         else:
             raise Exception("No loader found for this DIC data.")
             
-        self.corr_val = loaded_data
-        
-        assert self.xdim == self.corr_val.shape[1], \
+        assert self.xdim == loaded_data.shape[1], \
             "Dimensions of imported data and dic data do not match"
-        assert self.ydim == self.corr_val.shape[0], \
+        assert self.ydim == loaded_data.shape[0], \
             "Dimensions of imported data and dic data do not match"
 
+        self.corr_val = loaded_data
+
     def retrieve_name(self):
         """Gets the first name assigned to the a map, as a string
 
-- 
2.43.0


From db0223720d4d11136521139a045043b26015eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 77/79] fix: a refused crop does not change the crop of the
 other sides

---
 defdap/hrdic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 3ff1506..f087166 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -331,7 +331,8 @@ class Map(base.Map):
             If true, change homologous points to reflect crop.
 
         """
-        old_crop_dists = self.crop_dists.copy()
+        old_crop_dists = self.crop_dists
+        crop_dists = old_crop_dists.copy()
 
         # changes in homog points
         dx = 0
@@ -340,16 +341,17 @@ class Map(base.Map):
         # update crop distances
         if left is not None:
             left = int(left)
-            dx = self.crop_dists[0, 0] - left
-            self.crop_dists[0, 0] = left
+            dx = crop_dists[0, 0] - left
+            crop_dists[0, 0] = left
         if right is not None:
-            self.crop_dists[0, 1] = int(right)
+            crop_dists[0, 1] = int(right)
         if top is not None:
             top = int(top)
-            dy = self.crop_dists[1, 0] - top
-            self.crop_dists[1, 0] = top
+            dy = crop_dists[1, 0] - top
+            crop_dists[1, 0] = top
         if bottom is not None:
-            self.crop_dists[1, 1] = int(bottom)
+            crop_dists[1, 1] = int(bottom)
+        self.crop_dists = crop_dists
 
         # update homogo points if required
         if update_homog_points and (dx != 0 or dy != 0):
-- 
2.43.0


From a008574e22a548649da05d712524812c69bc0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 78/79] fix: a lookup stopped at its start does not make all
 later lookups fail

---
 defdap/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index cb8cd20..57a9c38 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -240,13 +240,12 @@ class Datastore(object):
         return list(dict.fromkeys(keys))
 
     def lookup_derivative_keys(self, derivative):
-        root_call = False
-        if Datastore._been_to is None:
-            root_call = True
-            Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
-
+        root_call = Datastore._been_to is None
         try:
+            if root_call:
+                Datastore._been_to = set()
+            Datastore._been_to.add(self._group_id)
+
             source = derivative['source']
             matched_keys = []
             if source._group_id in Datastore._been_to:
-- 
2.43.0


From 0e0ce222e129ce12fad62f4b96e861881353f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 79/79] fix: slip traces, Schmid factors and RDR that cannot be
 calculated are not left half made

---
 defdap/ebsd.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 509a0f9..0be4cab 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1318,9 +1318,7 @@ class Grain(base.Grain):
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
-            self.mis_ori_axis_list = []
-            for row in mis_ori_axis.transpose():
-                self.mis_ori_axis_list.append(row)
+            self.mis_ori_axis_list = list(mis_ori_axis.transpose())
 
     def calc_grod(self):
         quat_comps = Quat.calc_sym_eqvs(self.data.orientation, self.crystal_sym)
@@ -1505,18 +1503,20 @@ class Grain(base.Grain):
         # Transform the load vector into crystal coordinates
         load_vector_crystal = grain_av_ori.transform_vector(load_vector)
 
-        self.average_schmid_factors = []
+        average_schmid_factors = []
         # flatten list of lists
         # slip_systems = chain.from_iterable(slip_systems)
 
         # Loop over groups of slip systems with same slip plane
         for i, slip_system_group in enumerate(slip_systems):
-            self.average_schmid_factors.append([])
+            average_schmid_factors.append([])
             # Then loop over individual slip systems
             for slip_system in slip_system_group:
                 schmidFactor = abs(np.dot(load_vector_crystal, slip_system.slip_plane) *
                                    np.dot(load_vector_crystal, slip_system.slip_dir))
-                self.average_schmid_factors[i].append(schmidFactor)
+                average_schmid_factors[i].append(schmidFactor)
+
+        self.average_schmid_factors = average_schmid_factors
 
         return
 
@@ -1525,15 +1525,17 @@ class Grain(base.Grain):
         if self.ref_ori is None:
             self.calc_average_ori()
 
-        self.rdr = []
+        rdr = []
 
         # Loop over groups of slip systems with same slip plane
         for i, slip_system_group in enumerate(self.phase.slip_systems):
-            self.rdr.append([])
+            rdr.append([])
             # Then loop over individual slip systems
             for slip_system in slip_system_group:
                 slip_dir_sample = self.ref_ori.conjugate.transform_vector(slip_system.slip_dir)
-                self.rdr[i].append(-slip_dir_sample[0] / slip_dir_sample[1])
+                rdr[i].append(-slip_dir_sample[0] / slip_dir_sample[1])
+
+        self.rdr = rdr
 
     @property
     def slip_traces(self):
@@ -1588,8 +1590,8 @@ class Grain(base.Grain):
 
         screen_plane_norm_crystal = grain_av_ori.transform_vector(screen_plane_norm)
 
-        self.slip_trace_angles = []
-        self.slip_trace_inclinations = []
+        slip_trace_angles = []
+        slip_trace_inclinations = []
         # Loop over each group of slip systems
         for slip_system_group in slip_systems:
             # Take slip plane from first in group
@@ -1620,8 +1622,11 @@ class Grain(base.Grain):
             ))
 
             # Append to list
-            self.slip_trace_angles.append(trace_angle)
-            self.slip_trace_inclinations.append(inclination)
+            slip_trace_angles.append(trace_angle)
+            slip_trace_inclinations.append(inclination)
+
+        self.slip_trace_angles = slip_trace_angles
+        self.slip_trace_inclinations = slip_trace_inclinations
 
 
 class BoundarySet(object):
-- 
2.43.0


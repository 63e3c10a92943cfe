From ef4ae82b70b16a0a0e80e1492595c50a434328b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 01/30] fix: keep optimizable actuator parameters after an
 empty activation

---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From d7e9695c8bc2252ff268106d8960fc20529f29cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 02/30] fix: save and load light sources without explicit mean
 or covariance

---
 artist/scene/sun.py   | 25 +++++++++----------------
 artist/util/config.py | 12 +++++++++---
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/artist/scene/sun.py b/artist/scene/sun.py
index bfc1a34..7586612 100644
--- a/artist/scene/sun.py
+++ b/artist/scene/sun.py
@@ -93,25 +93,18 @@ class Sun(LightSource):
                 log.info(
                     "Initializing a sun modeled with a multivariate normal distribution."
                 )
+            # Parameters missing in the scenario file fall back to the default sun.
+            mean_value = self.distribution_parameters.get(
+                constants.light_source_mean, 0.0
+            )
+            covariance_value = self.distribution_parameters.get(
+                constants.light_source_covariance, 4.3681e-06
+            )
             mean = torch.tensor(
-                [
-                    self.distribution_parameters[constants.light_source_mean],
-                    self.distribution_parameters[constants.light_source_mean],
-                ],
-                dtype=torch.float,
-                device=device,
+                [mean_value, mean_value], dtype=torch.float, device=device
             )
             covariance = torch.tensor(
-                [
-                    [
-                        self.distribution_parameters[constants.light_source_covariance],
-                        0,
-                    ],
-                    [
-                        0,
-                        self.distribution_parameters[constants.light_source_covariance],
-                    ],
-                ],
+                [[covariance_value, 0], [0, covariance_value]],
                 dtype=torch.float,
                 device=device,
             )
diff --git a/artist/util/config.py b/artist/util/config.py
index fee9962..7e815ba 100644
--- a/artist/util/config.py
+++ b/artist/util/config.py
@@ -367,11 +367,17 @@ class LightSourceConfig:
         dict[str, Any]
             A dictionary containing the configuration parameters for the light source.
         """
-        light_source_distribution_parameters_dict = {
+        light_source_distribution_parameters_dict: dict[str, Any] = {
             constants.light_source_distribution_type: str(self.distribution_type),
-            constants.light_source_mean: self.mean,
-            constants.light_source_covariance: self.covariance,
         }
+        if self.mean is not None:
+            light_source_distribution_parameters_dict[constants.light_source_mean] = (
+                self.mean
+            )
+        if self.covariance is not None:
+            light_source_distribution_parameters_dict[
+                constants.light_source_covariance
+            ] = self.covariance
 
         return {
             constants.light_source_type: self.light_source_type,
-- 
2.43.0


From a191f6b446c9421a870272d9547c67de58bbb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 03/30] fix: measure cylinder hit angles from the target normal
 in the local frame

---
 artist/raytracing/geometry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..eb26582 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -395,14 +395,9 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
-    )
+    # In the local frame the normal vector is the positive y-axis. We want to define 0° as where the normal vector points towards and
+    # all angles on the target to be positive, therefore we measure angles from the y-axis and add half the opening angle.
+    angles = torch.atan2(-x, y) + opening_angles.view(-1, 1, 1) / 2
 
     intersections_on_target = (
         (z >= 0)
-- 
2.43.0


From bcab3f33ee501578be3e58e605fd60b6f0bf0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 04/30] fix: do not count rays that move away from a planar
 target as hits

---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index eb26582..2c036dc 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target or rays that are parallel to the target and rays that move away from
+    # the target plane, i.e., that only intersect the plane behind their origin.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances > 0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From 737cf781d08cfea89b86b57567c708c8d1ddf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 05/30] fix: find the exact split position when building the
 blocking hierarchy

---
 artist/raytracing/blocking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..561c0d1 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -647,7 +647,9 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
+        if t.max() == 1:
+            break
+        t = (t + 1) // 2
 
     gamma = (
         blocker_ids
-- 
2.43.0


From ac0e12341296de47b31065a6605ba34ec13fa612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 06/30] fix: build a complete blocking hierarchy when
 primitives share a Morton code

---
 artist/raytracing/blocking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 561c0d1..2bce3a7 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -571,6 +571,9 @@ def build_linear_bounding_volume_hierarchies(
 
     codes = morton_codes(coordinates=centroids, epsilon=1e-6)
     sorted_codes, sorted_primitive_indices = torch.sort(codes)
+    # Primitives with identical Morton codes cannot be told apart by their codes. Their ranks in the sorted order are unique.
+    if (sorted_codes[1:] == sorted_codes[:-1]).any():
+        sorted_codes = blocker_ids
 
     # Analyze similarities between Morton codes and determine the direction to the more similar Morton codes,
     # in the sorted array: -1 = to the left, +1 = to the right. The similarity is evaluated by computing leading
-- 
2.43.0


From 8eafa7bce170f2ad38743cc6ab59b925a31baf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 07/30] fix: pass only the message to the blocking hierarchy
 warning

---
 artist/raytracing/blocking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 2bce3a7..4c25bda 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -740,8 +740,7 @@ def build_linear_bounding_volume_hierarchies(
     # Warning, if some axis-aligned bounding boxes have not been computed.
     if not nodes_with_complete_aabb.all():
         log.warning(
-            "Some internal nodes did not receive AABBs via DAG propagation. This means the tree was built incorrectly.",
-            RuntimeWarning,
+            "Some internal nodes did not receive AABBs via DAG propagation. This means the tree was built incorrectly."
         )
 
     return {
-- 
2.43.0


From 20bca0f2f4ec71cc6ccdb20f086c26c8634c5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 08/30] fix: trace every activation of unevenly repeated
 heliostats

---
 artist/raytracing/sampling.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..5f43bde 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -130,15 +130,12 @@ class RestrictedDistributedSampler(Sampler):
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
             indices: list[int] = []
 
             for index in range(number_of_active_heliostats):
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
+                    start = index * number_of_samples // number_of_active_heliostats
+                    end = (index + 1) * number_of_samples // number_of_active_heliostats
                     indices.extend(range(start, end))
 
             self.rank_indices = indices
-- 
2.43.0


From e58b613511612d260206f6b8bf0ff27eabfe90bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 09/30] fix: identify the own heliostat among the blocking
 primitives of all groups

---
 artist/raytracing/heliostat_ray_tracer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..2daff41 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -53,6 +53,8 @@ class HeliostatRayTracer:
     blocking_heliostat_surfaces_active : torch.Tensor
         The aligned heliostat surfaces considered during blocking calculations.
         Shape is ``[number_of_heliostats, number_of_combined_surface_points_all_facets, 4]``.
+    first_blocking_primitive_index : int
+        Index of the first heliostat of the selected group among all heliostats considered during blocking calculations.
 
     Methods
     -------
@@ -167,7 +169,13 @@ class HeliostatRayTracer:
             self.blocking_heliostat_surfaces_active = torch.zeros_like(
                 self.blocking_heliostat_surfaces
             )
+            self.first_blocking_primitive_index = 0
             for group in self.scenario.heliostat_field.heliostat_groups:
+                if group is self.heliostat_group:
+                    self.first_blocking_primitive_index = sum(
+                        len(surfaces)
+                        for surfaces in blocking_heliostat_surfaces_active_list
+                    )
                 surfaces = group.surface_points + group.positions.unsqueeze(1)
                 mask = group.active_heliostats_mask.bool()
                 if mask.any():
@@ -443,7 +451,10 @@ class HeliostatRayTracer:
                 device=device,
             )
             if self.blocking_active:
-                batch_global_indices = global_active_indices[batch_mask_indices]
+                batch_global_indices = (
+                    global_active_indices[batch_mask_indices]
+                    + self.first_blocking_primitive_index
+                )
                 ray_to_heliostat_mapping = batch_global_indices.repeat_interleave(
                     number_of_rays_per_heliostat
                 )
-- 
2.43.0


From 1702c48b92a8d02bb0334ef9c03175f79d87f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 10/30] fix: keep the homogeneous coordinate of unaligned
 blocking surfaces

---
 artist/raytracing/heliostat_ray_tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 2daff41..4cb3ab3 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -176,7 +176,8 @@ class HeliostatRayTracer:
                         len(surfaces)
                         for surfaces in blocking_heliostat_surfaces_active_list
                     )
-                surfaces = group.surface_points + group.positions.unsqueeze(1)
+                surfaces = group.surface_points.clone()
+                surfaces[..., :3] += group.positions[:, None, :3]
                 mask = group.active_heliostats_mask.bool()
                 if mask.any():
                     surfaces[mask] = group.active_surface_points
-- 
2.43.0


From 59ace6fe0512930ea2dc5ebc8e03898b2d342281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 11/30] fix: reject negative target area indices in
 Scenario.index_mapping

---
 artist/scenario/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/scenario/scenario.py b/artist/scenario/scenario.py
index d493f60..6632f30 100644
--- a/artist/scenario/scenario.py
+++ b/artist/scenario/scenario.py
@@ -332,7 +332,7 @@ class Scenario:
                 raise ValueError(
                     "The specified single incident ray direction is invalid. Please provide a normalized 4D tensor with last element 0.0."
                 )
-            if single_target_area_index >= total_number_of_target_areas:
+            if not 0 <= single_target_area_index < total_number_of_target_areas:
                 raise ValueError(
                     f"The specified single target area index is invalid. Only {total_number_of_target_areas} target areas exist in this scenario."
                 )
-- 
2.43.0


From 785d072c9efb9c0ce2629132e8d0cd93f56d10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 12/30] fix: locate the ground-truth focal spot with the
 resolution of its own bitmap

---
 artist/optim/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artist/optim/loss.py b/artist/optim/loss.py
index 75fc413..c30e1fe 100644
--- a/artist/optim/loss.py
+++ b/artist/optim/loss.py
@@ -230,8 +230,8 @@ class FocalSpotLoss(Loss):
                 bitmap_coordinates=focal_spots_ground_truth,
                 bitmap_resolution=torch.tensor(
                     [
-                        prediction.shape[indices.batched_bitmap_u],
-                        prediction.shape[indices.batched_bitmap_e],
+                        ground_truth.shape[indices.batched_bitmap_u],
+                        ground_truth.shape[indices.batched_bitmap_e],
                     ],
                     device=device,
                 ),
-- 
2.43.0


From 2a87a4615464bc47477731dfa88e7b75eb11d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:27 +0000
Subject: [PATCH 13/30] fix: import cycles that made artist.scenario,
 artist.scene and artist.nurbs unimportable as the first import

---
 artist/geometry/coordinates.py        | 16 +++++++++-------
 artist/io/calibration_parser.py       |  7 +++++--
 artist/io/paint_calibration_parser.py |  7 +++++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/artist/geometry/coordinates.py b/artist/geometry/coordinates.py
index dfa622b..b8aabb2 100644
--- a/artist/geometry/coordinates.py
+++ b/artist/geometry/coordinates.py
@@ -1,13 +1,15 @@
-from typing import cast
+from typing import TYPE_CHECKING, cast
 
 import torch
 
-from artist.field.solar_tower import SolarTower
-from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
-from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
 from artist.util import indices
 from artist.util.env import get_device
 
+if TYPE_CHECKING:
+    from artist.field.solar_tower import SolarTower
+    from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
+    from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
+
 
 def convert_3d_points_to_4d_format(
     points: torch.Tensor, device: torch.device | None = None
@@ -119,7 +121,7 @@ def normalize_points(points: torch.Tensor) -> torch.Tensor:
 def bitmap_coordinates_to_target_coordinates(
     bitmap_coordinates: torch.Tensor,
     bitmap_resolution: torch.Tensor,
-    solar_tower: SolarTower,
+    solar_tower: "SolarTower",
     target_area_indices: torch.Tensor,
     device: torch.device | None = None,
 ) -> torch.Tensor:
@@ -194,7 +196,7 @@ def bitmap_coordinates_to_target_coordinates(
         planar_indices = target_area_indices[planar_mask]
 
         planar = cast(
-            TowerTargetAreasPlanar,
+            "TowerTargetAreasPlanar",
             solar_tower.target_areas[indices.planar_target_areas],
         )
 
@@ -223,7 +225,7 @@ def bitmap_coordinates_to_target_coordinates(
             - solar_tower.number_of_target_areas_per_type[indices.planar_target_areas]
         )
         cylindrical = cast(
-            TowerTargetAreasCylindrical,
+            "TowerTargetAreasCylindrical",
             solar_tower.target_areas[indices.cylindrical_target_areas],
         )
 
diff --git a/artist/io/calibration_parser.py b/artist/io/calibration_parser.py
index 405576e..30facc1 100644
--- a/artist/io/calibration_parser.py
+++ b/artist/io/calibration_parser.py
@@ -1,5 +1,6 @@
 import logging
 import pathlib
+from typing import TYPE_CHECKING
 
 import numpy as np
 import torch
@@ -7,10 +8,12 @@ import torchvision
 from PIL import Image
 
 from artist.field.heliostat_group import HeliostatGroup
-from artist.scenario.scenario import Scenario
 from artist.util import indices
 from artist.util.env import get_device
 
+if TYPE_CHECKING:
+    from artist.scenario.scenario import Scenario
+
 log = logging.getLogger(__name__)
 """A logger for the calibration data parser."""
 
@@ -52,7 +55,7 @@ class CalibrationDataParser:
             tuple[str, list[pathlib.Path], list[pathlib.Path]]
         ],
         heliostat_group: HeliostatGroup,
-        scenario: Scenario,
+        scenario: "Scenario",
         bitmap_resolution: torch.Tensor = torch.tensor(
             [
                 indices.bitmap_resolution,
diff --git a/artist/io/paint_calibration_parser.py b/artist/io/paint_calibration_parser.py
index 9c1f390..20d4606 100644
--- a/artist/io/paint_calibration_parser.py
+++ b/artist/io/paint_calibration_parser.py
@@ -2,6 +2,7 @@ import json
 import logging
 import pathlib
 from collections import Counter, defaultdict
+from typing import TYPE_CHECKING
 
 import paint.util.paint_mappings as paint_mappings
 import torch
@@ -9,10 +10,12 @@ import torch
 from artist.field.heliostat_group import HeliostatGroup
 from artist.geometry import coordinates
 from artist.io.calibration_parser import CalibrationDataParser
-from artist.scenario.scenario import Scenario
 from artist.util import indices
 from artist.util.env import get_device
 
+if TYPE_CHECKING:
+    from artist.scenario.scenario import Scenario
+
 log = logging.getLogger(__name__)
 """A logger for the paint calibration data parser."""
 
@@ -73,7 +76,7 @@ class PaintCalibrationDataParser(CalibrationDataParser):
             tuple[str, list[pathlib.Path], list[pathlib.Path]]
         ],
         heliostat_group: HeliostatGroup,
-        scenario: Scenario,
+        scenario: "Scenario",
         bitmap_resolution: torch.Tensor = torch.tensor(
             [
                 indices.bitmap_resolution,
-- 
2.43.0


From 39d53e8b9b2c0e0df25ef6637644d31cc26c0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 14/30] fix: reduce aim point gradients of every group on all
 ranks

---
 artist/optim/aim_point_optimizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..cc736f1 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -694,12 +694,15 @@ class AimPointOptimizer:
         if self.ddp_setup[constants.is_distributed]:  # type: ignore
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad, op=torch.distributed.ReduceOp.SUM
-                        )
-                        # Average the gradients.
-                        param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
+                    # Groups handled by other ranks have no local gradient. All ranks must still take
+                    # part in each reduction, otherwise gradients of different groups are mixed.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad, op=torch.distributed.ReduceOp.SUM
+                    )
+                    # Average the gradients.
+                    param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
 
     def _broadcast_motor_positions(self) -> None:
         """
-- 
2.43.0


From 681ba6e455bfadc2e269c8ddb80786c2b4593256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 15/30] fix: share intercept, on-target and blocking factors
 between ranks

---
 artist/optim/aim_point_optimizer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index cc736f1..bb755a9 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -517,6 +517,19 @@ class AimPointOptimizer:
                 total_flux,
                 op=torch.distributed.ReduceOp.SUM,
             )
+            # Each heliostat is traced by exactly one rank, all other ranks contribute zeros.
+            intercept_factors = torch.distributed.nn.functional.all_reduce(
+                intercept_factors,
+                op=torch.distributed.ReduceOp.SUM,
+            )
+            on_target_factors = torch.distributed.nn.functional.all_reduce(
+                on_target_factors,
+                op=torch.distributed.ReduceOp.SUM,
+            )
+            blocking_factors = torch.distributed.nn.functional.all_reduce(
+                blocking_factors,
+                op=torch.distributed.ReduceOp.SUM,
+            )
 
         return total_flux, intercept_factors, on_target_factors, blocking_factors
 
-- 
2.43.0


From 7c4883bb2263f0a0dc76ba0d318c0ca9533e6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 16/30] fix: optimize the flux loss itself for losses without
 constraints

---
 artist/optim/aim_point_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index bb755a9..45ec265 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -918,6 +918,8 @@ class AimPointOptimizer:
                     rho_local_flux=rho_local_flux,
                     max_flux_density_per_pixel=max_flux_density_per_pixel,
                 )
+            else:
+                loss = flux_loss
 
             loss.backward()
 
-- 
2.43.0


From 6eb92f1d32f2dbe19cbea95b17dd4df8c98ae7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 17/30] fix: return only the samples traced by the rank and
 crop them with their own target areas

---
 artist/optim/surface_reconstructor.py     | 15 ++++++++++-----
 artist/raytracing/heliostat_ray_tracer.py | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..b9173c8 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -254,15 +254,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                indices_for_local_rank
+            ],
             device=device,
         )
 
-        indices_for_local_rank = ray_tracer.get_sampler_indices()
-
         loss_pixel_per_sample = self.validation_loss_pixel(
             prediction=cropped_flux_distributions,
             ground_truth=data_split.flux_measured_test[indices_for_local_rank],
@@ -574,15 +576,18 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         # Crop predictions around center before comparing to measurements.
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction_train,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                sample_indices_for_local_rank
+            ],
             device=device,
         )
 
-        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
         local_indices = (
             sample_indices_for_local_rank[:: data_split.number_of_train_samples]
             // data_split.number_of_train_samples
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 4cb3ab3..29758c6 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -223,6 +223,7 @@ class HeliostatRayTracer:
         """
         return torch.tensor(
             self.distortions_sampler.rank_indices,
+            dtype=torch.long,
             device=self.distortions_dataset.distortions_u.device,
         )
 
@@ -273,17 +274,17 @@ class HeliostatRayTracer:
         Returns
         -------
         torch.Tensor
-            The resulting bitmaps per heliostat.
-            Shape is ``[number_of_active_heliostats, bitmap_resolution_e, bitmap_resolution_u]``.
+            The resulting bitmaps per heliostat, in the order of :meth:`get_sampler_indices`.
+            Shape is ``[number_of_samples_assigned_to_current_rank, bitmap_resolution_e, bitmap_resolution_u]``.
         torch.Tensor
             The fraction of rays hitting the target, neglecting blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays not being blocked.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays actually hitting the target, taking into account blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         """
         device = get_device(device=device)
 
@@ -517,7 +518,15 @@ class HeliostatRayTracer:
                 (1, 2)
             ) / number_of_rays_per_heliostat
 
-        return flux_distributions, intercept_factor, on_target_factor, blocking_factor
+        # Only the samples assigned to this rank have been traced.
+        indices_for_local_rank = self.get_sampler_indices()
+
+        return (
+            flux_distributions[indices_for_local_rank],
+            intercept_factor[indices_for_local_rank],
+            on_target_factor[indices_for_local_rank],
+            blocking_factor[indices_for_local_rank],
+        )
 
     def scatter_rays(
         self,
-- 
2.43.0


From d8f03912a9213e8ab75d1941ee94bff483d0f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:06 +0000
Subject: [PATCH 18/30] fix: stop all ranks of a heliostat group in the same
 epoch

---
 artist/optim/kinematics_reconstructor.py |  5 +++
 artist/optim/surface_reconstructor.py    |  5 +++
 artist/optim/training.py                 | 42 +++++++++++++++++++++++-
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..1f34a83 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -992,6 +992,11 @@ class KinematicsReconstructor:
 
                     self._synchronize_gradients_nested_ddp(optimizer=optimizer)
 
+                    loss = training.average_loss_within_heliostat_group(
+                        loss_per_heliostat=loss_per_heliostat,
+                        ddp_setup=self.ddp_setup,
+                    )
+
                     optimizer.step()
                     if isinstance(
                         scheduler, torch.optim.lr_scheduler.ReduceLROnPlateau
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index b9173c8..8e3cb11 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -1070,6 +1070,11 @@ class SurfaceReconstructor:
                         optimizer=optimizer, device=device
                     )
 
+                    total_loss = training.average_loss_within_heliostat_group(
+                        loss_per_heliostat=total_loss_per_heliostat,
+                        ddp_setup=self.ddp_setup,
+                    )
+
                     optimizer.step()
                     if isinstance(
                         scheduler, torch.optim.lr_scheduler.ReduceLROnPlateau
diff --git a/artist/optim/training.py b/artist/optim/training.py
index a44402e..e434a03 100644
--- a/artist/optim/training.py
+++ b/artist/optim/training.py
@@ -7,7 +7,7 @@ from torch.optim import Optimizer
 from torch.optim.lr_scheduler import LRScheduler
 
 from artist.util import constants
-from artist.util.env import get_device
+from artist.util.env import DdpSetup, get_device
 
 
 def exponential(
@@ -90,6 +90,46 @@ def reduce_on_plateau(
     )
 
 
+def average_loss_within_heliostat_group(
+    loss_per_heliostat: torch.Tensor, ddp_setup: DdpSetup
+) -> torch.Tensor:
+    """
+    Average the loss over all heliostats of a group, including those handled by other ranks.
+
+    All ranks that process the same heliostat group need to base learning rate schedules and
+    stopping criteria on the same loss, otherwise they leave the optimization in different epochs.
+
+    Parameters
+    ----------
+    loss_per_heliostat : torch.Tensor
+        The loss per heliostat on the local rank.
+        Shape is ``[number_of_heliostats_on_local_rank]``.
+    ddp_setup : DdpSetup
+        Information about the distributed environment, process groups, devices, ranks, world size,
+        and heliostat-group-to-ranks mapping.
+
+    Returns
+    -------
+    torch.Tensor
+        The detached mean loss over all heliostats of the group.
+    """
+    loss_per_heliostat = loss_per_heliostat.detach()
+
+    if not ddp_setup["is_nested"]:
+        return loss_per_heliostat.mean()
+
+    loss_sum_and_count = torch.stack(
+        [loss_per_heliostat.sum(), torch.ones_like(loss_per_heliostat).sum()]
+    )
+    torch.distributed.all_reduce(
+        loss_sum_and_count,
+        op=torch.distributed.ReduceOp.SUM,
+        group=ddp_setup["process_subgroup"],
+    )
+
+    return loss_sum_and_count[0] / loss_sum_and_count[1]
+
+
 class EarlyStopping:
     """
     Implement early stopping.
-- 
2.43.0


From 48abcf4e30e5a8c501be8262ae9d78cf5926085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:06 +0000
Subject: [PATCH 19/30] fix: size ray tracing buffers by the active surface
 points

---
 artist/raytracing/heliostat_ray_tracer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 29758c6..4256568 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -202,7 +202,7 @@ class HeliostatRayTracer:
             # Calculate ray magnitude.
             power_single_heliostat = dni * heliostat_surface_area
             rays_per_heliostat = (
-                self.heliostat_group.surface_points.shape[1]
+                self.heliostat_group.active_surface_points.shape[1]
                 * self.scenario.light_sources.light_source_list[
                     indices.first_light_source
                 ].number_of_rays
@@ -368,7 +368,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -376,7 +376,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -384,7 +384,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -392,7 +392,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
-- 
2.43.0


From f5051f6bd5a9347e01c3f3e324548e076488894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:18 +0000
Subject: [PATCH 20/30] fix: let idle ranks take part in gradient reductions

---
 artist/optim/aim_point_optimizer.py      |  2 ++
 artist/optim/kinematics_reconstructor.py | 20 ++++++++++++--------
 artist/optim/surface_reconstructor.py    | 20 ++++++++++++--------
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 45ec265..d0acd2a 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -450,6 +450,8 @@ class AimPointOptimizer:
                 int(self.bitmap_resolution[indices.unbatched_bitmap_e]),
             ),
             device=device,
+            # Idle ranks must also take part in the backward pass of the flux reduction.
+            requires_grad=True,
         )
         intercept_factors = torch.zeros(
             (sum(actives.sum() for actives in active_heliostats_masks_all_groups)),
diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index 1f34a83..a8c511b 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -639,13 +639,15 @@ class KinematicsReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        param.grad = torch.distributed.nn.functional.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Idle ranks have no local gradient but must still take part in the reduction.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    param.grad = torch.distributed.nn.functional.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
     def _synchronize_reconstruction_across_ranks(
         self,
@@ -988,7 +990,9 @@ class KinematicsReconstructor:
                         )
                     )
 
-                    loss.backward()
+                    # Idle ranks without any assigned heliostat have nothing to differentiate.
+                    if loss_per_heliostat.numel() > 0:
+                        loss.backward()
 
                     self._synchronize_gradients_nested_ddp(optimizer=optimizer)
 
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 8e3cb11..b990c18 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -773,13 +773,15 @@ class SurfaceReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Idle ranks have no local gradient but must still take part in the reduction.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
         # Geometry-preserving constraint: Keep the surfaces in their original geometric shape by locking
         # the control points on the outer edges, i.e., zero/fix gradient on outer-edge control points.
@@ -1056,7 +1058,9 @@ class SurfaceReconstructor:
 
                     total_loss = torch.mean(total_loss_per_heliostat)
 
-                    total_loss.backward()
+                    # Idle ranks without any assigned heliostat have nothing to differentiate.
+                    if total_loss_per_heliostat.numel() > 0:
+                        total_loss.backward()
 
                     # Update Augmented-Lagrangian multiplier.
                     with torch.no_grad():
-- 
2.43.0


From c5117d53abd9673002c6d42db50c15fc8425ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:18 +0000
Subject: [PATCH 21/30] fix: synchronize alignment driven kinematics
 reconstruction across ranks

---
 artist/optim/kinematics_reconstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index a8c511b..edfde73 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -878,12 +878,17 @@ class KinematicsReconstructor:
 
                 log.info(f"Rank: {rank}, Kinematics reconstructed.")
 
+        final_loss_history_all_groups = self._synchronize_reconstruction_across_ranks(
+            final_loss_per_heliostat=final_loss_per_heliostat,
+            loss_history=loss_history,
+        )
+
         for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
             heliostat_group.kinematics.rotation_deviation_parameters = (
                 heliostat_group.kinematics.rotation_deviation_parameters.detach()
             )
 
-        return final_loss_per_heliostat.detach().cpu(), [loss_history]
+        return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
 
     def _reconstruct_kinematics_flux_driven(
         self,
-- 
2.43.0


From d71a3bdcaa4ffcc74599b5d176bfea29c64a5f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 22/30] fix: detach optimized motor positions and control
 points

---
 artist/optim/aim_point_optimizer.py   | 6 ++++++
 artist/optim/surface_reconstructor.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index d0acd2a..7860858 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -980,6 +980,12 @@ class AimPointOptimizer:
         }
         log.info(f"Rank: {rank}, aim points optimized.")
 
+        # The final motor positions are independent of the optimization graph.
+        for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
+            heliostat_group.kinematics.motor_positions = (
+                heliostat_group.kinematics.motor_positions.detach()
+            )
+
         # Broadcast final motor positions for each heliostat group from source rank to others.
         self._broadcast_motor_positions()
 
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index b990c18..f0746ed 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -1169,6 +1169,11 @@ class SurfaceReconstructor:
             loss_history=loss_history,
         )
 
+        for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
+            heliostat_group.nurbs_control_points = (
+                heliostat_group.nurbs_control_points.detach()
+            )
+
         self.scenario.heliostat_field.update_surfaces(device=device)
 
         return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
-- 
2.43.0


From 1ae19c56f64eef8ce9c0e502822c0becb420d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 23/30] fix: reject different numbers of samples per heliostat
 instead of mixing them

---
 artist/optim/training.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/artist/optim/training.py b/artist/optim/training.py
index e434a03..809c290 100644
--- a/artist/optim/training.py
+++ b/artist/optim/training.py
@@ -350,6 +350,11 @@ def train_test_split(
         If None, ARTIST will automatically select the most appropriate
         device (CUDA or CPU) based on availability and OS.
 
+    Raises
+    ------
+    ValueError
+        If the active heliostats do not all have the same number of samples.
+
     Returns
     -------
     TrainTestSplit
@@ -357,6 +362,11 @@ def train_test_split(
     """
     device = get_device(device=device)
 
+    if active_heliostats_mask[active_heliostats_mask > 0].unique().numel() > 1:
+        raise ValueError(
+            "All active heliostats need the same number of samples for the train/test split."
+        )
+
     total_samples = int(active_heliostats_mask.sum().item())
     number_of_heliostats = int((active_heliostats_mask > 0).sum().item())
     number_of_samples_per_heliostat = int(total_samples / number_of_heliostats)
-- 
2.43.0


From b862f4f216450a1b93de0c483e3d545e51703fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 24/30] fix: find knot spans of non-uniform NURBS with several
 surfaces or facets

---
 artist/nurbs/surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index f238c88..833cb21 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -233,7 +233,7 @@ class NURBSSurfaces(torch.nn.Module):
             )
             is_last_knot = torch.isclose(
                 evaluation_points,
-                knot_vectors[:, :, number_of_knots],
+                knot_vectors[:, :, number_of_knots].unsqueeze(indices.nurbs_spans),
                 atol=1e-5,
                 rtol=1e-5,
             )
-- 
2.43.0


From 865d3f6fcdf21d6e5f91dc8564b133df0bf16a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:58 +0000
Subject: [PATCH 25/30] fix: mixed surfaces with only ideal or only fitted
 heliostats

---
 artist/io/paint_scenario_parser.py | 39 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index e89904c..aed3606 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -977,34 +977,35 @@ def extract_paint_heliostats_mixed_surface(
         else:
             ideal_paths.append(path_tuple)
 
-    # Process ideal heliostats.
+    # Process ideal heliostats. The prototype always needs an ideal surface, also if all heliostats are fitted.
     ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
-        paths=ideal_paths,
+        paths=ideal_paths if ideal_paths else paths[:1],
         power_plant_position=power_plant_position,
         number_of_nurbs_control_points=number_of_nurbs_control_points,
         surface_config_generator=_ideal_surface_generator,
         device=device,
     )
+    combined_heliostat_list = (
+        list(ideal_heliostats_config.heliostat_list) if ideal_paths else []
+    )
 
     # Process fitted heliostats.
-    fitted_heliostats_config, _ = _process_heliostats_from_paths(
-        paths=fitted_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_fitted_surface_generator,
-        device=device,
-        nurbs_fit_optimizer=nurbs_fit_optimizer,
-        nurbs_fit_scheduler=nurbs_fit_scheduler,
-        deflectometry_step_size=deflectometry_step_size,
-        nurbs_fit_method=nurbs_fit_method,
-        nurbs_fit_tolerance=nurbs_fit_tolerance,
-        nurbs_fit_max_epoch=nurbs_fit_max_epoch,
-    )
+    if fitted_paths:
+        fitted_heliostats_config, _ = _process_heliostats_from_paths(
+            paths=fitted_paths,
+            power_plant_position=power_plant_position,
+            number_of_nurbs_control_points=number_of_nurbs_control_points,
+            surface_config_generator=_fitted_surface_generator,
+            device=device,
+            nurbs_fit_optimizer=nurbs_fit_optimizer,
+            nurbs_fit_scheduler=nurbs_fit_scheduler,
+            deflectometry_step_size=deflectometry_step_size,
+            nurbs_fit_method=nurbs_fit_method,
+            nurbs_fit_tolerance=nurbs_fit_tolerance,
+            nurbs_fit_max_epoch=nurbs_fit_max_epoch,
+        )
+        combined_heliostat_list += fitted_heliostats_config.heliostat_list
 
-    # Combine the lists.
-    combined_heliostat_list = (
-        ideal_heliostats_config.heliostat_list + fitted_heliostats_config.heliostat_list
-    )
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
-- 
2.43.0


From 8c986b9f66c67660afeecd5456168060b0f76090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:58 +0000
Subject: [PATCH 26/30] fix: reproducible random selection of calibration files

---
 artist/io/paint_scenario_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index aed3606..470828c 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1103,14 +1103,12 @@ def build_heliostat_data_mapping(
             log.warning(f"Calibration directory for {name} not found.")
             continue
 
-        property_files = list(
+        property_files = sorted(
             calibration_dir.glob(f"*{paint_mappings.CALIBRATION_PROPERTIES_IDENTIFIER}")
         )
 
         if randomize:
             random.Random(seed).shuffle(property_files)
-        else:
-            property_files.sort()
 
         properties, images = [], []
 
-- 
2.43.0


From a5ef0e0e4424856386bb6410465b3c412b3ab23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:58 +0000
Subject: [PATCH 27/30] fix: step learning rate schedulers other than
 ReduceLROnPlateau without the loss in NURBS fits

---
 artist/scenario/surface_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/scenario/surface_generator.py b/artist/scenario/surface_generator.py
index 3351328..b3999de 100644
--- a/artist/scenario/surface_generator.py
+++ b/artist/scenario/surface_generator.py
@@ -212,8 +212,10 @@ class SurfaceGenerator:
             loss.backward()
 
             optimizer.step()
-            if scheduler:
+            if isinstance(scheduler, torch.optim.lr_scheduler.ReduceLROnPlateau):
                 scheduler.step(loss.abs().mean().detach())
+            elif scheduler:
+                scheduler.step()
             if epoch % 100 == 0:
                 log.info(
                     f"Epoch: {epoch}, Loss: {loss.abs().mean().item()}, LR: {optimizer.param_groups[0]['lr']}."
-- 
2.43.0


From 954a952794df4b53ab98bc9fff3887610a8d1684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 28/30] fix: heliostat with own actuators but prototype
 kinematics fails to load

The number of actuators was only known when the heliostat also had its own
kinematics section, so loading raised an UnboundLocalError.
---
 artist/field/heliostat_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..ddc308f 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -220,6 +220,7 @@ class HeliostatField:
                 unique_actuators = {a for a in actuator_type_list}
 
                 if kinematics_type == constants.rigid_body_key:
+                    number_of_actuators = constants.rigid_body_number_of_actuators
                     if len(unique_actuators) > 1:
                         raise ValueError(
                             "When using the rigid body kinematics, all actuators for a given heliostat must have the same type."
-- 
2.43.0


From 0bc9cf17445c05524c69c356965807b3f8e62356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 29/30] fix: every heliostat group gets the NURBS degrees of
 its own heliostats

All groups were created with the degrees of the last heliostat in the file.
---
 artist/field/heliostat_field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index ddc308f..49bde84 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -350,6 +350,9 @@ class HeliostatField:
             grouped_field_data[heliostat_group_key][
                 constants.facet_control_points
             ].append(control_points)
+            grouped_field_data[heliostat_group_key][constants.facet_degrees].append(
+                degrees
+            )
             grouped_field_data[heliostat_group_key][
                 constants.initial_orientations
             ].append(initial_orientation)
@@ -409,7 +412,9 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=grouped_field_data[heliostat_group_name][
+                        constants.facet_degrees
+                    ][indices.first_heliostat],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From 46dca65cfeaa4478ac241b6ce0137599179504cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 30/30] fix: write empty sections so scenarios without planar
 or cylindrical areas load

A scenario without targets of one type was saved without that section and
could not be loaded again.
---
 artist/scenario/h5_scenario_generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/scenario/h5_scenario_generator.py b/artist/scenario/h5_scenario_generator.py
index fc02de2..af4d6eb 100644
--- a/artist/scenario/h5_scenario_generator.py
+++ b/artist/scenario/h5_scenario_generator.py
@@ -212,6 +212,7 @@ class H5ScenarioGenerator:
         parameters : dict[str, Any]
             The parameters to be included into the HDF5 file.
         """
+        file.require_group(prefix)
         for key, value in parameters.items():
             if torch.is_tensor(value):
                 value = value.cpu()
-- 
2.43.0


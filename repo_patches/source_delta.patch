From c485c2359286947345ad43eeb1451fa67795b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:59 +0000
Subject: [PATCH 01/48] fix: select vector and quaternion components without
 indexing past x

operator[] formed (&x)[i], which indexes past a scalar member. Optimising
compilers may assume the other members are untouched; clang -O2 in double
precision returns garbage from to_quaternion.
---
 include/edyn/math/quaternion.hpp | 4 ++--
 include/edyn/math/vector2.hpp    | 4 ++--
 include/edyn/math/vector3.hpp    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edyn/math/quaternion.hpp b/include/edyn/math/quaternion.hpp
index 1a8383b..0ed55fb 100644
--- a/include/edyn/math/quaternion.hpp
+++ b/include/edyn/math/quaternion.hpp
@@ -11,12 +11,12 @@ struct quaternion {
 
     scalar& operator[](size_t i) noexcept {
         EDYN_ASSERT(i < 4);
-        return (&x)[i];
+        return i == 0 ? x : (i == 1 ? y : (i == 2 ? z : w));
     }
 
     scalar operator[](size_t i) const noexcept {
         EDYN_ASSERT(i < 4);
-        return (&x)[i];
+        return i == 0 ? x : (i == 1 ? y : (i == 2 ? z : w));
     }
 };
 
diff --git a/include/edyn/math/vector2.hpp b/include/edyn/math/vector2.hpp
index 019b939..5157108 100644
--- a/include/edyn/math/vector2.hpp
+++ b/include/edyn/math/vector2.hpp
@@ -12,12 +12,12 @@ struct vector2 {
 
     scalar& operator[](size_t i) noexcept {
         EDYN_ASSERT(i < 2);
-        return (&x)[i];
+        return i == 0 ? x : y;
     }
 
     scalar operator[](size_t i) const noexcept {
         EDYN_ASSERT(i < 2);
-        return (&x)[i];
+        return i == 0 ? x : y;
     }
 };
 
diff --git a/include/edyn/math/vector3.hpp b/include/edyn/math/vector3.hpp
index 8200f8e..d49acc8 100644
--- a/include/edyn/math/vector3.hpp
+++ b/include/edyn/math/vector3.hpp
@@ -14,12 +14,12 @@ struct vector3 {
 
     constexpr scalar& operator[](size_t i) noexcept {
         EDYN_ASSERT(i < 3);
-        return (&x)[i];
+        return i == 0 ? x : (i == 1 ? y : z);
     }
 
     constexpr scalar operator[](size_t i) const noexcept {
         EDYN_ASSERT(i < 3);
-        return (&x)[i];
+        return i == 0 ? x : (i == 1 ? y : z);
     }
 
     // Iterate over each vector element.
-- 
2.43.0


From 07721ed9770927c761d9b1d43ec4941d8688c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 02/48] fix: report the tangent point of a line touching a
 circle

The parameter of the closest point is -dp / dl2; multiplying by dl2 is only
right for a unit length direction.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..4c5288b 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -210,7 +210,7 @@ size_t intersect_line_circle(const vector2 &p0, const vector2 &p1,
         return 2;
     }
 
-    s0 = -dp * dl2;
+    s0 = -dp / dl2;
     return 1;
 }
 
-- 
2.43.0


From 38ce93f63c87e4e2780f62bb930deaef92a89c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 03/48] fix: compare the magnitude of the radius difference of
 concentric circles

Concentric circles where the second is larger were reported as coincident.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 4c5288b..1ba1b2b 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -448,7 +448,7 @@ size_t intersect_circle_circle(const vector2 &posA, scalar radiusA,
     auto rsum = radiusA + radiusB;
     auto rsub = radiusA - radiusB;
 
-    if (lu2 < EDYN_EPSILON && rsub < EDYN_EPSILON) {
+    if (lu2 < EDYN_EPSILON && std::abs(rsub) < EDYN_EPSILON) {
         // Concentric circles of same radius.
         res0 = posA + vector2_x * radiusA;
         res1 = posB - vector2_x * radiusB;
-- 
2.43.0


From 7347e5cec2b56b503de1b6efaa464ba1e7dfe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 04/48] fix: return the distance to the closest box face

closest_point_box_inside returned the distance to the -z face instead of
the smallest one.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 1ba1b2b..c6b1a83 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1038,7 +1038,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From 498da241b2e825f59275563c012c24d0f4d133f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:23 +0000
Subject: [PATCH 05/48] fix: use the diameter of the circle when testing for a
 parallel line

The parallel threshold was scaled by the squared radius.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index c6b1a83..7c1788a 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -239,7 +239,7 @@ scalar closest_point_circle_line(
 
     // Length of the segment projected onto the circle plane.
     auto qv_proj_len = length(vector2{qv[tan_idx0], qv[tan_idx1]});
-    auto diameter = square(radius);
+    auto diameter = 2 * radius;
 
     // Line points projected onto circle plane.
     auto q0_proj = vector2{q0[tan_idx0], q0[tan_idx1]};
-- 
2.43.0


From 7fcb50ab2c989d2a9661da0f47cc6fffa429ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:23 +0000
Subject: [PATCH 06/48] fix: keep the closest point of a nearly parallel line
 on the circle

The point was projected along the contact normal instead of the circle
axis, leaving the plane of the circle when the line is slightly inclined.
---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 7c1788a..f9bd10e 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -291,7 +291,7 @@ scalar closest_point_circle_line(
             // normalized and multiplied by radius.
             // Calculations done in world-space this time.
             closest_point_line(p0, p1 - p0, cpos, s0, rl0);
-            auto proj = project_plane(rl0, cpos, normal);
+            auto proj = project_plane(rl0, cpos, coordinate_axis_vector(axis, corn));
             auto dir = normalize(proj - cpos);
             rc0 = cpos + dir * radius;
             auto d = rl0 - rc0;
-- 
2.43.0


From f2a5da5d1549b14f984d2137fa719169c90881a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:34 +0000
Subject: [PATCH 07/48] fix: keep the closest points of two circles on their
 own circles

With different circle axes the points of the second circle were generated in
the plane of the first circle's axis, and concentric parallel circles
reported a point in the plane of the first circle.
---
 src/edyn/math/geom.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index f9bd10e..194addb 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -562,9 +562,9 @@ scalar closest_point_circle_circle(
                 dirA[tan_idxA0] = dir.x;
                 dirA[tan_idxA1] = dir.y;
 
-                dirB[norm_idxB] = 0;
-                dirB[tan_idxB0] = dir.x;
-                dirB[tan_idxB1] = dir.y;
+                dirB[norm_idxA] = 0;
+                dirB[tan_idxA0] = dir.x;
+                dirB[tan_idxA1] = dir.y;
 
                 // Reverse it based on which region the circles are located so they
                 // point in the right direction, towards closest point.
@@ -579,7 +579,7 @@ scalar closest_point_circle_circle(
                 // crossing the center of the circles, which are both at the
                 // origin in this case.
                 rA0 = to_world_space(tanA * radiusA, posA, ornA);
-                rB0 = to_world_space(tanA * radiusB, posA, ornA);
+                rB0 = to_world_space(posB_in_A + tanA * radiusB, posA, ornA);
                 return distance_sqr(rA0, rB0);
             }
         }
@@ -601,7 +601,7 @@ scalar closest_point_circle_circle(
     auto ornB_in_A = conjugate(ornA) * ornB;
     vector3 u, v;
 
-    switch (axisA) {
+    switch (axisB) {
     case coordinate_axis::x:
         u = quaternion_z(ornB_in_A);
         v = quaternion_y(ornB_in_A);
@@ -621,7 +621,7 @@ scalar closest_point_circle_circle(
     vector3 sup_neg = support_point_circle(posB_in_A, ornB_in_A, radiusB, axisB, -coordinate_axis_vector(axisA));
     vector3 sup = std::abs(sup_pos[norm_idxA]) < std::abs(sup_neg[norm_idxA]) ? sup_pos : sup_neg;
     auto sup_in_B = to_object_space(sup, posB_in_A, ornB_in_A);
-    auto initial_phi = std::atan2(sup_in_B[tan_idxA0], sup_in_B[tan_idxA1]);
+    auto initial_phi = std::atan2(sup_in_B[tan_idxB0], sup_in_B[tan_idxB1]);
 
     // Newton-Raphson iterations.
     auto phi = initial_phi;
-- 
2.43.0


From 1440dded9801e718036fbd9cd6887e5cb84f161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 08/48] fix: pair the second closest points of antiparallel
 segments

---
 src/edyn/math/geom.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 194addb..7e22851 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -126,12 +126,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                 s   = clamp_unit(std::min(-c * a_inv, -f1 * a_inv));
                 *sp = clamp_unit(std::max(-c * a_inv, -f1 * a_inv));
 
-                auto r2 = p2 - q1;
-                auto f2 = dot(d2, r2);
-                auto e_inv = 1 / e;
-
-                t   = clamp_unit(std::min(-f * e_inv, -f2 * e_inv));
-                *tp = clamp_unit(std::max(-f * e_inv, -f2 * e_inv));
+                // Pair the second point with its projection on the other segment,
+                // which might point in the opposite direction. `t` is calculated
+                // from `s` below.
+                *tp = clamp_unit((b * *sp + f) / e);
 
                 if (std::abs(s - *sp) > EDYN_EPSILON) {
                     *num_points = 2;
-- 
2.43.0


From 24340352ba8fb86fd2a58e925aeced5baaa5d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 09/48] fix: report the number of closest points of degenerate
 segments

---
 src/edyn/math/geom.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 7e22851..afc7d56 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -84,6 +84,10 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
     const auto e = dot(d2, d2); // Squared length of segment `s2`.
     const auto f = dot(d2, r);
 
+    if (num_points != nullptr) {
+        *num_points = 1;
+    }
+
     // Check if either or both segments degenerate into points.
     if (a <= EDYN_EPSILON && e <= EDYN_EPSILON) {
         // Both segments degenerate into points.
@@ -115,9 +119,6 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
             // are the infinite lines passing through `s1` and `s2` respectively.
             if (denom > EDYN_EPSILON) {
                 s = clamp_unit((b * f - c * e) / denom);
-                if (num_points != nullptr) {
-                    *num_points = 1;
-                }
             } else if (num_points != nullptr) {
                 auto r1 = p1 - q2;
                 auto f1 = dot(d1, r1);
@@ -135,8 +136,6 @@ scalar closest_point_segment_segment(const vector3 &p1, const vector3 &q1,
                     *num_points = 2;
                     *c1p = p1 + d1 * *sp;
                     *c2p = p2 + d2 * *tp;
-                } else {
-                    *num_points = 1;
                 }
             } else {
                 s = 0;
-- 
2.43.0


From eea04337b521cf29e943e8a29c1f8097cca6f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:40 +0000
Subject: [PATCH 10/48] fix: measure the angle between quaternions along the
 shortest path

---
 src/edyn/math/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/quaternion.cpp b/src/edyn/math/quaternion.cpp
index 75b8553..38bf126 100644
--- a/src/edyn/math/quaternion.cpp
+++ b/src/edyn/math/quaternion.cpp
@@ -41,7 +41,7 @@ scalar angle_between(const quaternion &q0, const quaternion &q1) noexcept {
     auto s = std::sqrt(length_sqr(q0) * length_sqr(q1));
     EDYN_ASSERT(std::abs(s) > EDYN_EPSILON);
     auto d = dot(q0, q1);
-    return std::acos(d / s) * scalar(2);
+    return std::acos(std::abs(d) / s) * scalar(2);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 54bbcc3f7c629581349189fb21c038d7b5518a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 11/48] fix: report the greatest projection of a triangle edge

---
 src/edyn/math/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/math/triangle.cpp b/src/edyn/math/triangle.cpp
index f338737..135ee8d 100644
--- a/src/edyn/math/triangle.cpp
+++ b/src/edyn/math/triangle.cpp
@@ -53,6 +53,8 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
             if (tri_feature == triangle_feature::vertex) {
                 tri_feature = triangle_feature::edge;
 
+                projection = std::max(proj_i, projection);
+
                 if (i == 2) {
                     // If this is the third vertex (index 2), the previous in this
                     // for loop could have been either vertex 1 or 0. If 0, then the
@@ -66,7 +68,6 @@ void get_triangle_support_feature(const triangle_vertices &vertices,
                     // If this is the second vertex (index 1), the previous could
                     // only have been vertex 0, thus this must be edge 0.
                     tri_feature_index = 0;
-                    projection = std::max(proj_i, projection);
                 }
             } else if (tri_feature == triangle_feature::edge) {
                 // If the maximum feature was already an edge, adding this
-- 
2.43.0


From 8a248c6014e7858d69e92a13f5d2af506e375ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 12/48] fix: test a point against the closing edge of a convex
 polygon

---
 src/edyn/util/shape_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 6ff16de..3384803 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -207,9 +207,9 @@ std::vector<size_t> calculate_convex_hull(const std::vector<vector2> &points, sc
 bool point_inside_convex_polygon(const std::vector<vector2> &vertices, const vector2 &point) {
     EDYN_ASSERT(vertices.size() > 2);
 
-    for (size_t i = 0; i < vertices.size() - 1; ++i) {
+    for (size_t i = 0; i < vertices.size(); ++i) {
         auto d = point - vertices[i];
-        auto e = vertices[i + 1] - vertices[i];
+        auto e = vertices[(i + 1) % vertices.size()] - vertices[i];
         // Vertices are oriented counter-clockwise. Rotate edge clockwise
         // to obtain a vector that points outside the convex polygon.
         auto n = -orthogonal(e);
-- 
2.43.0


From ce04089c9c8813586e6fba9c7dab3510e8c2eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 13/48] fix: find the closest vertex of a polygon with an acute
 angle

---
 src/edyn/util/shape_util.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/edyn/util/shape_util.cpp b/src/edyn/util/shape_util.cpp
index 3384803..35f3dd1 100644
--- a/src/edyn/util/shape_util.cpp
+++ b/src/edyn/util/shape_util.cpp
@@ -283,6 +283,19 @@ bool closest_point_convex_polygon(const std::vector<vector2> &vertices,
                     return true;
                 }
             }
+        } else {
+            // Point is before the first boundary of the Voronoi region of this
+            // edge. If it's also past the second boundary of the Voronoi region
+            // of the previous edge, it belongs to the Voronoi region of the
+            // vertex connecting them. The point is behind the previous edge if
+            // the angle between them is acute.
+            auto h = (i + indices.size() - 1) % indices.size();
+            auto &vh = vertices[indices[h]];
+
+            if (dot(p - v0, v0 - vh) >= 0) {
+                closest = v0;
+                return true;
+            }
         }
     }
 
-- 
2.43.0


From 5027e5d9d891ebc0470020e2ad8894e6f375fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 14/48] fix: interpolate edge materials linearly

---
 src/edyn/shapes/triangle_mesh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/shapes/triangle_mesh.cpp b/src/edyn/shapes/triangle_mesh.cpp
index 0c47004..b18b860 100644
--- a/src/edyn/shapes/triangle_mesh.cpp
+++ b/src/edyn/shapes/triangle_mesh.cpp
@@ -170,7 +170,7 @@ scalar triangle_mesh::get_edge_friction(size_t edge_idx, scalar fraction) const
 
 scalar triangle_mesh::get_edge_friction(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_friction(edge_idx, fraction);
 }
 
@@ -198,7 +198,7 @@ scalar triangle_mesh::get_edge_restitution(size_t edge_idx, scalar fraction) con
 
 scalar triangle_mesh::get_edge_restitution(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_restitution(edge_idx, fraction);
 }
 
@@ -229,7 +229,7 @@ std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_materia
 
 std::array<triangle_mesh::material_influence, 2> triangle_mesh::get_edge_material_id(size_t edge_idx, vector3 point) const {
     auto [v0, v1] = get_edge_vertices(edge_idx);
-    auto fraction = distance_sqr(point, v0) / distance_sqr(v1, v0);
+    auto fraction = dot(point - v0, v1 - v0) / distance_sqr(v1, v0);
     return get_edge_material_id(edge_idx, fraction);
 }
 
-- 
2.43.0


From d12dbb1bfb0029d1ae6f999f0daa6a3422ee6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:33 +0000
Subject: [PATCH 15/48] fix: negate the products of inertia of a polyhedron

The off-diagonal elements of the inertia tensor are minus the integrals of the
products of coordinates, as in shift_moment_of_inertia. With the wrong sign the
tensor of a rotated polyhedron is not the rotated tensor.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index f5bf0ab..03bf31b 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -142,9 +142,9 @@ matrix3x3 moment_of_inertia_polyhedron(scalar mass,
 
     auto density = mass / (volume / scalar(6));
     auto r = density / scalar (120);
-    auto Iyz = yz * r;
-    auto Izx = zx * r;
-    auto Ixy = xy * r;
+    auto Iyz = -yz * r;
+    auto Izx = -zx * r;
+    auto Ixy = -xy * r;
     auto Ixx = (yy + zz) * r;
     auto Iyy = (zz + xx) * r;
     auto Izz = (xx + yy) * r;
-- 
2.43.0


From 6eafbc43def5434831789995dd3c8775d77af4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:33 +0000
Subject: [PATCH 16/48] fix: use the axial inertia of the cylinder of a capsule
 along y or z

---
 src/edyn/dynamics/moment_of_inertia.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 03bf31b..31efad9 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -72,7 +72,8 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto cyl_mass = mass * cyl_vol / total_vol;
     auto sph_mass = mass * sph_vol / total_vol;
 
-    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, axis);
+    // Calculated along x so that the components below are axial and transverse.
+    auto cyl_inertia = moment_of_inertia_solid_cylinder(cyl_mass, len, radius, coordinate_axis::x);
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-- 
2.43.0


From a9c23d08949ef950eeddbbd90b869b967244856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:33 +0000
Subject: [PATCH 17/48] fix: transverse inertia of the hemispheres of a capsule

The parallel axis theorem applies to the inertia about the centroid of the
hemisphere, 83/320 m r^2, and not to 2/5 m r^2 which is about the center of
its base. A capsule of zero length must have the inertia of a sphere.
---
 src/edyn/dynamics/moment_of_inertia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/dynamics/moment_of_inertia.cpp b/src/edyn/dynamics/moment_of_inertia.cpp
index 31efad9..fa60bff 100644
--- a/src/edyn/dynamics/moment_of_inertia.cpp
+++ b/src/edyn/dynamics/moment_of_inertia.cpp
@@ -77,7 +77,7 @@ vector3 moment_of_inertia_solid_capsule(scalar mass, scalar len, scalar radius,
     auto sph_inertia = moment_of_inertia_solid_sphere(sph_mass, radius);
 
     auto xx = sph_inertia + cyl_inertia.x;
-    auto yy_zz = sph_inertia + sph_mass * square(scalar(4) * len + scalar(3) * radius) / scalar(64) + cyl_inertia.y;
+    auto yy_zz = sph_inertia + sph_mass * len * (scalar(2) * len + scalar(3) * radius) / scalar(8) + cyl_inertia.y;
 
     switch (axis) {
     case coordinate_axis::x:
-- 
2.43.0


From 05bf933ed772e99b7775a7c988831a0f6bd2fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:01 +0000
Subject: [PATCH 18/48] fix: recalculate the neighbors and relevant features of
 a convex mesh from scratch

Calling update_calculated_properties() or initialize() again, e.g. after
deserializing into an existing mesh, appended to the previous contents.
---
 src/edyn/shapes/convex_mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/shapes/convex_mesh.cpp b/src/edyn/shapes/convex_mesh.cpp
index 649f7df..d0d6dc7 100644
--- a/src/edyn/shapes/convex_mesh.cpp
+++ b/src/edyn/shapes/convex_mesh.cpp
@@ -172,6 +172,9 @@ void convex_mesh::calculate_edges() {
 }
 
 void convex_mesh::calculate_neighbors() {
+    neighbors_start.clear();
+    neighbor_indices.clear();
+
     neighbors_start.push_back(0);
     uint32_t neighbor_count = 0;
 
@@ -193,6 +196,9 @@ void convex_mesh::calculate_neighbors() {
 }
 
 void convex_mesh::calculate_relevant_faces() {
+    relevant_faces.clear();
+    relevant_normals.clear();
+
     // Find unique face normals.
     for (size_t face_idx = 0; face_idx < num_faces(); ++face_idx) {
         auto &normal = normals[face_idx];
@@ -209,6 +215,8 @@ void convex_mesh::calculate_relevant_faces() {
 }
 
 void convex_mesh::calculate_relevant_edges() {
+    relevant_edges.clear();
+
     // Find unique edge directions. Parallel edges that point in opposite
     // directions are considered similar since the direction doesn't matter
     // when doing edge vs edge in SAT.
-- 
2.43.0


From ce03db0cf71be47d131c030841d649997a1c9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:45 +0000
Subject: [PATCH 19/48] fix: order unordered pairs independently of the order
 of their elements

---
 include/edyn/core/unordered_pair.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/edyn/core/unordered_pair.hpp b/include/edyn/core/unordered_pair.hpp
index 9552b02..a97d35f 100644
--- a/include/edyn/core/unordered_pair.hpp
+++ b/include/edyn/core/unordered_pair.hpp
@@ -30,13 +30,16 @@ struct unordered_pair {
     }
 
     bool operator<(const unordered_pair &other) const {
-        if (first == other.second && second == other.first) {
-            return false;
+        // Compare the sorted pairs so that the order is consistent with equality.
+        auto &lmin = second < first ? second : first;
+        auto &lmax = second < first ? first : second;
+        auto &rmin = other.second < other.first ? other.second : other.first;
+        auto &rmax = other.second < other.first ? other.first : other.second;
+
+        if (lmin == rmin) {
+            return lmax < rmax;
         }
-        if (first == other.first) {
-            return second < other.second;
-        }
-        return first < other.first;
+        return lmin < rmin;
     }
 };
 
-- 
2.43.0


From 86f51ef31777aaba4e0637420c2cab7ca98432cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:25 +0000
Subject: [PATCH 20/48] fix: find the middle one of three collinear contact
 points of any spacing

---
 src/edyn/math/geom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index afc7d56..3aba41c 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -914,21 +914,21 @@ insertion_point_result insertion_point_index(const vector3 *points,
             // Points are collinear. Replace point in the middle.
             auto d0 = dot(points[1] - points[0], points[2] - points[0]);
 
-            if (d0 > 0 && d0 < 1) {
+            if (d0 > 0 && d0 < distance_sqr(points[0], points[2])) {
                 // Point 1 is between 0 and 2.
                 return {point_insertion_type::replace, 1};
             }
 
             auto d1 = dot(points[0] - points[1], points[2] - points[1]);
 
-            if (d1 > 0 && d1 < 1) {
+            if (d1 > 0 && d1 < distance_sqr(points[1], points[2])) {
                 // Point 0 is between 1 and 2.
                 return {point_insertion_type::replace, 0};
             }
 
             auto d2 = dot(points[2] - points[0], points[1] - points[0]);
 
-            if (d2 > 0 && d2 < 1) {
+            if (d2 > 0 && d2 < distance_sqr(points[0], points[1])) {
                 // Point 2 is between 0 and 1.
                 return {point_insertion_type::replace, 2};
             }
-- 
2.43.0


From c4ea9f301b7fbcafb0b7ff1c18e9079749c12679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 21/48] fix: serialize the identifier of a material

---
 include/edyn/comp/material.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/comp/material.hpp b/include/edyn/comp/material.hpp
index dd37ab6..2292d10 100644
--- a/include/edyn/comp/material.hpp
+++ b/include/edyn/comp/material.hpp
@@ -38,6 +38,7 @@ void serialize(Archive &archive, material &m) {
     archive(m.roll_friction);
     archive(m.stiffness);
     archive(m.damping);
+    archive(m.id);
 }
 
 }
-- 
2.43.0


From 976cb75e247eb9bca5724f18e0ba63f8712d87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 22/48] fix: read missing bits of a vector of bool as zero

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..e3297f9 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -65,7 +65,7 @@ void serialize(Archive &archive, std::vector<bool> &vector) {
             }
             archive(set);
         } else {
-            set_type set;
+            set_type set {};
             archive(set);
             for (size_t j = 0; j < count; ++j) {
                 vector[start + j] = (set & (1 << j)) > 0;
-- 
2.43.0


From af30d74f6bdaf9d2b2400985052d32f2398b8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 23/48] fix: visit the variant when computing its serialized
 size

---
 include/edyn/serialization/std_s11n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index e3297f9..74ab891 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -143,7 +143,7 @@ size_t serialization_sizeof(const std::variant<Ts...>& var) {
     size_t content_size;
     std::visit([&content_size](auto &&t) {
         content_size = sizeof(t);
-    });
+    }, var);
     return sizeof(uint8_t) + content_size;
 }
 
-- 
2.43.0


From adf0bd20040a2233675dbdd89337e605e2ef126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:14 +0000
Subject: [PATCH 24/48] fix: keep a stop request made before the worker starts
 to run

---
 include/edyn/parallel/worker.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..5738b4d 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,8 +18,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -53,7 +51,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From 7fccf3b0290fd9cd479e45ee90254afd56f1c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:14 +0000
Subject: [PATCH 25/48] fix: count a job before the worker can finish it

---
 include/edyn/parallel/worker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index 5738b4d..f93d49b 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,9 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
-        m_queue.push(j);
+        // Count it first, the job might be finished right after being pushed.
         ++m_size;
+        m_queue.push(j);
     }
 
     void run() {
@@ -39,7 +40,7 @@ public:
 
     void stop() {
         m_running = false;
-        m_queue.push(job::noop()); // Unblock queue with a no-op job.
+        push_job(job::noop()); // Unblock queue with a no-op job.
     }
 
     size_t size() {
-- 
2.43.0


From a12957d64cdb421621042e3c67ea7e02226d08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:47 +0000
Subject: [PATCH 26/48] fix: initialize the index of the first worker of the
 dispatcher

---
 include/edyn/parallel/job_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/job_dispatcher.hpp b/include/edyn/parallel/job_dispatcher.hpp
index cc775df..c18cf6f 100644
--- a/include/edyn/parallel/job_dispatcher.hpp
+++ b/include/edyn/parallel/job_dispatcher.hpp
@@ -41,7 +41,7 @@ public:
 private:
     std::vector<std::unique_ptr<std::thread>> m_threads;
     std::map<std::thread::id, std::unique_ptr<worker>> m_workers;
-    std::atomic<size_t> m_start;
+    std::atomic<size_t> m_start {0};
 };
 
 }
-- 
2.43.0


From d357ea434a53c7d6cf4f6a500a26b4936a815ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:24 +0000
Subject: [PATCH 27/48] fix: let every corner of the rectangle belong to one of
 its edges

---
 src/edyn/math/geom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index 3aba41c..ec140f2 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1101,7 +1101,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = e.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx >= aabb_min.x && qx < aabb_max.x) {
+        if (qx > aabb_min.x && qx <= aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
@@ -1120,7 +1120,7 @@ size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
         auto t = f.y / d.y;
         auto qx = p0.x + d.x * t;
 
-        if (qx > aabb_min.x && qx <= aabb_max.x) {
+        if (qx >= aabb_min.x && qx < aabb_max.x) {
             if (num_points == 0) {
                 s0 = t;
                 ++num_points;
-- 
2.43.0


From 226165c0e6d53f506dd3e5f96f6f2ff0b5906716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:39 +0000
Subject: [PATCH 28/48] fix: point_constraint read past the applied impulses
 when it had no friction row

---
 src/edyn/constraints/point_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..9a5704d 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -52,7 +52,8 @@ void point_constraint::store_applied_impulses(const std::vector<scalar> &impulse
         applied_impulse[i] = impulses[row_idx++];
     }
 
-    if (friction_torque > 0) {
+    // There's no friction row if there was no relative angular velocity.
+    if (friction_torque > 0 && row_idx < impulses.size()) {
         applied_friction_impulse = impulses[row_idx++];
     }
 }
-- 
2.43.0


From 1a73351465eba34b6ec2b23dc0e44ad945a333c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:39 +0000
Subject: [PATCH 29/48] fix: roll direction of the second body was rotated by
 the orientation of the first

---
 src/edyn/constraints/contact_extras_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/contact_extras_constraint.cpp b/src/edyn/constraints/contact_extras_constraint.cpp
index 39048fa..9efcd31 100644
--- a/src/edyn/constraints/contact_extras_constraint.cpp
+++ b/src/edyn/constraints/contact_extras_constraint.cpp
@@ -49,7 +49,7 @@ void contact_extras_constraint::prepare(constraint_row_prep_cache &cache, scalar
             // thus preventing impulses in the undesired directions.
             for (auto j = 0; j < 2; ++j) {
                 if (roll_dir[j] != vector3_zero) {
-                    auto roll_dir_world = rotate(bodyA.orn, roll_dir[j]);
+                    auto roll_dir_world = rotate(j == 0 ? bodyA.orn : bodyB.orn, roll_dir[j]);
                     axis *= dot(roll_dir_world, axis);
                 }
             }
-- 
2.43.0


From 66b7fae35a417902095fb649eff9ac2c6b1a344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:39 +0000
Subject: [PATCH 30/48] fix: cvjoint_constraint ignored bend damping unless
 there was twist damping

---
 src/edyn/constraints/cvjoint_constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cvjoint_constraint.cpp b/src/edyn/constraints/cvjoint_constraint.cpp
index c16d1f9..3c8652c 100644
--- a/src/edyn/constraints/cvjoint_constraint.cpp
+++ b/src/edyn/constraints/cvjoint_constraint.cpp
@@ -193,7 +193,7 @@ void cvjoint_constraint::prepare(
 
         auto friction_impulse = bend_friction_torque * dt;
 
-        if (twist_damping > 0) {
+        if (bend_damping > 0) {
             friction_impulse += std::abs(angspd_rel) * bend_damping * dt;
         }
 
-- 
2.43.0


From 1130b1cbf0f6597356f8fd90220b65083542f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:39 +0000
Subject: [PATCH 31/48] fix: normal of cone_constraint pointed inwards behind
 the apex and was undefined at the apex

---
 src/edyn/constraints/cone_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/constraints/cone_constraint.cpp b/src/edyn/constraints/cone_constraint.cpp
index 343acde..fc07093 100644
--- a/src/edyn/constraints/cone_constraint.cpp
+++ b/src/edyn/constraints/cone_constraint.cpp
@@ -55,7 +55,8 @@ void cone_constraint::prepare(
     // both are scaled, unlike the normal vector. Thus, descale the tangent
     // and recalculate the normal.
     auto tangent = normalize(tangent_scaled * vector3{1, 1 / scaling_y, 1 / scaling_z});
-    auto normal = normalize(cross(tangent, point_on_cone));
+    auto dir = dir_on_cone * vector3{1, 1 / scaling_y, 1 / scaling_z};
+    auto normal = normalize(cross(tangent, dir));
     auto normal_world = rotate(bodyA.orn, frame * normal);
 
     auto rA = pivotA_world - bodyA.pos;
-- 
2.43.0


From 1566a3f8c3e66d0badcc9801c138f95c86faf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:00 +0000
Subject: [PATCH 32/48] fix: constraint_row_prep_cache held fewer rows than a
 generic_constraint can have

---
 include/edyn/dynamics/row_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edyn/dynamics/row_cache.hpp b/include/edyn/dynamics/row_cache.hpp
index a77dcfc..fc13910 100644
--- a/include/edyn/dynamics/row_cache.hpp
+++ b/include/edyn/dynamics/row_cache.hpp
@@ -54,7 +54,8 @@ struct row_cache {
  * `row_cache` for better performance during the solver iterations.
  */
 struct constraint_row_prep_cache {
-    static constexpr unsigned max_rows = 16;
+    // Number of rows in a `generic_constraint` with all features enabled.
+    static constexpr unsigned max_rows = 24;
     static constexpr unsigned max_constraints = 8;
 
     struct element {
-- 
2.43.0


From 66bc7eae3d7e120b2c069e50c4e0df3cdef13b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:45 +0000
Subject: [PATCH 33/48] fix: ray parallel to a face and behind it missed the
 polyhedron

---
 src/edyn/collision/raycast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..cd8ddb2 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -277,7 +277,7 @@ shape_raycast_result shape_raycast(const polyhedron_shape &poly, const raycast_c
         if (std::abs(denom) < EDYN_EPSILON) {
             // Segment does not intersect polyhedron if there's any face that is
             // parallel to it and it lies in front of the face.
-            if (dist > 0) {
+            if (dist < 0) {
                 return {};
             }
         } else {
-- 
2.43.0


From 1dec200639227ac7b7f26bab187f57356579982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:45 +0000
Subject: [PATCH 34/48] fix: normal of a ray that hits a hemisphere of a
 capsule was not the normal of the hemisphere

---
 src/edyn/collision/raycast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index cd8ddb2..90e5f7c 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -214,8 +214,8 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
             return {};
         }
 
-        auto intersection = lerp(ctx.p0, ctx.p1, u_in);
-        auto normal = normalize(intersection - ctx.pos);
+        auto intersection = lerp(ctx.p0, ctx.p1, fraction);
+        auto normal = normalize(intersection - vertices[hemi_idx]);
 
         auto result = shape_raycast_result{};
         result.fraction = fraction;
@@ -252,7 +252,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     // Intersection point is beyond cylindrical section.
     // Intersect line with hemisphere.
-    auto hemi_idx = projections[0] < 0 ? 0 : 1;
+    auto hemi_idx = projections[0] <= 0 ? 0 : 1;
     return intersect_hemisphere(hemi_idx);
 }
 
-- 
2.43.0


From 18f89868067a84e3796632c6ddffb871dc98ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:45 +0000
Subject: [PATCH 35/48] fix: normal of a ray that hits the side of a cylinder
 or capsule was not the normal of the surface

---
 src/edyn/collision/raycast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 90e5f7c..15c21d9 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -156,7 +156,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         // Intersection lies on the side of cylinder.
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = (intersection - cyl_vertices[0] - cyl_dir_norm * projections[0]) / radius;
         result.info_var = cylinder_raycast_info{cylinder_feature::side_edge};
         return result;
     }
@@ -244,7 +244,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
         // Intersection lies on the side of cylindrical section.
         auto result = shape_raycast_result{};
         result.fraction = u_in;
-        result.normal = intersect_result.normal / std::sqrt(intersect_result.dist_sqr);
+        result.normal = normalize(intersection - vertices[0] - cap_dir * (projections[0] / length_sqr(cap_dir)));
         result.info_var = capsule_raycast_info{capsule_feature::side};
 
         return result;
-- 
2.43.0


From 27f2d8514ede4fb6fa03c9f43ce1b97b352e59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 36/48] fix: shapes behind or beyond the ends of a ray were hit

---
 src/edyn/collision/raycast.cpp | 54 ++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 15c21d9..d6e3962 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -100,8 +100,13 @@ shape_raycast_result shape_raycast(const box_shape &box, const raycast_context &
         }
     }
 
+    // Box lies beyond either end of the ray.
+    if (t_max < 0 || t_min > 1) {
+        return {};
+    }
+
     auto result = shape_raycast_result{};
-    result.fraction = t_min;
+    result.fraction = std::max(t_min, scalar(0));
     result.normal = box.get_face_normal(face_idx, ctx.orn);
     result.info_var = box_raycast_info{face_idx};
 
@@ -126,6 +131,18 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
     auto face_normal = cyl_dir_norm * (face_idx == 0 ? -1 : 1);
     auto radius = cylinder.radius;
     auto radius_sqr = square(radius);
+    auto axial = dot(ctx.p0 - ctx.pos, cyl_dir_norm);
+    auto starts_inside = std::abs(axial) <= cylinder.half_length &&
+                         distance_sqr(ctx.p0, ctx.pos + cyl_dir_norm * axial) <= radius_sqr;
+
+    // A ray that starts inside hits right away, otherwise the fraction must be
+    // between both ends of the ray.
+    auto clip_fraction = [starts_inside](scalar &fraction) {
+        if (starts_inside) {
+            fraction = 0;
+        }
+        return fraction >= 0 && fraction <= 1;
+    };
 
     if (intersect_result.kind == intersect_ray_cylinder_result::kind::parallel_directions) {
         // Cylinder and segment are parallel. Check if segment intersects a
@@ -133,7 +150,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
         vector3 closest; scalar fraction;
         auto dist_sqr = closest_point_line(ctx.p0, ray_dir, cyl_vertices[face_idx], fraction, closest);
 
-        if (dist_sqr > radius_sqr) {
+        if (dist_sqr > radius_sqr || !clip_fraction(fraction)) {
             return {};
         }
 
@@ -154,6 +171,10 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylinder.
+        if (!clip_fraction(fraction_in)) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = fraction_in;
         result.normal = (intersection - cyl_vertices[0] - cyl_dir_norm * projections[0]) / radius;
@@ -163,11 +184,18 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 
     // Intersection point is beyond cylinder with finite length.
     // Intersect line with plane parallel to cap face.
-    auto t = dot(cyl_vertices[face_idx] - ctx.p0, face_normal) / dot(ray_dir, face_normal);
+    auto denom = dot(ray_dir, face_normal);
+
+    if (denom == 0) {
+        // Ray runs parallel to cap face.
+        return {};
+    }
+
+    auto t = dot(cyl_vertices[face_idx] - ctx.p0, face_normal) / denom;
     intersection = lerp(ctx.p0, ctx.p1, t);
     auto dist_sqr = distance_sqr(intersection, cyl_vertices[face_idx]);
 
-    if (dist_sqr > radius_sqr) {
+    if (dist_sqr > radius_sqr || !clip_fraction(t)) {
         return {};
     }
 
@@ -182,7 +210,7 @@ shape_raycast_result shape_raycast(const cylinder_shape &cylinder, const raycast
 shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_context &ctx) {
     scalar t;
 
-    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t)) {
+    if (!intersect_ray_sphere(ctx.p0, ctx.p1, ctx.pos, sphere.radius, t) || t > 1) {
         return {};
     }
 
@@ -210,7 +238,7 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
     auto intersect_hemisphere = [&](size_t hemi_idx) -> shape_raycast_result {
         scalar fraction;
 
-        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction)) {
+        if (!intersect_ray_sphere(ctx.p0, ctx.p1, vertices[hemi_idx], radius, fraction) || fraction > 1) {
             return {};
         }
 
@@ -242,6 +270,15 @@ shape_raycast_result shape_raycast(const capsule_shape &capsule, const raycast_c
 
     if (projections[0] > 0 && projections[1] < 0) {
         // Intersection lies on the side of cylindrical section.
+        vector3 closest; scalar param;
+        auto starts_inside = closest_point_segment(vertices[0], vertices[1], ctx.p0, param, closest) <= square(radius);
+
+        if (starts_inside) {
+            u_in = 0;
+        } else if (u_in < 0 || u_in > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = u_in;
         result.normal = normalize(intersection - vertices[0] - cap_dir * (projections[0] / length_sqr(cap_dir)));
@@ -370,6 +407,11 @@ shape_raycast_result shape_raycast(const plane_shape &plane, const raycast_conte
         }
     } else {
         auto t = e / d;
+
+        if (t < 0 || t > 1) {
+            return {};
+        }
+
         auto result = shape_raycast_result{};
         result.fraction = t;
         result.normal = plane.normal;
-- 
2.43.0


From 74b70e0714cc95275702b924cfe78e7c4a3e91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:16 +0000
Subject: [PATCH 37/48] fix: pivot of a sphere-plane contact was not on the
 plane unless it went through the origin

---
 src/edyn/collision/collide/collide_sphere_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_sphere_plane.cpp b/src/edyn/collision/collide/collide_sphere_plane.cpp
index 8e40c03..91852b1 100644
--- a/src/edyn/collision/collide/collide_sphere_plane.cpp
+++ b/src/edyn/collision/collide/collide_sphere_plane.cpp
@@ -14,7 +14,7 @@ void collide(const sphere_shape &sphere, const plane_shape &plane,
     }
 
     auto pivotA = rotate(conjugate(ctx.ornA), -normal * sphere.radius);
-    auto pivotB = rotate(conjugate(ctx.ornB), d - normal * l - center);
+    auto pivotB = rotate(conjugate(ctx.ornB), ctx.posA - normal * l - ctx.posB);
     auto distance = l - sphere.radius;
     result.add_point({pivotA, pivotB, plane.normal, distance, contact_normal_attachment::normal_on_B});
 }
-- 
2.43.0


From 1e12b05027953a7d9fd9ac79e170e4bf6f62d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:16 +0000
Subject: [PATCH 38/48] fix: pivots of contacts with a plane were not in the
 object space of the plane

---
 src/edyn/collision/collide/collide_capsule_plane.cpp   |  3 ++-
 src/edyn/collision/collide/collide_cylinder_plane.cpp  | 10 ++++++----
 .../collision/collide/collide_polyhedron_plane.cpp     |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/edyn/collision/collide/collide_capsule_plane.cpp b/src/edyn/collision/collide/collide_capsule_plane.cpp
index 91b49fc..036d67c 100644
--- a/src/edyn/collision/collide/collide_capsule_plane.cpp
+++ b/src/edyn/collision/collide/collide_capsule_plane.cpp
@@ -32,7 +32,8 @@ void collide(const capsule_shape &shA, const plane_shape &shB,
         auto vertex = capsule_vertices[i];
         auto pivotA_world = vertex - shB.normal * shA.radius;
         auto pivotA = to_object_space(pivotA_world, ctx.posA, ctx.ornA);
-        auto pivotB = project_plane(vertex, center, shB.normal);
+        auto pivotB_world = project_plane(vertex, center, shB.normal);
+        auto pivotB = to_object_space(pivotB_world, ctx.posB, ctx.ornB);
         result.add_point({pivotA, pivotB, shB.normal, distance, contact_normal_attachment::normal_on_B, featureA});
     }
 }
diff --git a/src/edyn/collision/collide/collide_cylinder_plane.cpp b/src/edyn/collision/collide/collide_cylinder_plane.cpp
index 89196a5..1c3bfde 100644
--- a/src/edyn/collision/collide/collide_cylinder_plane.cpp
+++ b/src/edyn/collision/collide/collide_cylinder_plane.cpp
@@ -47,8 +47,9 @@ void collide(const cylinder_shape &shA, const plane_shape &shB,
             point.pivotA[cyl_ax_idx_ortho0] = shA.radius * multipliers[i];
             point.pivotA[cyl_ax_idx_ortho1] = shA.radius * multipliers[(i + 1) % 4];
             auto pivotA_world = to_world_space(point.pivotA, posA, ornA);
-            point.pivotB = project_plane(pivotA_world, center, normal);
-            point.distance = dot(pivotA_world - point.pivotB, normal);
+            auto pivotB_world = project_plane(pivotA_world, center, normal);
+            point.pivotB = to_object_space(pivotB_world, ctx.posB, ctx.ornB);
+            point.distance = dot(pivotA_world - pivotB_world, normal);
             result.maybe_add_point(point);
         }
         break;
@@ -76,8 +77,9 @@ void collide(const cylinder_shape &shA, const plane_shape &shB,
             auto &vertex = cyl_vertices[i];
             auto pivotA_world = vertex + dirA * shA.radius;
             point.pivotA = to_object_space(pivotA_world, posA, ornA);
-            point.pivotB = project_plane(pivotA_world, center, normal);
-            point.distance = dot(pivotA_world - point.pivotB, normal);
+            auto pivotB_world = project_plane(pivotA_world, center, normal);
+            point.pivotB = to_object_space(pivotB_world, ctx.posB, ctx.ornB);
+            point.distance = dot(pivotA_world - pivotB_world, normal);
             result.maybe_add_point(point);
         }
         break;
diff --git a/src/edyn/collision/collide/collide_polyhedron_plane.cpp b/src/edyn/collision/collide/collide_polyhedron_plane.cpp
index 2bcb697..df09c1b 100644
--- a/src/edyn/collision/collide/collide_polyhedron_plane.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_plane.cpp
@@ -31,7 +31,8 @@ void collide(const polyhedron_shape &shA, const plane_shape &shB,
 
         auto pivotA = rotate(conjugate(ctx.ornA), pointA);
         auto local_distance = dot(pointA - center, normal);
-        auto pivotB = pointA - normal * local_distance + posA; // Project onto plane.
+        auto pivotB_world = pointA - normal * local_distance + posA; // Project onto plane.
+        auto pivotB = to_object_space(pivotB_world, ctx.posB, ctx.ornB);
         result.maybe_add_point({pivotA, pivotB, normal, local_distance, normal_attachment});
     }
 }
-- 
2.43.0


From 33f38438b00eb335f4f335cd57354802639fb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:16 +0000
Subject: [PATCH 39/48] fix: sphere-plane contacts ignored the threshold

---
 src/edyn/collision/collide/collide_sphere_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/collision/collide/collide_sphere_plane.cpp b/src/edyn/collision/collide/collide_sphere_plane.cpp
index 91852b1..ad418ff 100644
--- a/src/edyn/collision/collide/collide_sphere_plane.cpp
+++ b/src/edyn/collision/collide/collide_sphere_plane.cpp
@@ -9,7 +9,7 @@ void collide(const sphere_shape &sphere, const plane_shape &plane,
     auto d = ctx.posA - center;
     auto l = dot(normal, d);
 
-    if (l > sphere.radius) {
+    if (l > sphere.radius + ctx.threshold) {
         return;
     }
 
-- 
2.43.0


From ee73b3e77f418c6b6b03e35dc70f85e7a52e5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:29 +0000
Subject: [PATCH 40/48] fix: reset the elements of a free_list when clearing it

Cleared nodes of an entity_graph kept their entity and were reported as connected components.
---
 include/edyn/core/free_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/core/free_list.hpp b/include/edyn/core/free_list.hpp
index d0c30be..e2e1696 100644
--- a/include/edyn/core/free_list.hpp
+++ b/include/edyn/core/free_list.hpp
@@ -47,6 +47,7 @@ public:
     void clear() {
         for (auto i = size_t{}; i < m_elem.size(); ++i) {
             auto &elem = m_elem[i];
+            elem = {};
             elem.next = i + 1;
         }
 
-- 
2.43.0


From 0de35bc1fd3fd888037c307cec58343570ae446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 41/48] fix: clear_rigidbody removes the origin component too

---
 src/edyn/util/rigidbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..6addf67 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -210,7 +210,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
         registry.remove<roll_direction>(entity);
     }
 
-    registry.remove<material, gravity, center_of_mass>(entity);
+    registry.remove<material, gravity, center_of_mass, origin>(entity);
 
     registry.remove<linvel, angvel>(entity);
     registry.remove<mass, mass_inv>(entity);
-- 
2.43.0


From 4b1dd136f208b5a5df207e1aae22bacc2fe69de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 42/48] fix: center of mass can be applied to static rigid
 bodies, which have no velocity

---
 src/edyn/util/rigidbody.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 6addf67..ef775cd 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -515,10 +515,11 @@ void rigidbody_set_kind(entt::registry &registry, entt::entity entity, rigidbody
 namespace edyn::internal {
 
 void apply_center_of_mass(entt::registry &registry, entt::entity entity, const vector3 &com) {
-    auto body_view = registry.view<position, orientation, linvel, angvel>();
+    auto body_view = registry.view<position, orientation>();
+    auto vel_view = registry.view<linvel, angvel>();
     auto com_view = registry.view<center_of_mass>();
 
-    auto [pos, orn, linvel, angvel] = body_view.get<position, orientation, edyn::linvel, edyn::angvel>(entity);
+    auto [pos, orn] = body_view.get<position, orientation>(entity);
     auto com_old = vector3_zero;
     auto has_com = com_view.contains(entity);
 
@@ -530,7 +531,13 @@ void apply_center_of_mass(entt::registry &registry, entt::entity entity, const v
     // since they're stored with respect to the center of mass.
     auto origin = to_world_space(-com_old, pos, orn);
     auto com_world = to_world_space(com, origin, orn);
-    linvel += cross(angvel, com_world - pos);
+
+    // Static rigid bodies do not have a velocity.
+    if (vel_view.contains(entity)) {
+        auto [linvel, angvel] = vel_view.get<edyn::linvel, edyn::angvel>(entity);
+        linvel += cross(angvel, com_world - pos);
+    }
+
     pos = com_world;
 
     if (com != vector3_zero) {
-- 
2.43.0


From 5e89e155618a53838cfdb77c8086b37037e0575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 43/48] fix: a rigid body with a center of mass is presented
 where it is from the start

---
 src/edyn/util/rigidbody.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index ef775cd..177f947 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -97,7 +97,8 @@ void make_rigidbody(entt::entity entity, entt::registry &registry, const rigidbo
     }
 
     if (def.presentation && def.kind == rigidbody_kind::rb_dynamic) {
-        registry.emplace<present_position>(entity, def.position);
+        // The center of mass might have shifted the position.
+        registry.emplace<present_position>(entity, registry.get<position>(entity));
         registry.emplace<present_orientation>(entity, def.orientation);
     }
 
-- 
2.43.0


From f453ce95c0712a680624d8a4c983b5ff3f36bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 44/48] fix: set_rigidbody_inertia refreshes the world-space
 inverse inertia

---
 src/edyn/util/rigidbody.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 177f947..dfcf9b5 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -310,6 +310,9 @@ void set_rigidbody_inertia(entt::registry &registry, entt::entity entity, const
     auto I_inv = inverse_matrix_symmetric(inertia);
     registry.replace<edyn::inertia>(entity, inertia);
     registry.replace<edyn::inertia_inv>(entity, I_inv);
+
+    auto basis = to_matrix3x3(registry.get<orientation>(entity));
+    registry.replace<edyn::inertia_world_inv>(entity, basis * I_inv * transpose(basis));
 }
 
 void set_rigidbody_friction(entt::registry &registry, entt::entity entity, scalar friction) {
-- 
2.43.0


From a263fdd43e786ce7b2ceb55acd23f72b9a9a6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 45/48] fix: the AABB follows when the shape of a rigid body is
 replaced

---
 src/edyn/util/rigidbody.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index dfcf9b5..4947095 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -444,13 +444,12 @@ void rigidbody_assign_shape(entt::registry &registry, entt::entity entity, Shape
         // This is an amorphous rigid body. Assign new shape.
         registry.emplace<ShapeType>(entity, shape);
         registry.emplace<shape_index>(entity, index);
-
-        const auto &pos = registry.get<position>(entity);
-        const auto &orn = registry.get<orientation>(entity);
-        auto aabb = shape_aabb(shape, pos, orn);
-        registry.emplace<AABB>(entity, aabb);
     }
 
+    const auto &orn = registry.get<orientation>(entity);
+    auto aabb = shape_aabb(shape, get_rigidbody_origin(registry, entity), orn);
+    registry.emplace_or_replace<AABB>(entity, aabb);
+
     // Assign tag for dynamic rolling shapes.
     if (registry.all_of<dynamic_tag>(entity)) {
         if constexpr(tuple_has_type<ShapeType, rolling_shapes_tuple_t>::value) {
-- 
2.43.0


From fd764610a606815d1fb01b2b92b1c64b0da04f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 46/48] fix: set_kinematic_orientation takes the shortest path
 and yields no NaN when standing still

---
 src/edyn/util/rigidbody.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 4947095..92aebbe 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -266,9 +266,14 @@ void set_kinematic_orientation(entt::registry &registry, entt::entity entity, co
         // Rotation that takes current orientation to new.
         auto r = orn * conjugate(curorn);
 
+        // Take the shortest path.
+        if (r.w < 0) {
+            r = {-r.x, -r.y, -r.z, -r.w};
+        }
+
         // Calculate angular velocity doing the inverse of what
         // edyn::quaternion::integrate does.
-        const auto ws = std::acos(r.w) / (0.5f * dt);
+        const auto ws = std::acos(std::min(r.w, scalar(1))) / (0.5f * dt);
         const auto min_ws = scalar(0.001);
         constexpr auto half = scalar(0.5);
         scalar t;
-- 
2.43.0


From d121013177a502b15fd1ded1b1e7b0d3604e850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 47/48] fix: swap_manifold flips the local normal along with
 the normal

---
 src/edyn/util/constraint_util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edyn/util/constraint_util.cpp b/src/edyn/util/constraint_util.cpp
index a3ad33a..94518ee 100644
--- a/src/edyn/util/constraint_util.cpp
+++ b/src/edyn/util/constraint_util.cpp
@@ -113,6 +113,7 @@ void swap_manifold(entt::registry &registry, entt::entity manifold_entity) {
         std::swap(cp.pivotA, cp.pivotB);
         std::swap(cp_geom.featureA, cp_geom.featureB);
         cp.normal *= -1; // Point towards new A.
+        cp_geom.local_normal *= -1;
 
         if (cp_geom.normal_attachment == contact_normal_attachment::normal_on_A) {
             cp_geom.normal_attachment = contact_normal_attachment::normal_on_B;
-- 
2.43.0


From 0a60061109b0536387285e168eac3dacd719cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 48/48] fix: contacts of a rolling second body are matched by
 its own pivot

---
 include/edyn/util/collision_util.hpp | 9 +++++----
 src/edyn/util/collision_util.cpp     | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/edyn/util/collision_util.hpp b/include/edyn/util/collision_util.hpp
index f372732..645abb9 100644
--- a/include/edyn/util/collision_util.hpp
+++ b/include/edyn/util/collision_util.hpp
@@ -63,9 +63,10 @@ size_t find_nearest_contact(const contact_point &cp,
 
 /**
  * Special version of `find_nearest_contact` to find similar points for rolling
- * objects.
+ * objects. `body_index` tells which of the two bodies is rolling, i.e. whether
+ * the result pivot to be compared with `cp_pivot` is `pivotA` or `pivotB`.
  */
-size_t find_nearest_contact_rolling(const collision_result &result, const vector3 &cp_pivot,
+size_t find_nearest_contact_rolling(const collision_result &result, size_t body_index, const vector3 &cp_pivot,
                                     const vector3 &origin, const quaternion &orn,
                                     const vector3 &angvel, scalar dt);
 
@@ -144,12 +145,12 @@ void process_collision(entt::registry &registry, entt::entity manifold_entity,
         // Try finding a nearby point for rolling objects.
         if (nearest_idx == result.num_points && rollingA) {
             auto &angvelA = vel_view.get<angvel>(manifold.body[0]);
-            nearest_idx = find_nearest_contact_rolling(result, cp.pivotA, originA, ornA, angvelA, dt);
+            nearest_idx = find_nearest_contact_rolling(result, 0, cp.pivotA, originA, ornA, angvelA, dt);
         }
 
         if (nearest_idx == result.num_points && rollingB) {
             auto &angvelB = vel_view.get<angvel>(manifold.body[1]);
-            nearest_idx = find_nearest_contact_rolling(result, cp.pivotB, originB, ornB, angvelB, dt);
+            nearest_idx = find_nearest_contact_rolling(result, 1, cp.pivotB, originB, ornB, angvelB, dt);
         }
 
         if (nearest_idx < result.num_points && !merged_indices[nearest_idx]) {
diff --git a/src/edyn/util/collision_util.cpp b/src/edyn/util/collision_util.cpp
index b0098f5..f31af98 100644
--- a/src/edyn/util/collision_util.cpp
+++ b/src/edyn/util/collision_util.cpp
@@ -254,7 +254,7 @@ size_t find_nearest_contact(const contact_point &cp,
     return nearest_idx;
 }
 
-size_t find_nearest_contact_rolling(const collision_result &result, const vector3 &cp_pivot,
+size_t find_nearest_contact_rolling(const collision_result &result, size_t body_index, const vector3 &cp_pivot,
                                     const vector3 &origin, const quaternion &orn,
                                     const vector3 &angvel, scalar dt) {
     // Calculate previous orientation by integrating the angular velocity
@@ -267,8 +267,8 @@ size_t find_nearest_contact_rolling(const collision_result &result, const vector
 
     for (size_t i = 0; i < result.num_points; ++i) {
         auto &coll_pt = result.point[i];
-        auto pivotA = to_world_space(coll_pt.pivotA, origin, orn);
-        auto dist_sqr = distance_sqr(pivotA, prev_pivot);
+        auto pivot = to_world_space(body_index == 0 ? coll_pt.pivotA : coll_pt.pivotB, origin, orn);
+        auto dist_sqr = distance_sqr(pivot, prev_pivot);
 
         if (dist_sqr < shortest_dist_sqr) {
             shortest_dist_sqr = dist_sqr;
-- 
2.43.0


From ba1d840d84da3d95ba20fe3b7753d66efbb4e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 01/16] fix: 3D segment_segment_intersection reports e_endpoint
 when an end of the first segment touches

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..e731a2e 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !(cmp.greater_than( t, zero ) && cmp.less_than( t, one )) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 2e51120c4f04f3f268fc2358e7fb1c2c7cf55955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 02/16] fix: segment_obb_distance measures against the side
 obb[3]-obb[0] instead of a diagonal

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From 1091d0c00691684c7ac9d4a3fc22c877f5043815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 03/16] fix: lexicographical_segment_compare takes the end of
 the first segment from the first segment

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From a7f8e1992cc1229ad95f9ef8992e7a6c6703c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 04/16] fix: bisect of vectors with different lengths must
 normalise both before adding

---
 geometrix/arithmetic/vector/bisect.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..119351d 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -40,13 +40,13 @@ namespace geometrix {
 			auto one_half = constants::one_half<dimensionless_t>();
 			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+				return normalize(one_half * (nlo + nhi));
+			return normalize(one_half * (-nlo - nhi));
 		}
 		else if (dp == constants::negative_one<decltype(dp)>())
 			return right_normal(nhi);
 
-		return -hi;
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -59,9 +59,9 @@ namespace geometrix {
         auto one_half = constants::one_half<dimensionless_t>();
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(one_half * (normalize(lo) + normalize(hi)));
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(one_half * (-normalize(lo) - normalize(hi)));
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From 8d945eab5e477dbab1a52cb2c05be051f2974e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 05/16] fix: ray_line_intersection reports overlap only when
 the origin of a parallel ray is on the line

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..c5d15da 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (get_orientation(v1, v2, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
-- 
2.43.0


From 81ffcd9e5268158d94b7d2635a7675b7f2d57078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 06/16] fix: ray_line_intersection accepts crossings behind the
 reference point of the line

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index c5d15da..858ae32 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -91,10 +91,6 @@ namespace geometrix {
         t = exterior_product_area(v2, v1) / denom;
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
-        
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
 
         assign(xPoint, O + t * v);
 
-- 
2.43.0


From 794b790b4d07000e2d852c04f02a76fb45defcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 07/16] fix: ray_segment_intersection without outputs reports
 no crossing for a parallel ray off the line of the segment

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From 947a500ee32ce6f88029c8fe60e8fdc7a0f08711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 08/16] fix: moving sphere against a box classifies the region
 from the start of the motion when it starts inside the grown box

---
 .../moving_sphere_aabb_intersection.hpp            | 14 +++++++++++++-
 .../moving_sphere_obb_intersection.hpp             | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..b7f65f6 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -82,9 +82,14 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto entry = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!entry)
             return moving_sphere_aabb_intersection_result();
 
+        // When the center starts inside the expanded box p is the exit point, whereas the regions below are those of the point at time t.
+        if (entry.is_origin_inside())
+            assign(p, get_center(s));
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
         // they must have at least one bit set among them 
@@ -133,6 +138,13 @@ namespace geometrix {
             return minResult; // Intersection at time t == tmin 
         }
         
+        // The center starts inside the box.
+        if (m == 0)
+        {
+            assign(q, get_center(s) + t * velocity);
+            return moving_sphere_aabb_intersection_result(true, false, false, true, false);
+        }
+
         // If only one bit set in m, then p is in a face region 
         if ((m & (m - 1)) == 0)
         {
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..71829eb 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -94,9 +94,14 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto entry = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!entry)
             return moving_sphere_obb_intersection_result();
 
+        // When the center starts inside the expanded box p is the exit point, whereas the regions below are those of the point at time t.
+        if (entry.is_origin_inside())
+            assign(p, get_center(rs));
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
         // they must have at least one bit set among them
@@ -145,6 +150,13 @@ namespace geometrix {
             return minResult; // Intersection at time t == tmin
         }
 
+        // The center starts inside the box.
+        if (m == 0)
+        {
+            assign(q, get_center(s) + t * velocity);
+            return moving_sphere_obb_intersection_result(true, false, false, true, false);
+        }
+
         // If only one bit set in m, then p is in a face region
         if ((m & (m - 1)) == 0)
         {
-- 
2.43.0


From 0eebbb9c645375b978b1dd954cf3c00f24edd6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 09/16] fix: polygon_polygon_distance considers the closing
 segments of polygons of six or more points

---
 geometrix/algorithm/distance/polygon_polygon_distance.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..d578c70 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,9 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+		//! The index ranges searched below do not wrap around, so start with the closing segment of each polygon.
+		area_t minDist2 = (std::min)(segment_polygon_distance_sqrd(access1::get_point(p1, access1::size(p1) - 1), access1::get_point(p1, 0), p2, cmp)
+			, segment_polygon_distance_sqrd(access2::get_point(p2, access2::size(p2) - 1), access2::get_point(p2, 0), p1, cmp));
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 96e1659ab62c351cc9d389da74d208300ec92c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 10/16] fix: polygon_polygon_closest_point considers the
 closing segments of polygons of six or more points

---
 .../polygon_polygon_closest_point.hpp         | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..9966e9c 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,27 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+
+        //! The index ranges searched below do not wrap around, so start with the closing segment of each polygon.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l, i2l = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, i2l), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if (dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = i2l;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From b9f646eb488beb32a03b9369f33d6e1a27ac734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 11/16] fix: polyline_polyline_closest_point reports the first
 points when they are the closest pair

---
 .../algorithm/distance/polyline_polyline_closest_point.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..440bc08 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = Dimensionless{};
+        c1 = access1::get_point(p1, 0);
+        c2 = access2::get_point(p2, 0);
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 2d6bdcfc4e4a1b615ba6f1974d8df3256cba3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 12/16] fix: point_in_triangle in space compiles (cross
 products are written with operator ^)

---
 geometrix/algorithm/point_in_polygon.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 76889d3..2c858f5 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -208,15 +208,15 @@ namespace geometrix {
             vector<arithmetic_type, 3> c = C - p;
 
             // Compute normal vectors for triangles pab and pbc
-            auto u = cross_product( b, c );
-            auto v = cross_product( c, a );
+            auto u = b ^ c;
+            auto v = c ^ a;
 
             // Make sure they are both pointing in the same direction
             if( cmp.less_than(dot_product(u, v), constants::zero<decltype(dot_product(u,v))>() ) )
                 return false;
 
             // Compute normal vector for triangle pca
-            auto w = cross_product(a, b);
+            auto w = a ^ b;
 
             // Make sure it points in the same direction as the first two
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
-- 
2.43.0


From 282716cb31a676fdd5df7d29e0cd10496670bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 13/16] fix: point_in_triangle in space rejects points on the
 line of the second edge outside the triangle

---
 geometrix/algorithm/point_in_polygon.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 2c858f5..85dcd97 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -222,6 +222,10 @@ namespace geometrix {
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
                 return false;
 
+            // On the line of BC u vanishes and the other two must agree
+            if( cmp.less_than(dot_product(v, w), constants::zero<decltype(dot_product(v,w))>() ) )
+                return false;
+
             // Otherwise P must be in (or on) the triangle
             return true;
         }
-- 
2.43.0


From 8ae25998c22a2721678844f8ccc529c666d9236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 14/16] fix: point_polyline_orientation treats a point beyond
 the start of the nearest segment as nearest to its start

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From 6bb7d897b8c82ec44f4c18b9828cee3b03a8d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:44 +0000
Subject: [PATCH 15/16] fix: polyline_polyline_intersect visits every pair of
 intersecting segments unless the visitor asks to stop

---
 .../intersection/polyline_polyline_intersection.hpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..2f48a0d 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,12 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			stop = visitor(iType, i1, j1, i, j, x1, x2);
+			return stop;
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		//! Only the visitor decides whether to cease.
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From b8fffa8a0547f1be9871d44a6c37aed39501b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 16/16] fix: polyline_split keeps the last point when the
 position is at or beyond the end

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..1d2a6d2 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+        //! The whole polyline precedes a position beyond its end.
+        if (j == size)
+            a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


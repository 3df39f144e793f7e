From afdc2dedb99995b6ba140843385bfedfd8ed0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 01/60] fix: honour the scanline orientation of a right-hand
 polygon_90_set_data in Boolean views

When the left operand of a Boolean expression is not a polygon_90_set_data
(a rectangle, polygon, container or nested view), the right operand's edges
were consumed as if they had the orientation of the left operand.
---
 include/boost/polygon/detail/polygon_90_set_view.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..0b0bc19 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -110,9 +110,16 @@ namespace boost { namespace polygon{
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
         insert_into_view_arg(linput_, lvalue_, orient_l);
-        rvalue_.sort();
         //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
         //          << "," << orient_.to_int() << std::endl;
+        if(orient_ != rvalue_.orient()) { // right hand side orientation is different
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, rvalue_.orient());
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+          return;
+        }
+        rvalue_.sort();
 
         output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
                                      rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
-- 
2.43.0


From 55722481683e410994763481beba013731e40f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 02/60] fix: make the polygon_90_set_data copy-with-orientation
 constructor compile

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..6bcd430 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that);
     }
 
     // destructor
-- 
2.43.0


From c28d4e55e6558fe5f65369c543622d514d961afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 03/60] fix: honour the orientation given to the
 polygon_90_set_data range constructor

---
 include/boost/polygon/polygon_90_set_data.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 6bcd430..80ddb9d 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -46,11 +46,11 @@ namespace boost { namespace polygon{
 
     // constructor from an iterator pair over vertex data
     template <typename iT>
-    inline polygon_90_set_data(orientation_2d, iT input_begin, iT input_end) :
-      orient_(HORIZONTAL), data_(), dirty_(false), unsorted_(false) {
+    inline polygon_90_set_data(orientation_2d orient, iT input_begin, iT input_end) :
+      orient_(orient), data_(), dirty_(false), unsorted_(false) {
       dirty_ = true;
       unsorted_ = true;
-      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin); }
+      for( ; input_begin != input_end; ++input_begin) { insert(*input_begin, false, orient); }
     }
 
     // copy constructor
-- 
2.43.0


From 0cab17dc9f994d0db698066d9e64d4a4aac119a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 04/60] fix: compare polygon_90_set_data of different scanline
 orientations by region

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 80ddb9d..e3955b0 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -203,7 +203,7 @@ namespace boost { namespace polygon{
         p.clean();
         return data_ == p.data_;
       } else {
-        return false;
+        return (*this) == polygon_90_set_data(orient_, p);
       }
     }
 
-- 
2.43.0


From 5f0af42de9f55f1faa80664aab333b74e0f639ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 05/60] fix: merge polygon_90_set_data again after scale_down
 collapsed vertices

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index e3955b0..e3a64ae 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -727,6 +727,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) / (dt)factor);
       }
       unsorted_ = true; //scaling down can make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
     template <typename scaling_type>
-- 
2.43.0


From 364695ff6d4c25e5f1480bbecf9e744f1a2f5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 06/60] fix: merge polygon_90_set_data again after scale
 collapsed vertices

---
 include/boost/polygon/polygon_90_set_data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index e3a64ae..10cb5d5 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -741,6 +741,7 @@ namespace boost { namespace polygon{
         }
       }
       unsorted_ = true;
+      dirty_ = true;
       return *this;
     }
     template <typename scaling_type>
@@ -754,6 +755,7 @@ namespace boost { namespace polygon{
         }
       }
       unsorted_ = true;
+      dirty_ = true;
       return *this;
     }
     polygon_90_set_data& scale(double factor) {
@@ -764,6 +766,7 @@ namespace boost { namespace polygon{
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) * (dt)factor);
       }
       unsorted_ = true; //scaling make coordinates equal that were not previously equal
+      dirty_ = true;
       return *this;
     }
 
-- 
2.43.0


From 719273b4c9a035293280bc509a86ef7d1220c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 07/60] fix: do not mark the result of
 polygon_90_set_data::interact as merged

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 10cb5d5..f7ab341 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -809,7 +809,6 @@ namespace boost { namespace polygon{
       for(std::set<int>::iterator itr = graph[0].begin(); itr != graph[0].end(); ++itr){
         insert(polys[(*itr)-1]);
       }
-      dirty_ = false;
       return *this;
     }
 
-- 
2.43.0


From bd15217406d5a29d46b65fbc5f9282bf89913439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 08/60] fix: let the free interact accept containers of
 rectilinear geometry

---
 include/boost/polygon/polygon_90_set_concept.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 5259a07..1b402bd 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -171,8 +171,10 @@ namespace boost { namespace polygon{
     typedef typename polygon_90_set_traits<polygon_set_type_1>::coordinate_type Unit;
     polygon_90_set_data<Unit> ps(scanline_orientation(polygon_set_2));
     polygon_90_set_data<Unit> ps2(ps);
-    ps.insert(polygon_set_1);
-    ps2.insert(polygon_set_2);
+    ps.insert(begin_90_set_data(polygon_set_1), end_90_set_data(polygon_set_1),
+              scanline_orientation(polygon_set_1));
+    ps2.insert(begin_90_set_data(polygon_set_2), end_90_set_data(polygon_set_2),
+               scanline_orientation(polygon_set_2));
     ps.interact(ps2);
     assign(polygon_set_1, ps);
     return polygon_set_1;
-- 
2.43.0


From e56d796df761808e219503c264ed650ad72adc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 09/60] fix: scale y by the vertical component of
 anisotropic_scale_factor

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..195393b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From 5814f216dd6df4493479d491b64c4e29c48ff68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 10/60] fix: compose the translations when transformations are
 concatenated

---
 include/boost/polygon/transform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 195393b..7eb5a6b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -405,9 +405,10 @@ class transformation {
 
   // concatenate this with that
   const transformation& operator+=(const transformation& tr) {
-    coordinate_type x, y;
-    transformation<coordinate_type> inv = inverse();
-    inv.transform(x, y);
+    // the translation of tr applies after this, take it back through the
+    // axis transformation of this
+    coordinate_type x = tr.p_.get(HORIZONTAL), y = tr.p_.get(VERTICAL);
+    atr_.inverse().transform(x, y);
     p_.set(HORIZONTAL, p_.get(HORIZONTAL) + x);
     p_.set(VERTICAL, p_.get(VERTICAL) + y);
     // concatenate axis transforms
-- 
2.43.0


From 43d6c1deda7c5acc9553672db25f493b1042defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 11/60] fix: map each axis through the second transformation in
 combine_axis_arrays

---
 include/boost/polygon/transform.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 7eb5a6b..3a380bf 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -190,16 +190,10 @@ class axis_transformation {
   static void combine_axis_arrays(INDIVIDUAL_AXIS this_array[],
                                   const INDIVIDUAL_AXIS that_array[]) {
     int indexes[2] = { this_array[0] >> 1, this_array[1] >> 1 };
-    int zero_bits[2][2] = {
-      { this_array[0] & 1, this_array[1] & 1 },
-      { that_array[0] & 1, that_array[1] & 1 }
-    };
-    this_array[0] = (INDIVIDUAL_AXIS)((int)this_array[0] |
-                                      ((int)zero_bits[0][0] ^
-                                       (int)zero_bits[1][indexes[0]]));
-    this_array[1] = (INDIVIDUAL_AXIS)((int)this_array[1] |
-                                      ((int)zero_bits[0][1] ^
-                                       (int)zero_bits[1][indexes[1]]));
+    int zero_bits[2] = { this_array[0] & 1, this_array[1] & 1 };
+    INDIVIDUAL_AXIS that_axes[2] = { that_array[0], that_array[1] };
+    this_array[0] = (INDIVIDUAL_AXIS)((int)that_axes[indexes[0]] ^ zero_bits[0]);
+    this_array[1] = (INDIVIDUAL_AXIS)((int)that_axes[indexes[1]] ^ zero_bits[1]);
   }
 
   // write_back_axis_array converts an array of three INDIVIDUAL_AXIS values
-- 
2.43.0


From 8c427b3e884a2f1c6613d9871965a418b2a4e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 12/60] fix: let the free move of Manhattan sets accept the
 constants HORIZONTAL and VERTICAL

---
 include/boost/polygon/polygon_90_set_concept.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 1b402bd..6de4ca3 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -475,6 +475,16 @@ namespace boost { namespace polygon{
       return move(polygon_set, 0, displacement);
   }
 
+  // without this overload the constants HORIZONTAL and VERTICAL are promoted
+  // to an x displacement of 0 or 1
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_and<y_p_s_move, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
+                      polygon_set_type>::type &
+  move(polygon_set_type& polygon_set,
+  orientation_2d_enum orient, typename polygon_90_set_traits<polygon_set_type>::coordinate_type displacement) {
+    return move(polygon_set, orientation_2d(orient), displacement);
+  }
+
   struct y_p_s_move2 : gtl_yes {};
 
   template <typename polygon_set_type>
-- 
2.43.0


From ec9a931159c0b0b43ab762a5ca4f19145b0cc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 13/60] fix: interval center and get_half overflow for large
 coordinates

low + high was computed in the coordinate type; use its difference type.
---
 include/boost/polygon/interval_concept.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 3eeec0f..5b28787 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -310,7 +310,10 @@ typename enable_if<
   >::type,
   typename interval_coordinate_type<IntervalType>::type
 >::type center(const IntervalType& interval) {
-  return (high(interval) + low(interval)) / 2;
+  typedef typename interval_coordinate_type<IntervalType>::type ctype;
+  typedef typename interval_difference_type<IntervalType>::type diff_type;
+  return static_cast<ctype>((static_cast<diff_type>(high(interval)) +
+                             static_cast<diff_type>(low(interval))) / 2);
 }
 
 struct y_i_delta : gtl_yes {};
@@ -902,7 +905,9 @@ typename enable_if<
   IntervalType
 >::type get_half(const IntervalType& interval, direction_1d dir) {
   typedef typename interval_coordinate_type<IntervalType>::type Unit;
-  Unit c = (get(interval, LOW) + get(interval, HIGH)) / 2;
+  typedef typename interval_difference_type<IntervalType>::type diff_type;
+  Unit c = static_cast<Unit>((static_cast<diff_type>(get(interval, LOW)) +
+                              static_cast<diff_type>(get(interval, HIGH))) / 2);
   return construct<IntervalType>(
       (dir == LOW) ? get(interval, LOW) : c,
       (dir == LOW) ? c : get(interval, HIGH));
-- 
2.43.0


From ef09340453d148f8ef1a4c7fc88a2402043ccd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 14/60] fix: rectangle intersect ignored consider_touch = false

Touching rectangles were reported as intersecting and clipped on one axis.
---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index e824319..0507682 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -642,7 +642,7 @@ namespace boost { namespace polygon{
                                          typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        bool>::type
   intersect(rectangle_type_1& rectangle, const rectangle_type_2& b, bool consider_touch = true) {
-    if(intersects(rectangle, b)) {
+    if(intersects(rectangle, b, consider_touch)) {
       intersect(rectangle, horizontal(b), HORIZONTAL, consider_touch);
       intersect(rectangle, vertical(b), VERTICAL, consider_touch);
       return true;
-- 
2.43.0


From a9a83604375d4a7426120abb1e076bead5482508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 15/60] fix: rectangle euclidean_distance truncated the squared
 distance to int

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 0507682..d08be9c 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -929,7 +929,7 @@ namespace boost { namespace polygon{
                                                           typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
   euclidean_distance(const rectangle_type& lvalue, const rectangle_type_2& rvalue) {
-    double val = (int)square_euclidean_distance(lvalue, rvalue);
+    double val = (double)square_euclidean_distance(lvalue, rvalue);
     return std::sqrt(val);
   }
 
-- 
2.43.0


From 19ab8552d085ad7dcf80a34d77d94ea7950950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 16/60] fix: rectangle scale collapsed the rectangle to its
 lower left corner

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index d08be9c..2d69098 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -996,7 +996,7 @@ namespace boost { namespace polygon{
                      rectangle_type>::type &
   scale(rectangle_type& rectangle, const scaling_type& scaling) {
     point_data<typename rectangle_coordinate_type<rectangle_type>::type> llp(xl(rectangle), yl(rectangle));
-    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xl(rectangle), yl(rectangle));
+    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xh(rectangle), yh(rectangle));
     scale(llp, scaling);
     scale(urp, scaling);
     set_points(rectangle, llp, urp);
-- 
2.43.0


From 7dbded35a1cd7bf1ef428293fb3c67b8b627f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 17/60] fix: rectangle to point distances did not accept const
 rectangles

---
 include/boost/polygon/rectangle_concept.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 2d69098..8a90286 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -891,7 +891,7 @@ namespace boost { namespace polygon{
     typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
     typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_difference_type<rectangle_type>::type>::type
-  square_euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  square_euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
@@ -918,7 +918,7 @@ namespace boost { namespace polygon{
   typename enable_if< typename gtl_and_3<y_r_edist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                                           typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
-  euclidean_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  euclidean_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     return std::sqrt((double)(square_euclidean_distance(lvalue, rvalue)));
   }
 
@@ -940,7 +940,7 @@ namespace boost { namespace polygon{
     typename gtl_and_3<y_r_mdist, typename is_rectangle_concept<typename geometry_concept<rectangle_type>::type>::type,
                                        typename is_point_concept<typename geometry_concept<point_type>::type>::type>::type,
     typename rectangle_difference_type<rectangle_type>::type>::type
-  manhattan_distance(rectangle_type& lvalue, const point_type& rvalue) {
+  manhattan_distance(const rectangle_type& lvalue, const point_type& rvalue) {
     typename coordinate_traits<typename rectangle_coordinate_type<rectangle_type>::type>::coordinate_difference xdist, ydist;
     xdist = euclidean_distance(lvalue, rvalue, HORIZONTAL);
     ydist = euclidean_distance(lvalue, rvalue, VERTICAL);
-- 
2.43.0


From b29f8cf0cc89e6c5fb664e6914fee3227947268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 18/60] fix: point distance along an axis overflowed for far
 apart points

The difference was taken in the coordinate type before widening.
---
 include/boost/polygon/point_concept.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index 4d4c1dd..ecededf 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -285,8 +285,9 @@ euclidean_distance(
     const PointType1& point1,
     const PointType2& point2,
     orientation_2d orient) {
-  typename point_difference_type<PointType1>::type dif =
-      get(point1, orient) - get(point2, orient);
+  typedef typename point_difference_type<PointType1>::type Unit;
+  Unit dif = static_cast<Unit>(get(point1, orient)) -
+             static_cast<Unit>(get(point2, orient));
   return (dif < 0) ? -dif : dif;
 }
 
-- 
2.43.0


From 0bad8ac800ef7c8659237062af81fc0389bcd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 19/60] fix: euclidean_distance of points overflowed the
 squared distance

---
 include/boost/polygon/point_concept.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index ecededf..a7ff0da 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -330,8 +330,10 @@ typename enable_if<
   >::type,
 typename point_distance_type<PointType1>::type>::type
 euclidean_distance(const PointType1& point1, const PointType2& point2) {
-  return (std::sqrt)(
-      static_cast<double>(distance_squared(point1, point2)));
+  typedef typename point_distance_type<PointType1>::type Unit;
+  Unit dx = static_cast<Unit>(euclidean_distance(point1, point2, HORIZONTAL));
+  Unit dy = static_cast<Unit>(euclidean_distance(point1, point2, VERTICAL));
+  return (std::sqrt)(dx * dx + dy * dy);
 }
 
 struct y_pt_convolve : gtl_yes {};
-- 
2.43.0


From ce717e935d2ae7bb80cec27ff8645b339e5104ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 20/60] fix: distance from a point to a zero-length segment was
 always zero

---
 include/boost/polygon/segment_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 2f41c1b..e59a1a7 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -656,7 +656,7 @@ euclidean_distance(const Segment& segment, const Point& point) {
     return euclidean_distance(low(segment), point);
   }
   if (length_sq == 0.0)
-    return 0.0;
+    return euclidean_distance(low(segment), point);
   Unit denom = std::sqrt(length_sq);
   Unit result = (A * D - C * B) / denom;
   return (result < 0.0) ? -result : result;
-- 
2.43.0


From ae88cafe84c33b3b30627acb467c6afb46af3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 21/60] fix: segment center overflowed for large coordinates

---
 include/boost/polygon/segment_concept.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index e59a1a7..d4d584f 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -247,9 +247,13 @@ typename enable_if<
   >::type,
 typename segment_point_type<Segment>::type>::type
 center(const Segment& segment) {
+  typedef typename segment_coordinate_type<Segment>::type ctype;
+  typedef typename coordinate_traits<ctype>::coordinate_difference diff_type;
   return construct<typename segment_point_type<Segment>::type>(
-      (x(high(segment)) + x(low(segment)))/2,
-      (y(high(segment)) + y(low(segment)))/2);
+      static_cast<ctype>((static_cast<diff_type>(x(high(segment))) +
+                          static_cast<diff_type>(x(low(segment))))/2),
+      static_cast<ctype>((static_cast<diff_type>(y(high(segment))) +
+                          static_cast<diff_type>(y(low(segment))))/2));
 }
 
 struct y_s_low2 : gtl_yes {};
-- 
2.43.0


From 6b582014e9f99e989c64db74f99d1a575e6d26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 22/60] fix: Voronoi pss circle event negated the point's y in
 32 bits

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..68f9b1a 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1283,14 +1283,14 @@ class voronoi_predicates {
             static_cast<int_x2_type>(segm_start2.x()),
             static_cast<int_x2_type>(segm_end2.y()) -
             static_cast<int_x2_type>(segm_start2.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         b -= sqr_sum2 * robust_fpt_type(robust_cross_product(
             static_cast<int_x2_type>(segm_end1.x()) -
             static_cast<int_x2_type>(segm_start1.x()),
             static_cast<int_x2_type>(segm_end1.y()) -
             static_cast<int_x2_type>(segm_start1.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         t -= b;
         if (point_index == 2) {
-- 
2.43.0


From 8b418540bc80d77e0900348dead69d1feb921641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 23/60] fix: Voronoi robust_cross_product overflowed the sum of
 its two products

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index 68f9b1a..b859f62 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -68,15 +68,22 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -robust_sum(l, r);
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return robust_sum(l, r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
   }
 
+  // Compute l + r, that might not fit into the uint_x2_type.
+  static fpt_type robust_sum(uint_x2_type l, uint_x2_type r) {
+    static to_fpt_converter to_fpt;
+    uint_x2_type sum = l + r;
+    return (sum < l) ? to_fpt(l) + to_fpt(r) : to_fpt(sum);
+  }
+
   struct orientation_test {
    public:
     // Represents orientation test result.
-- 
2.43.0


From 36a30d55201e23387e98102404302a51e3ac22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 24/60] fix: zero-length segment could give its point a segment
 source category

---
 include/boost/polygon/voronoi_builder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/polygon/voronoi_builder.hpp b/include/boost/polygon/voronoi_builder.hpp
index 6a3d504..ace6444 100644
--- a/include/boost/polygon/voronoi_builder.hpp
+++ b/include/boost/polygon/voronoi_builder.hpp
@@ -82,6 +82,10 @@ class voronoi_builder {
     site_events_.back().initial_index(index_);
     site_events_.back().source_category(SOURCE_CATEGORY_SEGMENT_END_POINT);
 
+    // Zero-length segment is just a point.
+    if (p1 == p2)
+      return index_++;
+
     // Set up segment site.
     if (point_comparison_(p1, p2)) {
       site_events_.push_back(site_event_type(p1, p2));
-- 
2.43.0


From 66ac63aae6c6d1745f1930ccdbdb80369f455f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:39 +0000
Subject: [PATCH 25/60] fix: extended_int difference kept leading zero chunks

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 078d935..f533cde 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -535,7 +535,7 @@ class extended_int {
       }
       sz2 = sz1;
     }
-    this->count_ = static_cast<int32>(sz1-1);
+    this->count_ = static_cast<int32>(sz1);
     bool flag = false;
     for (std::size_t i = 0; i < sz2; ++i) {
       this->chunks_[i] = c1[i] - c2[i] - (flag?1:0);
@@ -545,8 +545,8 @@ class extended_int {
       this->chunks_[i] = c1[i] - (flag?1:0);
       flag = !c1[i] && flag;
     }
-    if (this->chunks_[this->count_])
-      ++this->count_;
+    while (this->count_ && !this->chunks_[this->count_-1])
+      --this->count_;
   }
 
   void mul(const uint32* c1, std::size_t sz1,
-- 
2.43.0


From 3fb93519578bb509c601b73157fc45413509fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:01 +0000
Subject: [PATCH 26/60] fix: extended_exponent_fpt sum lost a value added to a
 zero of larger exponent

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index f533cde..78d6df2 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -115,8 +115,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator+(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return that;
     }
     if (that.val_ == 0.0 ||
@@ -135,8 +135,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator-(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return extended_exponent_fpt(-that.val_, that.exp_);
     }
     if (that.val_ == 0.0 ||
-- 
2.43.0


From 47ddb37a840715339cc7ea576f7dd7f06b39ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 27/60] fix: arbitrary-angle scanline subtracted coordinates
 without widening

---
 .../detail/polygon_arbitrary_formation.hpp    | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index 5cc387c..a907152 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -332,10 +332,11 @@ namespace boost { namespace polygon{
           } else if(elm1y == elm2y) {
             if(elm1 == elm2)
               return false;
-            retval = less_slope(elm1.second.get(HORIZONTAL) - elm1.first.get(HORIZONTAL),
-                                     elm1.second.get(VERTICAL) - elm1.first.get(VERTICAL),
-                                     elm2.second.get(HORIZONTAL) - elm2.first.get(HORIZONTAL),
-                                     elm2.second.get(VERTICAL) - elm2.first.get(VERTICAL));
+            typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+            retval = less_slope((at)elm1.second.get(HORIZONTAL) - (at)elm1.first.get(HORIZONTAL),
+                                (at)elm1.second.get(VERTICAL) - (at)elm1.first.get(VERTICAL),
+                                (at)elm2.second.get(HORIZONTAL) - (at)elm2.first.get(HORIZONTAL),
+                                (at)elm2.second.get(VERTICAL) - (at)elm2.first.get(VERTICAL));
             retval = ((*justBefore_) != 0) ^ retval;
           }
         }
@@ -419,14 +420,14 @@ namespace boost { namespace polygon{
           }
         }
         //the bounding boxes of the two line segments intersect, so we check closer to find the intersection point
-        dy2 = (he2.second.get(VERTICAL)) -
-          (he2.first.get(VERTICAL));
-        dy1 = (he1.second.get(VERTICAL)) -
-          (he1.first.get(VERTICAL));
-        dx2 = (he2.second.get(HORIZONTAL)) -
-          (he2.first.get(HORIZONTAL));
-        dx1 = (he1.second.get(HORIZONTAL)) -
-          (he1.first.get(HORIZONTAL));
+        dy2 = (long double)(he2.second.get(VERTICAL)) -
+          (long double)(he2.first.get(VERTICAL));
+        dy1 = (long double)(he1.second.get(VERTICAL)) -
+          (long double)(he1.first.get(VERTICAL));
+        dx2 = (long double)(he2.second.get(HORIZONTAL)) -
+          (long double)(he2.first.get(HORIZONTAL));
+        dx1 = (long double)(he1.second.get(HORIZONTAL)) -
+          (long double)(he1.first.get(HORIZONTAL));
         if(equal_slope_hp(dx1, dy1, dx2, dy2)) return false;
         //the line segments have different slopes
         //we can assume that the line segments are not vertical because such an intersection is handled elsewhere
@@ -825,10 +826,11 @@ namespace boost { namespace polygon{
           } else if(elm1y == elm2y) {
             if(elm1.pt == elm2.pt && elm1.other_pt == elm2.other_pt)
               return false;
-            retval = less_slope(elm1.other_pt.get(HORIZONTAL) - elm1.pt.get(HORIZONTAL),
-                                     elm1.other_pt.get(VERTICAL) - elm1.pt.get(VERTICAL),
-                                     elm2.other_pt.get(HORIZONTAL) - elm2.pt.get(HORIZONTAL),
-                                     elm2.other_pt.get(VERTICAL) - elm2.pt.get(VERTICAL));
+            typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+            retval = less_slope((at)elm1.other_pt.get(HORIZONTAL) - (at)elm1.pt.get(HORIZONTAL),
+                                (at)elm1.other_pt.get(VERTICAL) - (at)elm1.pt.get(VERTICAL),
+                                (at)elm2.other_pt.get(HORIZONTAL) - (at)elm2.pt.get(HORIZONTAL),
+                                (at)elm2.other_pt.get(VERTICAL) - (at)elm2.pt.get(VERTICAL));
             retval = ((*justBefore_) != 0) ^ retval;
           }
         }
@@ -1236,10 +1238,11 @@ namespace boost { namespace polygon{
       inline less_incoming_count(Point point) : pt_(point) {}
       inline bool operator () (const std::pair<std::pair<std::pair<Point, Point>, int>, active_tail_arbitrary*>& elm1,
                                const std::pair<std::pair<std::pair<Point, Point>, int>, active_tail_arbitrary*>& elm2) const {
-        Unit dx1 = elm1.first.first.first.get(HORIZONTAL) - elm1.first.first.second.get(HORIZONTAL);
-        Unit dx2 = elm2.first.first.first.get(HORIZONTAL) - elm2.first.first.second.get(HORIZONTAL);
-        Unit dy1 = elm1.first.first.first.get(VERTICAL) - elm1.first.first.second.get(VERTICAL);
-        Unit dy2 = elm2.first.first.first.get(VERTICAL) - elm2.first.first.second.get(VERTICAL);
+        typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+        at dx1 = (at)elm1.first.first.first.get(HORIZONTAL) - (at)elm1.first.first.second.get(HORIZONTAL);
+        at dx2 = (at)elm2.first.first.first.get(HORIZONTAL) - (at)elm2.first.first.second.get(HORIZONTAL);
+        at dy1 = (at)elm1.first.first.first.get(VERTICAL) - (at)elm1.first.first.second.get(VERTICAL);
+        at dy2 = (at)elm2.first.first.first.get(VERTICAL) - (at)elm2.first.first.second.get(VERTICAL);
         return scanline_base<Unit>::less_slope(dx1, dy1, dx2, dy2);
       }
     };
-- 
2.43.0


From 419bde7218ec9fae330e876f2368019d7a943d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 28/60] fix: grid square next to the largest coordinate
 overflowed in intersects_grid

---
 .../detail/polygon_arbitrary_formation.hpp    | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index a907152..3a356ca 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -157,22 +157,21 @@ namespace boost { namespace polygon{
       Unit y = pt.get(VERTICAL);
       if(equal_slope(x, y, he.first, he.second) &&
          between(pt, he.first, he.second)) return true;
-      Point pt01(pt.get(HORIZONTAL), pt.get(VERTICAL) + 1);
-      Point pt10(pt.get(HORIZONTAL) + 1, pt.get(VERTICAL));
-      Point pt11(pt.get(HORIZONTAL) + 1, pt.get(VERTICAL) + 1);
-//       if(pt01 == he.first) return true;
-//       if(pt10 == he.first) return true;
-//       if(pt11 == he.first) return true;
-//       if(pt01 == he.second) return true;
-//       if(pt10 == he.second) return true;
-//       if(pt11 == he.second) return true;
+      //the corners of the grid square may not be representable as Unit
+      typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+      typedef scanline_base<at> wide;
+      typename wide::Point pt00(x, y);
+      typename wide::Point pt01((at)x, (at)y + 1);
+      typename wide::Point pt10((at)x + 1, (at)y);
+      typename wide::Point pt11((at)x + 1, (at)y + 1);
+      typename wide::half_edge whe(he.first, he.second);
       //check non-integer intersections
-      half_edge widget1(pt, pt11);
+      typename wide::half_edge widget1(pt00, pt11);
       //intersects but not just at pt11
-      if(intersects(widget1, he) && on_above_or_below(pt11, he)) return true;
-      half_edge widget2(pt01, pt10);
+      if(wide::intersects(widget1, whe) && wide::on_above_or_below(pt11, whe)) return true;
+      typename wide::half_edge widget2(pt01, pt10);
       //intersects but not just at pt01 or 10
-      if(intersects(widget2, he) && on_above_or_below(pt01, he) && on_above_or_below(pt10, he)) return true;
+      if(wide::intersects(widget2, whe) && wide::on_above_or_below(pt01, whe) && wide::on_above_or_below(pt10, whe)) return true;
       return false;
     }
 
-- 
2.43.0


From 23c1e404f3f2ca97faf81ff0069ee783ba9ecf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:50 +0000
Subject: [PATCH 29/60] fix: arbitrary-angle trapezoids above a new hole came
 out clockwise

---
 include/boost/polygon/detail/polygon_arbitrary_formation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index 3a356ca..aff525e 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -2559,7 +2559,7 @@ namespace boost { namespace polygon{
                   returnCount.second = -1;
                 } else {
                   std::pair<active_tail_arbitrary*, active_tail_arbitrary*> tailPair =
-                  active_tail_arbitrary::createActiveTailsAsPair(point, false, 0, false);
+                  active_tail_arbitrary::createActiveTailsAsPair(point, true, 0, false);
                   elements.push_back(std::pair<vertex_half_edge,
                                      active_tail_arbitrary*>(vertex_half_edge(point,
                                                                               incoming_count[j].first, incoming[j]), tailPair.second));
-- 
2.43.0


From 8c7314854ce12295d2bcb00824b675f3b1ed29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 30/60] fix: subtractive insertion of edges or 90-degree sets
 into a 45-degree set

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..23de9bd 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From ab8c7153dea328f02f235b3e8a00be1804ae110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 31/60] fix: equality of a manhattan 45-degree set with corners
 touching at a point

A clean polygon_45_set_data holds one vertex per point when it comes out of
the 45-degree Boolean, but two when it comes out of the Manhattan path, so
equal regions compared unequal. Keep one vertex per point in both.
---
 include/boost/polygon/polygon_45_set_data.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 23de9bd..ef10766 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -126,19 +126,34 @@ namespace boost { namespace polygon{
 
     template <typename coordinate_type_2>
     inline void insert(const polygon_90_set_data<coordinate_type_2>& polygon_set, bool is_hole = false) {
+      const std::size_t first = data_.size();
       if(polygon_set.orient() == VERTICAL) {
         for(typename polygon_90_set_data<coordinate_type_2>::iterator_type itr = polygon_set.begin();
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          insert_clean(vertex_45, is_hole);
+          if(data_.size() > first && data_.back().pt == vertex_45.pt) {
+            //two edge ends at one point, keep one vertex per point
+            const int count = is_hole ? -vertex_45.count[3] : vertex_45.count[3];
+            data_.back().count[1] += count;
+            data_.back().count[3] += count;
+          } else {
+            insert_clean(vertex_45, is_hole);
+          }
         }
       } else {
         for(typename polygon_90_set_data<coordinate_type_2>::iterator_type itr = polygon_set.begin();
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          insert_clean(vertex_45, is_hole);
+          if(data_.size() > first && data_.back().pt == vertex_45.pt) {
+            //two edge ends at one point, keep one vertex per point
+            const int count = is_hole ? -vertex_45.count[3] : vertex_45.count[3];
+            data_.back().count[1] += count;
+            data_.back().count[3] += count;
+          } else {
+            insert_clean(vertex_45, is_hole);
+          }
         }
       }
       dirty_ = true;
-- 
2.43.0


From 61e55d359f77aefd42c0f51bf11c030a30dc5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 32/60] fix: repeated vertex in hole-free 45-degree polygons
 when holes touch

---
 include/boost/polygon/detail/polygon_45_formation.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_45_formation.hpp b/include/boost/polygon/detail/polygon_45_formation.hpp
index 7034986..2130841 100644
--- a/include/boost/polygon/detail/polygon_45_formation.hpp
+++ b/include/boost/polygon/detail/polygon_45_formation.hpp
@@ -250,6 +250,7 @@ namespace boost { namespace polygon{
             tailp_->points.push_front(point);
             return;
           }
+          if(*iter == point) return; //zero length edge
           Unit firstY = (*iter).y();
           Unit firstX = (*iter).x();
           ++iter;
@@ -275,6 +276,7 @@ namespace boost { namespace polygon{
           tailp_->points.push_back(point);
           return;
         }
+        if(*iter == point) return; //zero length edge
         Unit firstY = (*iter).y();
         Unit firstX = (*iter).x();
         ++iter;
@@ -336,7 +338,9 @@ namespace boost { namespace polygon{
           }
         }
         //we are not closing a figure
-        at1->pushPoint(point);
+        //a hole fractured at point has pushed it already on one of the chains
+        if(at2->getPoint() != point)
+          at1->pushPoint(point);
         at1->join(at2);
         delete at1;
         delete at2;
-- 
2.43.0


From 2fcc6109b8ab93f482c8be1fb87a09fa61ab063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 33/60] fix: polygon_45_set_data::set(value) and
 set_clean(value) dropped 45-degree edges

Neither updated is_manhattan_, so a vertex array with 45-degree edges put
into a Manhattan set was processed as Manhattan data.
---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index ef10766..5cca2a8 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -241,12 +241,14 @@ namespace boost { namespace polygon{
 
     void set_clean(const value_type& value) {
       data_ = value;
+      update_is_manhattan();
       dirty_ = false;
       unsorted_ = false;
     }
 
     void set(const value_type& value) {
       data_ = value;
+      update_is_manhattan();
       dirty_ = true;
       unsorted_ = true;
     }
@@ -362,6 +364,12 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    void update_is_manhattan() {
+      is_manhattan_ = true;
+      for(iterator_type itr = data_.begin(); itr != data_.end(); ++itr) {
+        if(itr->count.is_45()) is_manhattan_ = false;
+      }
+    }
     template <typename output_container>
     void get_dispatch(output_container& output, polygon_45_concept tag) const {
       get_fracture(output, true, tag);
-- 
2.43.0


From 1c0e86141b145d6c886b1e8cb5227011a60b419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 34/60] fix: SQRT1OVER2 resize of 45-degree corners followed by
 a falling edge

The corner piece took its second point on the wrong side of the vertex, so
corners were left unfilled (or uncut when shrinking).
---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 5cca2a8..8f9d3d5 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -998,9 +998,9 @@ namespace boost { namespace polygon{
       }
     } else if(edge1 == 3) {
       if(normal1 == 1) {
-        move(pt1, orient, multiplier * bloating);
+        move(pt1, orient, bloating);
       } else {
-        move(pt1, orientp, -multiplier * bloating);
+        move(pt1, orientp, -bloating);
       }
     } else if(edge1 == 5) {
       if(normal1 == 3) {
@@ -1010,9 +1010,9 @@ namespace boost { namespace polygon{
       }
     } else {
       if(normal1 == 5) {
-        move(pt1, orient, -multiplier * bloating);
+        move(pt1, orient, -bloating);
       } else {
-        move(pt1, orientp, multiplier * bloating);
+        move(pt1, orientp, bloating);
       }
     }
     return pt1;
-- 
2.43.0


From 5c4528fc42b1c29be7c2a07244f2b1c8c51b695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 35/60] fix: 45-degree resize truncated axis-parallel edges to
 int coordinates

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 8f9d3d5..5d88f82 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -957,11 +957,11 @@ namespace boost { namespace polygon{
   void handleResizingEdge45(polygon_45_set_data<Unit>& sizingSet, point_data<Unit> first,
                             point_data<Unit> second, Unit resizing, RoundingOption rounding) {
     if(first.x() == second.x()) {
-      sizingSet.insert(rectangle_data<int>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
+      sizingSet.insert(rectangle_data<Unit>(first.x() - resizing, first.y(), first.x() + resizing, second.y()));
       return;
     }
     if(first.y() == second.y()) {
-      sizingSet.insert(rectangle_data<int>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
+      sizingSet.insert(rectangle_data<Unit>(first.x(), first.y() - resizing, second.x(), first.y() + resizing));
       return;
     }
     //edge is 45
-- 
2.43.0


From dfc26d1839795e35e4fb2db566c076d9ed29e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 36/60] fix: property_merge_90 inserts the region of a set, not
 its raw counts

A set whose pending insertions leave negative counts (a hole reaching
outside what was inserted) cancelled other geometry inserted with the
same property.
---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index f7ab341..d7c1c14 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -928,6 +928,7 @@ namespace boost { namespace polygon{
     inline property_merge_90(const property_merge_90& that) : pmd_(that.pmd_) {}
     inline property_merge_90& operator=(const property_merge_90& that) { pmd_ = that.pmd_; return *this; }
     inline void insert(const polygon_90_set_data<coordinate_type>& ps, const property_type& property) {
+      ps.clean();
       merge_scanline<coordinate_type, property_type, polygon_90_set_data<coordinate_type> >::
         populate_property_merge_data(pmd_, ps.begin(), ps.end(), property, ps.orient());
     }
-- 
2.43.0


From 49a7c080bbc71c1f022c74fb1b2c9cec63181e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 37/60] fix: property_merge_45 compiles for property types
 other than int

---
 include/boost/polygon/detail/property_merge_45.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..d09e43b 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -31,7 +31,8 @@ namespace boost { namespace polygon{
       //inline CountMerge& operator=(int count) { counts[0] = counts[1] = count; return *this; }
       inline CountMerge& operator=(const CountMerge& count) { counts = count.counts; return *this; }
       inline int& operator[](property_type index) {
-        std::vector<std::pair<int, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
+        typename std::vector<std::pair<property_type, int> >::iterator itr =
+          std::lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
         if(itr != counts.end() && itr->first == index) {
             return itr->second;
         }
-- 
2.43.0


From 931efd5417604fe8da654ea01c1b8d69816cfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 38/60] fix: property_merge_45 output is raw data, not clean
 data

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index d09e43b..2722bef 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -90,11 +90,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From f51a885bca2a7d75f8909b71d4d4165050fef39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 39/60] fix: property_merge_45::merge no longer accumulates
 into its input

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 2722bef..8121616 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -119,10 +119,10 @@ namespace boost { namespace polygon{
       for(typename MergeSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename MergeSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          tsd_.back().second += itr2->second; //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       typename boolean_op_45<Unit>::template Scan45<CountMerge, merge_45_output_functor> scanline;
-- 
2.43.0


From 3aea077a1b0c9debcdfc10fc043bdeb18b573346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 40/60] fix: property_merge_45 doubles coordinates in the wide
 type

---
 include/boost/polygon/detail/property_merge_45.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 8121616..2022c51 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -141,7 +141,8 @@ namespace boost { namespace polygon{
     static void populateMergeSetData(MergeSetData& tsd, iT begin, iT end, property_type property) {
       for( ; begin != end; ++begin) {
         Vertex45Compact vertex;
-        vertex.first = typename Vertex45Compact::first_type(begin->pt.x() * 2, begin->pt.y() * 2);
+        vertex.first = typename Vertex45Compact::first_type(static_cast<Unit>(begin->pt.x()) * 2,
+                                                                 static_cast<Unit>(begin->pt.y()) * 2);
         tsd.push_back(vertex);
         for(unsigned int i = 0; i < 4; ++i) {
           if(begin->count[i]) {
-- 
2.43.0


From 2ed2b1d98e5a7be46dfc6bfbb4ba85c3cf72a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 41/60] fix: property_merge_45 keeps the snapping corrections
 of each key apart

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 5d88f82..2c3cfe5 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1843,6 +1843,8 @@ namespace boost { namespace polygon{
       for(typename std::map<keytype, polygon_45_set_data<big_coord> >::iterator itr = result_big.begin();
           itr != result_big.end(); ++itr) {
         polys.clear();
+        pos_error_rects.clear();
+        neg_error_rects.clear();
         (*itr).second.get(polys);
         for(std::size_t i = 0; i < polys.size(); ++i) {
           get_error_rects(pos_error_rects, neg_error_rects, polys[i]);
-- 
2.43.0


From a00dcb3f9b530b10a593a95719f6e39903f9f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 42/60] fix: connectivity_extraction_90 honours the orientation
 of its nodes

---
 include/boost/polygon/polygon_90_set_data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index d7c1c14..1d95765 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -969,6 +969,12 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      if(ps.orient() != HORIZONTAL) {
+        //all graph nodes must be scanned in the same orientation
+        polygon_90_set_data<coordinate_type> horizontal_ps(HORIZONTAL);
+        horizontal_ps.insert(ps);
+        return insert(horizontal_ps);
+      }
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From 56cd21d237649dbe4923f4d1614bcc5dc6239fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 43/60] fix: connectivity_extraction_45::extract no longer
 accumulates into its input

---
 include/boost/polygon/detail/polygon_45_touch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 90717e1..468bb70 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -195,10 +195,10 @@ namespace boost { namespace polygon{
       for(typename TouchSetData::iterator itr = tsd.begin(); itr != tsd.end(); ) {
         typename TouchSetData::iterator itr2 = itr;
         ++itr2;
+        tsd_.push_back(std::make_pair(itr->first, itr->second));
         for(; itr2 != tsd.end() && itr2->first == itr->first; ++itr2) {
-          (itr->second) += (itr2->second); //accumulate
+          tsd_.back().second += itr2->second; //accumulate
         }
-        tsd_.push_back(std::make_pair(itr->first, itr->second));
         itr = itr2;
       }
       std::pair<std::pair<Unit, std::map<Unit, std::set<int> > >, graph_type*> output
-- 
2.43.0


From e07e056cc38a1b00ae7da5aeb8f716820506191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 44/60] fix: connectivity_extraction_45 doubles coordinates in
 the wide type

---
 include/boost/polygon/detail/polygon_45_touch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/polygon_45_touch.hpp b/include/boost/polygon/detail/polygon_45_touch.hpp
index 468bb70..f920b08 100644
--- a/include/boost/polygon/detail/polygon_45_touch.hpp
+++ b/include/boost/polygon/detail/polygon_45_touch.hpp
@@ -220,7 +220,8 @@ namespace boost { namespace polygon{
     static void populateTouchSetData(TouchSetData& tsd, iT begin, iT end, int nodeCount) {
       for( ; begin != end; ++begin) {
         Vertex45Compact vertex;
-        vertex.first = typename Vertex45Compact::first_type(begin->pt.x() * 2, begin->pt.y() * 2);
+        vertex.first = typename Vertex45Compact::first_type(static_cast<Unit>(begin->pt.x()) * 2,
+                                                                 static_cast<Unit>(begin->pt.y()) * 2);
         tsd.push_back(vertex);
         for(unsigned int i = 0; i < 4; ++i) {
           if(begin->count[i]) {
-- 
2.43.0


From 28fef37b7a750c2e138daab5022f8f10cde5f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 45/60] fix: line intersection of an empty range dereferenced
 an empty vector

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..0b50dea 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -118,6 +118,7 @@ namespace boost { namespace polygon{
     template <typename iT>
     static inline void validate_scan_divide_and_conquer(std::vector<std::set<Point> >& intersection_points,
                                                         iT begin, iT end) {
+      if(begin == end) return;
       std::vector<std::pair<Unit, std::pair<std::size_t, std::size_t> > > histogram;
       compute_histogram_in_y(begin, end, std::distance(begin, end), histogram);
       std::vector<Unit> y_cuts;
-- 
2.43.0


From c4c642a094630c3b81a0c9fdb7a3ca79cc9488e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 46/60] fix: connectivity_extraction::extract kept the snapped
 data as its input

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 0b50dea..3aef42d 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -2842,6 +2842,8 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
         std::vector<property_type> > ceof;
       sl.scan(output, ceof, pmd.begin(), pmd.end());
       process_previous_x(output);
+      //keep the inserted data, not the snapped data
+      pmd.swap(tmp_pmd);
     }
 
     inline void clear() {*this = arbitrary_connectivity_extraction();}
-- 
2.43.0


From 821017dd8a7cac2eaa0ffc0bd2b5ffcee1d27f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 47/60] fix: property_merge::merge kept the snapped data as its
 input

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 3aef42d..4b55e62 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -1563,6 +1563,8 @@ namespace boost { namespace polygon{
       scanline<Unit, property_type, key_type> sl;
       output_functor_type mof;
       sl.scan(result, mof, pmd.begin(), pmd.end());
+      //keep the inserted data, not the snapped data
+      pmd.swap(tmp_pmd);
     }
 
     inline bool verify1() {
-- 
2.43.0


From 6a3b45d2baf780b3e960757513a2a2014fa53f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 48/60] fix: is_45 of a polygon with holes examines the holes

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e3d1859..2f31ca0 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1055,7 +1055,7 @@ namespace boost { namespace polygon{
     typename polygon_with_holes_traits<polygon_type>::iterator_holes_type itrh = begin_holes(polygon), itrh_end = end_holes(polygon);
     typedef typename polygon_with_holes_traits<polygon_type>::hole_type hole_type;
     for(; itrh != itrh_end; ++ itrh) {
-      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(polygon), itr1_end = end_points(polygon);
+      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(*itrh), itr1_end = end_points(*itrh);
       if(!point_sequence_is_45(itr1, itr1_end)) return false;
     }
     return true;
-- 
2.43.0


From a171f195c725dfd4f28bebdecd14e0d3d1e26b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 49/60] fix: is_45 computes differences in the difference type

---
 include/boost/polygon/polygon_traits.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 2f31ca0..e9b0ae4 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1024,23 +1024,23 @@ namespace boost { namespace polygon{
   template <typename iT>
   bool point_sequence_is_45(iT itr, iT itr_end) {
     typedef typename std::iterator_traits<iT>::value_type Point;
-    typedef typename point_traits<Point>::coordinate_type Unit;
+    typedef typename point_difference_type<Point>::type Unit;
     if(itr == itr_end) return true;
     Point firstPt = *itr;
     Point prevPt = firstPt;
     ++itr;
     while(itr != itr_end) {
       Point pt = *itr;
-      Unit deltax = x(pt) - x(prevPt);
-      Unit deltay = y(pt) - y(prevPt);
+      Unit deltax = (Unit)x(pt) - (Unit)x(prevPt);
+      Unit deltay = (Unit)y(pt) - (Unit)y(prevPt);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay))
         return false;
       prevPt = pt;
       ++itr;
     }
-    Unit deltax = x(firstPt) - x(prevPt);
-    Unit deltay = y(firstPt) - y(prevPt);
+    Unit deltax = (Unit)x(firstPt) - (Unit)x(prevPt);
+    Unit deltay = (Unit)y(firstPt) - (Unit)y(prevPt);
     if(deltax && deltay &&
        local_abs(deltax) != local_abs(deltay))
       return false;
-- 
2.43.0


From 8b5738be9a9eba9cdf53d2d67adc3485a0a39b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 50/60] fix: polygon area halves before multiplying

---
 include/boost/polygon/polygon_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e9b0ae4..608683d 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -981,8 +981,8 @@ namespace boost { namespace polygon{
 #pragma warning (pop)
 #endif
         // do trapezoid area accumulation
-        area += (x2 - x1) * (((area_type)y(*begin_range) - y_base) +
-                             ((area_type)y(previous) - y_base)) / 2;
+        area += (x2 - x1) * ((((area_type)y(*begin_range) - y_base) +
+                              ((area_type)y(previous) - y_base)) / 2);
       }
       previous = *begin_range;
       // go to next point
@@ -992,8 +992,8 @@ namespace boost { namespace polygon{
     if(!equivalence(first, previous)) {
       area_type x1 = (area_type)x(previous);
       area_type x2 = (area_type)x(first);
-      area += (x2 - x1) * (((area_type)y(first) - y_base) +
-                           ((area_type)y(previous) - y_base)) / 2;
+      area += (x2 - x1) * ((((area_type)y(first) - y_base) +
+                            ((area_type)y(previous) - y_base)) / 2);
     }
     return area;
   }
-- 
2.43.0


From 7ac59559da8d3cfd2cc84f67025f12d9536c851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 51/60] fix: winding uses the full area type

---
 include/boost/polygon/polygon_traits.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 608683d..3b7a200 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1109,8 +1109,7 @@ namespace boost { namespace polygon{
     if(wd != unknown_winding) {
       return wd == clockwise_winding ? CLOCKWISE: COUNTERCLOCKWISE;
     }
-    typedef typename area_type_by_domain< typename geometry_domain<typename geometry_concept<T>::type>::type,
-      typename polygon_traits<T>::coordinate_type>::type area_type;
+    typedef typename coordinate_traits<typename polygon_traits<T>::coordinate_type>::area_type area_type;
     return point_sequence_area<typename polygon_traits<T>::iterator_type, area_type>(begin_points(polygon), end_points(polygon)) < 0 ?
       COUNTERCLOCKWISE : CLOCKWISE;
   }
-- 
2.43.0


From 62e699c76f3e29f41578bdd12bbba2f56ad3dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 52/60] fix: assigning a rectangle to a polygon with holes
 drops its old holes

---
 include/boost/polygon/polygon_traits.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 3b7a200..da59701 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -567,7 +567,7 @@ namespace boost { namespace polygon{
   // \relatesalso polygon_90_concept
   template <typename T1, typename T2>
   typename enable_if<
-    typename gtl_and< typename is_any_mutable_polygon_type<T1>::type,
+    typename gtl_and< typename is_any_mutable_polygon_without_holes_type<T1>::type,
                       typename is_rectangle_concept<typename geometry_concept<T2>::type>::type>::type, T1>::type &
   assign(T1& polygon, const T2& rect) {
     typedef point_data<typename polygon_traits<T1>::coordinate_type> PT;
@@ -576,6 +576,21 @@ namespace boost { namespace polygon{
     return polygon;
   }
 
+  // \relatesalso polygon_90_with_holes_concept
+  template <typename T1, typename T2>
+  typename enable_if<
+    typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T1>::type,
+                      typename is_rectangle_concept<typename geometry_concept<T2>::type>::type>::type, T1>::type &
+  assign(T1& polygon, const T2& rect) {
+    typedef point_data<typename polygon_traits<T1>::coordinate_type> PT;
+    typedef typename polygon_with_holes_traits<T1>::hole_type hole_type;
+    PT points[4] = {PT(xl(rect), yl(rect)), PT(xh(rect), yl(rect)), PT(xh(rect), yh(rect)), PT(xl(rect), yh(rect))};
+    set_points(polygon, points, points+4);
+    std::vector<hole_type> no_holes;
+    set_holes(polygon, no_holes.begin(), no_holes.end());
+    return polygon;
+  }
+
 /// \relatesalso polygon_90_concept
   template <typename polygon_type, typename point_type>
   typename enable_if< typename gtl_and< typename is_mutable_polygon_90_type<polygon_type>::type,
-- 
2.43.0


From dc73e922500fd24fef99b6ce60cd174fd8c39207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 53/60] fix: set_holes reads holes that belong to the polygon
 itself

---
 include/boost/polygon/polygon_45_with_holes_data.hpp | 7 ++++---
 include/boost/polygon/polygon_90_with_holes_data.hpp | 7 ++++---
 include/boost/polygon/polygon_with_holes_data.hpp    | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/boost/polygon/polygon_45_with_holes_data.hpp b/include/boost/polygon/polygon_45_with_holes_data.hpp
index 0601bdc..92073c9 100644
--- a/include/boost/polygon/polygon_45_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_45_with_holes_data.hpp
@@ -46,11 +46,12 @@ public:
   // and that the input is a well behaved polygon
   template<class iT>
   inline polygon_45_with_holes_data& set_holes(iT input_begin, iT input_end) {
-    holes_.clear();  //just in case there was some old data there
+    std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
-       holes_.push_back(hole_type());
-       holes_.back().set((*input_begin).begin(), (*input_begin).end());
+       holes.push_back(hole_type());
+       holes.back().set((*input_begin).begin(), (*input_begin).end());
     }
+    holes_.swap(holes);
     return *this;
   }
 
diff --git a/include/boost/polygon/polygon_90_with_holes_data.hpp b/include/boost/polygon/polygon_90_with_holes_data.hpp
index be43b65..82bea51 100644
--- a/include/boost/polygon/polygon_90_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_90_with_holes_data.hpp
@@ -46,11 +46,12 @@ public:
   // and that the input is a well behaved polygon
   template<class iT>
   inline polygon_90_with_holes_data& set_holes(iT input_begin, iT input_end) {
-    holes_.clear();  //just in case there was some old data there
+    std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
-       holes_.push_back(hole_type());
-       holes_.back().set_compact((*input_begin).begin_compact(), (*input_begin).end_compact());
+       holes.push_back(hole_type());
+       holes.back().set_compact((*input_begin).begin_compact(), (*input_begin).end_compact());
     }
+    holes_.swap(holes);
     return *this;
   }
 
diff --git a/include/boost/polygon/polygon_with_holes_data.hpp b/include/boost/polygon/polygon_with_holes_data.hpp
index a1a0e1d..0611187 100644
--- a/include/boost/polygon/polygon_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_with_holes_data.hpp
@@ -46,11 +46,12 @@ public:
   // and that the input is a well behaved polygon
   template<class iT>
   inline polygon_with_holes_data& set_holes(iT input_begin, iT input_end) {
-    holes_.clear();  //just in case there was some old data there
+    std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
-       holes_.push_back(hole_type());
-       holes_.back().set((*input_begin).begin(), (*input_begin).end());
+       holes.push_back(hole_type());
+       holes.back().set((*input_begin).begin(), (*input_begin).end());
     }
+    holes_.swap(holes);
     return *this;
   }
 
-- 
2.43.0


From bff351ef4a5fd1dc861cd357782aeb136db29a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 54/60] fix: snapping to 45 makes the second pass whatever the
 parity

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index da59701..ec26625 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -811,7 +811,7 @@ namespace boost { namespace polygon{
               //std::cout << "fail2\n";
             }
           }
-          if(i == numPts - 1 && (diff % 2)) {
+          if(i == numPts - 1) {
             //we have a wrap around effect
             if(!wrap_around) {
               wrap_around = true;
-- 
2.43.0


From f0bc33c83a7080c4e4f8ef5276aebd90de5c103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 55/60] fix: scaling a 90 set by factors of opposite sign keeps
 the region

---
 include/boost/polygon/polygon_90_set_data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 1d95765..cc0797c 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -732,6 +732,8 @@ namespace boost { namespace polygon{
     }
     template <typename scaling_type>
     polygon_90_set_data& scale(const anisotropic_scale_factor<scaling_type>& scaling) {
+      //mirroring one axis reverses the edges
+      bool mirrored = (scaling.x() < 0) != (scaling.y() < 0);
       for(typename std::vector<std::pair<coordinate_type, std::pair<coordinate_type, int> > >::iterator
             itr = data_.begin(); itr != data_.end(); ++itr) {
         if(orient_ == orientation_2d(VERTICAL)) {
@@ -739,6 +741,7 @@ namespace boost { namespace polygon{
         } else {
           scaling.scale((*itr).second.first, (*itr).first);
         }
+        if(mirrored) (*itr).second.second *= -1;
       }
       unsorted_ = true;
       dirty_ = true;
-- 
2.43.0


From faa2ca4441155890c6ca08e8c23c904a49401cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 56/60] fix: snap_to_45, scale and scale_down of 45-degree
 polygons with a user point type

---
 include/boost/polygon/polygon_traits.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index ec26625..6f14511 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -838,11 +838,11 @@ namespace boost { namespace polygon{
   template <typename polygon_type>
   typename enable_if< typename is_any_mutable_polygon_without_holes_type<polygon_type>::type, polygon_type>::type &
   snap_to_45(polygon_type& polygon) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
     }
     snap_point_vector_to_45(points);
     polygon_mutable_traits<polygon_type>::set_points(polygon, points.begin(), points.end());
@@ -877,11 +877,11 @@ namespace boost { namespace polygon{
                         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type,
     polygon_type>::type &
   scale_down(polygon_type& polygon, typename coordinate_traits<typename polygon_traits<polygon_type>::coordinate_type>::unsigned_area_type factor) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
       scale_down(points.back(), factor);
     }
     snap_point_vector_to_45(points);
@@ -938,11 +938,11 @@ namespace boost { namespace polygon{
                       < forty_five_domain,
         typename geometry_domain<typename geometry_concept<polygon_type>::type>::type>::type>::type>::type * = 0
   ) {
-    std::vector<typename std::iterator_traits<typename polygon_traits<polygon_type>::iterator_type>::value_type> points;
+    std::vector<point_data<typename polygon_traits<polygon_type>::coordinate_type> > points;
     points.reserve(::boost::polygon::size(polygon));
     for(typename polygon_traits<polygon_type>::iterator_type iter = begin_points(polygon);
         iter != end_points(polygon); ++iter) {
-      points.push_back(*iter);
+      points.push_back(point_data<typename polygon_traits<polygon_type>::coordinate_type>(x(*iter), y(*iter)));
       scale(points.back(), anisotropic_scale_factor<double>(factor, factor));
     }
     snap_point_vector_to_45(points);
-- 
2.43.0


From 7ce7eec7f6c158add14321c54d2535301ec6552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 57/60] fix: set_holes accepts holes of any polygon type

---
 .../polygon/polygon_45_with_holes_data.hpp    | 20 ++++++++++++++++++-
 .../polygon/polygon_90_with_holes_data.hpp    | 20 ++++++++++++++++++-
 .../boost/polygon/polygon_with_holes_data.hpp | 20 ++++++++++++++++++-
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_with_holes_data.hpp b/include/boost/polygon/polygon_45_with_holes_data.hpp
index 92073c9..13c30e1 100644
--- a/include/boost/polygon/polygon_45_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_45_with_holes_data.hpp
@@ -10,6 +10,8 @@
 #include "isotropy.hpp"
 #include "polygon_45_data.hpp"
 namespace boost { namespace polygon{
+  template <typename T, typename enable>
+  struct polygon_traits;
 struct polygon_45_with_holes_concept;
 template <typename T>
 class polygon_45_with_holes_data {
@@ -49,7 +51,7 @@ public:
     std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
        holes.push_back(hole_type());
-       holes.back().set((*input_begin).begin(), (*input_begin).end());
+       set_hole(holes.back(), *input_begin);
     }
     holes_.swap(holes);
     return *this;
@@ -97,6 +99,22 @@ public:
     return holes_.size();
   }
 
+private:
+  // a hole may be of any type that models a polygon
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source) {
+    set_hole(hole, source, typename geometry_concept<hole_source_type>::type());
+  }
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, undefined_concept) {
+    hole.set(source.begin(), source.end());
+  }
+  template <typename hole_source_type, typename concept_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, concept_type) {
+    hole.set(polygon_traits<hole_source_type, gtl_yes>::begin_points(source),
+             polygon_traits<hole_source_type, gtl_yes>::end_points(source));
+  }
+
 public:
   polygon_45_data<coordinate_type> self_;
   std::list<hole_type> holes_;
diff --git a/include/boost/polygon/polygon_90_with_holes_data.hpp b/include/boost/polygon/polygon_90_with_holes_data.hpp
index 82bea51..f3a3a39 100644
--- a/include/boost/polygon/polygon_90_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_90_with_holes_data.hpp
@@ -10,6 +10,8 @@
 namespace boost { namespace polygon{
 #include "isotropy.hpp"
 #include "polygon_90_data.hpp"
+template <typename T, typename enable>
+struct polygon_90_traits;
 struct polygon_90_with_holes_concept;
 template <typename T>
 class polygon_90_with_holes_data {
@@ -49,7 +51,7 @@ public:
     std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
        holes.push_back(hole_type());
-       holes.back().set_compact((*input_begin).begin_compact(), (*input_begin).end_compact());
+       set_hole(holes.back(), *input_begin);
     }
     holes_.swap(holes);
     return *this;
@@ -107,6 +109,22 @@ public:
     return holes_.size();
   }
 
+private:
+  // a hole may be of any type that models a polygon
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source) {
+    set_hole(hole, source, typename geometry_concept<hole_source_type>::type());
+  }
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, undefined_concept) {
+    hole.set_compact(source.begin_compact(), source.end_compact());
+  }
+  template <typename hole_source_type, typename concept_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, concept_type) {
+    hole.set_compact(polygon_90_traits<hole_source_type, gtl_yes>::begin_compact(source),
+                     polygon_90_traits<hole_source_type, gtl_yes>::end_compact(source));
+  }
+
 private:
   polygon_90_data<coordinate_type> self_;
   std::list<hole_type> holes_;
diff --git a/include/boost/polygon/polygon_with_holes_data.hpp b/include/boost/polygon/polygon_with_holes_data.hpp
index 0611187..d7dbaf5 100644
--- a/include/boost/polygon/polygon_with_holes_data.hpp
+++ b/include/boost/polygon/polygon_with_holes_data.hpp
@@ -10,6 +10,8 @@
 #include "isotropy.hpp"
 #include "polygon_data.hpp"
 namespace boost { namespace polygon{
+  template <typename T, typename enable>
+  struct polygon_traits;
   struct polygon_with_holes_concept;
   template <typename T>
   class polygon_with_holes_data {
@@ -49,7 +51,7 @@ public:
     std::list<hole_type> holes;  //the range may refer to the old holes
     for( ; input_begin != input_end; ++ input_begin) {
        holes.push_back(hole_type());
-       holes.back().set((*input_begin).begin(), (*input_begin).end());
+       set_hole(holes.back(), *input_begin);
     }
     holes_.swap(holes);
     return *this;
@@ -97,6 +99,22 @@ public:
     return holes_.size();
   }
 
+private:
+  // a hole may be of any type that models a polygon
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source) {
+    set_hole(hole, source, typename geometry_concept<hole_source_type>::type());
+  }
+  template <typename hole_source_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, undefined_concept) {
+    hole.set(source.begin(), source.end());
+  }
+  template <typename hole_source_type, typename concept_type>
+  static inline void set_hole(hole_type& hole, const hole_source_type& source, concept_type) {
+    hole.set(polygon_traits<hole_source_type, gtl_yes>::begin_points(source),
+             polygon_traits<hole_source_type, gtl_yes>::end_points(source));
+  }
+
 public:
   polygon_data<coordinate_type> self_;
   std::list<hole_type> holes_;
-- 
2.43.0


From bf5da60acc8cc99fdd1af8a27fbb7520d266124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 58/60] fix: declare the directional polygon_90_set overloads
 before their first use

---
 .../boost/polygon/polygon_90_set_concept.hpp  | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 6de4ca3..b35385d 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -206,6 +206,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  bloat(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -266,6 +275,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
+                       polygon_set_type>::type &
+  shrink(polygon_set_type& polygon_set,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_shrinking,
+        typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_shrinking);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -352,6 +370,15 @@ namespace boost { namespace polygon{
     return polygon_set;
   }
 
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type,
+                       polygon_set_type>::type &
+  grow_and(polygon_set_type& polygon_set,
+           typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type west_bloating,
+           typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type east_bloating,
+           typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type south_bloating,
+           typename coordinate_traits<typename polygon_90_set_traits<polygon_set_type>::coordinate_type>::unsigned_area_type north_bloating);
+
   template <typename polygon_set_type>
   typename enable_if< typename is_mutable_polygon_90_set_type<polygon_set_type>::type,
                        polygon_set_type>::type &
@@ -464,6 +491,14 @@ namespace boost { namespace polygon{
   struct y_p_s_move : gtl_yes {};
 
   //move
+  struct y_p_s_move2 : gtl_yes {};
+
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_and<y_p_s_move2, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
+                      polygon_set_type>::type &
+  move(polygon_set_type& polygon_set, typename polygon_90_set_traits<polygon_set_type>::coordinate_type x_displacement,
+  typename polygon_90_set_traits<polygon_set_type>::coordinate_type y_displacement);
+
   template <typename polygon_set_type>
   typename enable_if< typename gtl_and<y_p_s_move, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
                       polygon_set_type>::type &
@@ -485,8 +520,6 @@ namespace boost { namespace polygon{
     return move(polygon_set, orientation_2d(orient), displacement);
   }
 
-  struct y_p_s_move2 : gtl_yes {};
-
   template <typename polygon_set_type>
   typename enable_if< typename gtl_and<y_p_s_move2, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
                       polygon_set_type>::type &
-- 
2.43.0


From 6001ad2b2227db1c20d343b2b32ed135c7dc2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 59/60] fix: contains of a polygon with holes finds the
 overload for the holes

---
 include/boost/polygon/polygon_traits.hpp | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 6f14511..67f2049 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1302,27 +1302,6 @@ namespace boost { namespace polygon{
     }
   };
 
-  template <typename T, typename input_point_type>
-  typename enable_if<
-    typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T>::type,
-                      typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
-    bool>::type
-  contains(const T& polygon, const input_point_type& point, bool consider_touch = true) {
-    typedef typename polygon_with_holes_traits<T>::iterator_holes_type holes_iterator;
-    bool isInside = contains( view_as< typename polygon_from_polygon_with_holes_type<
-                              typename geometry_concept<T>::type>::type>( polygon ), point, consider_touch );
-    if(!isInside) return false; //no need to check holes
-    holes_iterator itH = begin_holes( polygon );
-    while( itH != end_holes( polygon ) ) {
-      if(  contains( *itH, point, !consider_touch )  ) {
-        isInside = false;
-        break;
-      }
-      ++itH;
-    }
-    return isInside;
-  }
-
   template <typename T, typename input_point_type>
   typename enable_if<
     typename gtl_and_3<
@@ -1389,6 +1368,27 @@ namespace boost { namespace polygon{
     return above % 2 != 0; //if the point is above an odd number of edges is must be inside polygon
   }
 
+  template <typename T, typename input_point_type>
+  typename enable_if<
+    typename gtl_and< typename is_any_mutable_polygon_with_holes_type<T>::type,
+                      typename gtl_same_type<typename geometry_concept<input_point_type>::type, point_concept>::type>::type,
+    bool>::type
+  contains(const T& polygon, const input_point_type& point, bool consider_touch = true) {
+    typedef typename polygon_with_holes_traits<T>::iterator_holes_type holes_iterator;
+    bool isInside = contains( view_as< typename polygon_from_polygon_with_holes_type<
+                              typename geometry_concept<T>::type>::type>( polygon ), point, consider_touch );
+    if(!isInside) return false; //no need to check holes
+    holes_iterator itH = begin_holes( polygon );
+    while( itH != end_holes( polygon ) ) {
+      if(  contains( *itH, point, !consider_touch )  ) {
+        isInside = false;
+        break;
+      }
+      ++itH;
+    }
+    return isInside;
+  }
+
   /*
   template <typename T, typename input_point_type>
   typename enable_if<
-- 
2.43.0


From b0ee94edb97f61f8561e4cb1c256bba7ecf680ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 60/60] fix: slicing into polygons of bounded size survives
 edges that meet on one scanline

---
 .../polygon/detail/polygon_formation.hpp      | 125 ++++++++++--------
 1 file changed, 73 insertions(+), 52 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index f4c0d70..c43cd44 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -711,7 +711,9 @@ namespace polygon_formation {
     *
     **********************************************************************/
     void updatePartialSimplePolygonsWithRightEdges(Unit currentX,
-         const std::vector<interval_data<Unit> >& leftEdges, size_t threshold);
+         const std::vector<interval_data<Unit> >& rightEdges, size_t threshold,
+         const std::vector<interval_data<Unit> >& leftEdges,
+         std::vector<interval_data<Unit> >& pseudoLeftEdges);
 
     void updatePartialSimplePolygonsWithLeftEdges(Unit currentX,
          const std::vector<interval_data<Unit> >& leftEdges, size_t threshold);
@@ -1561,7 +1563,7 @@ namespace polygon_formation {
       createActiveTailsAsPair(currentX, yBegin, true, currentTail,
          fractureHoles_);
      currentTail = tailPair.first;
-     if(!tailMap_.empty()){
+     if(hint != tailMap_.end()){
         ++hint;
      }
      hint = tailMap_.insert(hint, std::make_pair(yBegin, tailPair.second));
@@ -1603,6 +1605,10 @@ namespace polygon_formation {
      ActiveTail<Unit> *pfig, *ppfig;
      std::pair<ActiveTail<Unit>*, ActiveTail<Unit>*> tailPair;
      size_t pfig_size = 0;
+     //top of the figure which the previous left edge opened or changed: such a
+     //figure cannot be cut off at currentX any more
+     bool haveTop = false;
+     Unit top = 0;
 
      hint = tailMap_.begin();
      for(size_t i=0; i < leftEdges.size(); i++){
@@ -1613,13 +1619,23 @@ namespace polygon_formation {
         if(succ != tailMap_.end() && pred != tailMap_.end()){ //CASE-1//
            //join the corresponding active tails//
            pfig = succ->second; ppfig = pred->second;
-           pfig_size = pfig->getPolyLineSize() + ppfig->getPolyLineSize();
+           //does the lower piece end at currentX already: stretching it then
+           //adds no vertices
+           bool fresh = (pfig->getTail()->getEndPoint().get(HORIZONTAL) == currentX);
+           bool changed = haveTop && top == begin;
+           pred1 = pred; ++pred1;
+           assert(pred1 != tailMap_.end());
+           haveTop = true; top = pred1->first;
+           //the next left edge will add two vertices to the upper piece
+           size_t ahead = (i+1 < leftEdges.size() && leftEdges[i+1].get(LOW) == top) ? 2 : 0;
+           pfig_size = pfig->getPolyLineSize() + ppfig->getPolyLineSize() + ahead + 1
+             - (fresh ? 2 : 0);
 
            if(pfig_size >= vertexThreshold){
               size_t bsize = pfig->getPolyLineSize();
               size_t usize = ppfig->getPolyLineSize();
 
-              if(usize+2 < vertexThreshold){
+              if(!changed && usize+2+ahead < vertexThreshold){
                  //cut-off the lower piece (succ1, succ) join (succ1, pred)//
                  succ1 = succ; --succ1;
                  assert((succ1 != tailMap_.end()) &&
@@ -1632,7 +1648,7 @@ namespace polygon_formation {
                  succ1->second = tailPair.second;
                  ActiveTail<Unit>::joinChains(tailPair.first, pred->second, true,
                      outputPolygons_);
-              }else if(bsize+2 < vertexThreshold){
+              }else if(changed || bsize+2 < vertexThreshold){
                  //cut-off the upper piece () join ()//
                  pred1 = pred; ++pred1;
                  assert(pred1 != tailMap_.end() &&
@@ -1675,10 +1691,16 @@ namespace polygon_formation {
            hint = tailMap_.insert(hint, std::make_pair(begin, tailPair.second));
 
            pfig = pred->second;
+           pred1 = pred; ++pred1;
+           assert(pred1 != tailMap_.end());
+           haveTop = true; top = pred1->first;
            pfig_size = pfig->getPolyLineSize() + 2;
+           if(i+1 < leftEdges.size() && leftEdges[i+1].get(LOW) == top){
+              //the next left edge will add two more//
+              pfig_size += 2;
+           }
            if(pfig_size >= vertexThreshold){
               //cut-off piece from [pred, pred1] , add [begin, pred1]//
-              pred1 = pred; ++pred1;
               assert((pred1 != tailMap_.end()) &&
                ((pred1->second)->getOtherActiveTail() == pred->second));
               closePartialSimplePolygon(currentX, pred->second, pred1->second);
@@ -1698,7 +1720,7 @@ namespace polygon_formation {
             hint = tailMap_.insert(hint, std::make_pair(end, (ActiveTail<Unit> *) NULL));
             pfig = succ->second;
             pfig_size = pfig->getPolyLineSize() + 2;
-            if(pfig_size >= vertexThreshold){
+            if(!(haveTop && top == begin) && pfig_size >= vertexThreshold){
                //this figure needs cutting here//
                succ1 = succ; --succ1;
                assert((succ1 != tailMap_.end()) &&
@@ -1729,13 +1751,14 @@ namespace polygon_formation {
   template<bool orientT, typename Unit, typename polygon_concept_type>
   inline void ScanLineToPolygonItrs<orientT, Unit, polygon_concept_type>::
   updatePartialSimplePolygonsWithRightEdges(Unit currentX,
-   const std::vector<interval_data<Unit> > &rightEdges, size_t vertexThreshold)
+   const std::vector<interval_data<Unit> > &rightEdges, size_t vertexThreshold,
+   const std::vector<interval_data<Unit> > &leftEdges,
+   std::vector<interval_data<Unit> > &pseudoLeftEdges)
    {
 
      typename std::map<Unit, ActiveTail<Unit>* >::iterator succ, pred, hint;
-     std::pair<ActiveTail<Unit>*, ActiveTail<Unit>*> tailPair;
      Unit begin, end;
-     size_t i = 0;
+     size_t i = 0, li = 0;
      //If rightEdges is non-empty Then tailMap_ is non-empty //
      assert(rightEdges.empty() || !tailMap_.empty() );
 
@@ -1759,7 +1782,6 @@ namespace polygon_formation {
         //Invariant://
         assert(succ->second && (pfig)->getOtherActiveTail() == ppfig);
 
-        hint = succ;
         Unit key = rightEdges[i].get(LOW);
         if(begin != key){
            found_solid_opening = true;
@@ -1773,9 +1795,8 @@ namespace polygon_formation {
                  solid_opening_begin = rightEdges[j-1].get(HIGH);
                  solid_opening_end = rightEdges[j].get(LOW);
               }else{
-                 ++hint;
-                 insertNewLeftEdgeIntoTailMap(currentX,
-                     rightEdges[j-1].get(HIGH), rightEdges[j].get(LOW), hint);
+                 pseudoLeftEdges.push_back(interval_data<Unit>(
+                     rightEdges[j-1].get(HIGH), rightEdges[j].get(LOW)));
               }
            }
            j++;
@@ -1789,52 +1810,33 @@ namespace polygon_formation {
            }else{
               // a solid opening has been found already, we need to insert a new left
               // between [rightEdges[j-1].get(HIGH), end]
-              Unit lbegin = rightEdges[j-1].get(HIGH);
-              tailPair = createActiveTailsAsPair<Unit>(currentX, lbegin, true, NULL,
-                  fractureHoles_);
-              hint = tailMap_.insert(pred, std::make_pair(lbegin, tailPair.second));
-              pred->second = tailPair.first;
-              (tailPair.first)->pushCoordinate(end);
-              erase_pred = false;
+              pseudoLeftEdges.push_back(interval_data<Unit>(
+                  rightEdges[j-1].get(HIGH), end));
            }
         }
 
         size_t vertex_delta = ((begin != solid_opening_begin) &&
                (end != solid_opening_end)) ? 4 : 2;
 
+        //a left edge which touches what stays of the figure adds two more
+        while(li < leftEdges.size() && leftEdges[li].get(HIGH) < begin) li++;
+        if(li < leftEdges.size() && leftEdges[li].get(HIGH) == begin){
+           if(begin == solid_opening_begin) vertex_delta += 2;
+           li++;
+        }
+        if(end == solid_opening_end && li < leftEdges.size() &&
+           leftEdges[li].get(LOW) == end) vertex_delta += 2;
+
         if(!found_solid_opening){
            //just close the figure, TODO: call closePartialPolygon//
            pfig->pushCoordinate(currentX);
            ActiveTail<Unit>::joinChains(pfig, ppfig, false, outputPolygons_);
-           hint = pred; ++hint;
         }else if(partial_fig_size+vertex_delta >= vertexThreshold){
-           //close the figure and add a pseudo left-edge//
+           //close the figure and report a pseudo left-edge//
            closePartialSimplePolygon(currentX, pfig, ppfig);
            assert(begin != solid_opening_begin || end != solid_opening_end);
-
-           if(begin != solid_opening_begin && end != solid_opening_end){
-               insertNewLeftEdgeIntoTailMap(currentX, solid_opening_begin,
-                     solid_opening_end, hint);
-           }else if(begin == solid_opening_begin){
-              //we just need to update the succ in the tailMap_//
-              tailPair = createActiveTailsAsPair<Unit>(currentX, solid_opening_begin,
-                  true, NULL, fractureHoles_);
-              succ->second = tailPair.second;
-              hint = succ; ++hint;
-              hint = tailMap_.insert(pred, std::make_pair(solid_opening_end,
-                  tailPair.first));
-              (tailPair.first)->pushCoordinate(solid_opening_end);
-              erase_succ = false;
-           }else{
-              //we just need to update the pred in the tailMap_//
-              tailPair = createActiveTailsAsPair<Unit>(currentX, solid_opening_begin,
-                  true, NULL, fractureHoles_);
-              hint = tailMap_.insert(pred, std::make_pair(solid_opening_begin,
-                  tailPair.second));
-              pred->second = tailPair.first;
-              (tailPair.first)->pushCoordinate(solid_opening_end);
-              erase_pred = false;
-           }
+           pseudoLeftEdges.push_back(interval_data<Unit>(solid_opening_begin,
+               solid_opening_end));
         }else{
            //continue the figure (by adding at-most two new vertices)//
            if(begin != solid_opening_begin){
@@ -1882,12 +1884,31 @@ namespace polygon_formation {
       const std::vector<interval_data<Unit> >& r, size_t vertexThreshold) {
 
       clearOutput_();
-      if(!l.empty()){
-         updatePartialSimplePolygonsWithLeftEdges(currentX, l, vertexThreshold);
-      }
-
+      // The right edges come first: they only meet figures which already have
+      // a width. What they leave solid and detached from the figures starts
+      // new figures at currentX, together with the left edges it touches.
+      std::vector<interval_data<Unit> > leftEdges;
       if(!r.empty()){
-         updatePartialSimplePolygonsWithRightEdges(currentX, r, vertexThreshold);
+         updatePartialSimplePolygonsWithRightEdges(currentX, r, vertexThreshold,
+             l, leftEdges);
+      }
+      if(leftEdges.empty()){
+         leftEdges = l;
+      }else{
+         leftEdges.insert(leftEdges.end(), l.begin(), l.end());
+         std::sort(leftEdges.begin(), leftEdges.end());
+         size_t last = 0;
+         for(size_t i=1; i < leftEdges.size(); i++){
+            if(leftEdges[last].get(HIGH) == leftEdges[i].get(LOW)){
+               leftEdges[last].set(HIGH, leftEdges[i].get(HIGH));
+            }else{
+               leftEdges[++last] = leftEdges[i];
+            }
+         }
+         leftEdges.resize(last + 1);
+      }
+      if(!leftEdges.empty()){
+         updatePartialSimplePolygonsWithLeftEdges(currentX, leftEdges, vertexThreshold);
       }
       beginOutput = outputPolygons_.begin();
       endOutput = outputPolygons_.end();
-- 
2.43.0


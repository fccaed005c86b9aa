From 6e4f28f00e48d070a1ab64e33962f0b142485a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 01/29] fix: interval set() keeps low <= high as documented

The documentation of set(interval, direction_1d, coordinate) says that when
low would become greater than high both are set to the value; set() stored an
inverted interval instead, and so did shrink() by more than half the length.
move() read a bound after writing the other one and is made order independent.
---
 include/boost/polygon/interval_concept.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 3eeec0f..4cb76c6 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -111,6 +111,10 @@ typename enable_if<
 >::type set(IntervalType& interval, direction_1d dir,
     typename interval_mutable_traits<IntervalType>::coordinate_type value) {
   interval_mutable_traits<IntervalType>::set(interval, dir, value);
+  if (interval_traits<IntervalType>::get(interval, LOW) >
+      interval_traits<IntervalType>::get(interval, HIGH)) {
+    interval_mutable_traits<IntervalType>::set(interval, dir.backward(), value);
+  }
 }
 
 struct y_i_construct : gtl_yes {};
@@ -431,10 +435,12 @@ typename enable_if<
     typename interval_difference_type<IntervalType>::type displacement) {
   typedef typename interval_coordinate_type<IntervalType>::type ctype;
   typedef typename coordinate_traits<ctype>::coordinate_difference Unit;
-  low(interval, static_cast<ctype>(
-      static_cast<Unit>(low(interval)) + displacement));
-  high(interval, static_cast<ctype>(
-      static_cast<Unit>(high(interval)) + displacement));
+  ctype newLow = static_cast<ctype>(
+      static_cast<Unit>(low(interval)) + displacement);
+  ctype newHigh = static_cast<ctype>(
+      static_cast<Unit>(high(interval)) + displacement);
+  low(interval, newLow);
+  high(interval, newHigh);
   return interval;
 }
 
-- 
2.43.0


From d8738a5a13e14fb73c9352de0418f7e3d1b9281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 02/29] fix: intersect of rectangles honours consider_touch

Rectangles that only touch were reported as intersecting (and partly clipped)
with consider_touch false.
---
 include/boost/polygon/rectangle_concept.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index e824319..0fffa35 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -642,9 +642,9 @@ namespace boost { namespace polygon{
                                          typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        bool>::type
   intersect(rectangle_type_1& rectangle, const rectangle_type_2& b, bool consider_touch = true) {
-    if(intersects(rectangle, b)) {
-      intersect(rectangle, horizontal(b), HORIZONTAL, consider_touch);
-      intersect(rectangle, vertical(b), VERTICAL, consider_touch);
+    if(intersects(rectangle, b, consider_touch)) {
+      intersect(rectangle, horizontal(b), HORIZONTAL);
+      intersect(rectangle, vertical(b), VERTICAL);
       return true;
     }
     return false;
-- 
2.43.0


From 6112eb9e660298c08ffaa33ad4dc7ec23b9d16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 03/29] fix: scale of a rectangle keeps its upper right corner

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 0fffa35..d05b6d9 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -996,7 +996,7 @@ namespace boost { namespace polygon{
                      rectangle_type>::type &
   scale(rectangle_type& rectangle, const scaling_type& scaling) {
     point_data<typename rectangle_coordinate_type<rectangle_type>::type> llp(xl(rectangle), yl(rectangle));
-    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xl(rectangle), yl(rectangle));
+    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xh(rectangle), yh(rectangle));
     scale(llp, scaling);
     scale(urp, scaling);
     set_points(rectangle, llp, urp);
-- 
2.43.0


From 2036b02b372567cb7fdf6f5fc6a57ac8eba40569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 04/29] fix: euclidean distance of rectangles does not truncate
 the square to int

---
 include/boost/polygon/rectangle_concept.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index d05b6d9..5e4b8af 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -929,8 +929,7 @@ namespace boost { namespace polygon{
                                                           typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
   euclidean_distance(const rectangle_type& lvalue, const rectangle_type_2& rvalue) {
-    double val = (int)square_euclidean_distance(lvalue, rvalue);
-    return std::sqrt(val);
+    return std::sqrt((double)(square_euclidean_distance(lvalue, rvalue)));
   }
 
   struct y_r_mdist : gtl_yes {};
-- 
2.43.0


From 2092a4f5dad86ec5ce3d2b596f7ee1285bc1b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 05/29] fix: axis distance of points does not overflow the
 coordinate type

---
 include/boost/polygon/point_concept.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index 4d4c1dd..bfc6ba9 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -285,8 +285,8 @@ euclidean_distance(
     const PointType1& point1,
     const PointType2& point2,
     orientation_2d orient) {
-  typename point_difference_type<PointType1>::type dif =
-      get(point1, orient) - get(point2, orient);
+  typedef typename point_difference_type<PointType1>::type Unit;
+  Unit dif = (Unit)get(point1, orient) - (Unit)get(point2, orient);
   return (dif < 0) ? -dif : dif;
 }
 
-- 
2.43.0


From 0ebec058289ac45cc166ea20dfe8ce24a7f108f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 06/29] fix: anisotropic scale uses the vertical factor for y

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..195393b 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From 80d7d533454e286780bf8362f55798f0eae15866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 07/29] fix: concatenation of transformations uses the
 translation of the right operand

It read uninitialised coordinates instead.
---
 include/boost/polygon/transform.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 195393b..ac97881 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -405,9 +405,8 @@ class transformation {
 
   // concatenate this with that
   const transformation& operator+=(const transformation& tr) {
-    coordinate_type x, y;
-    transformation<coordinate_type> inv = inverse();
-    inv.transform(x, y);
+    coordinate_type x = tr.p_.get(HORIZONTAL), y = tr.p_.get(VERTICAL);
+    atr_.inverse().transform(x, y);
     p_.set(HORIZONTAL, p_.get(HORIZONTAL) + x);
     p_.set(VERTICAL, p_.get(VERTICAL) + y);
     // concatenate axis transforms
-- 
2.43.0


From da0100c314ec2e7a6459e8aa20d326b5b2133914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 08/29] fix: combine_axis_arrays composes the two axis mappings

---
 include/boost/polygon/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index ac97881..6808540 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -194,10 +194,10 @@ class axis_transformation {
       { this_array[0] & 1, this_array[1] & 1 },
       { that_array[0] & 1, that_array[1] & 1 }
     };
-    this_array[0] = (INDIVIDUAL_AXIS)((int)this_array[0] |
+    this_array[0] = (INDIVIDUAL_AXIS)(((int)that_array[indexes[0]] & 2) |
                                       ((int)zero_bits[0][0] ^
                                        (int)zero_bits[1][indexes[0]]));
-    this_array[1] = (INDIVIDUAL_AXIS)((int)this_array[1] |
+    this_array[1] = (INDIVIDUAL_AXIS)(((int)that_array[indexes[1]] & 2) |
                                       ((int)zero_bits[0][1] ^
                                        (int)zero_bits[1][indexes[1]]));
   }
-- 
2.43.0


From 6c79af11d191c7f17f4135dd98813c6ae2e37683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 09/29] fix: get_corner compiles and turns as documented

It called get with a direction_2d, which no overload accepts.
---
 include/boost/polygon/rectangle_concept.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 5e4b8af..038bfbf 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -819,8 +819,9 @@ namespace boost { namespace polygon{
     bool>::type
   get_corner(point_type& corner_point, const rectangle_type& rectangle, direction_2d direction_facing, direction_1d direction_turning) {
     typedef typename rectangle_coordinate_type<rectangle_type>::type Unit;
-    Unit u1 = get(rectangle, direction_facing);
-    Unit u2 = get(rectangle, direction_facing.turn(direction_turning));
+    direction_2d direction_side = (direction_turning == LOW) ? direction_facing.left() : direction_facing.right();
+    Unit u1 = get(rectangle, orientation_2d(direction_facing), direction_1d(direction_facing));
+    Unit u2 = get(rectangle, orientation_2d(direction_side), direction_1d(direction_side));
     if(orientation_2d(direction_facing).to_int()) std::swap(u1, u2);
     corner_point = construct<point_type>(u1, u2);
     return true;
-- 
2.43.0


From 1004d9a1d5ee7b34ccc86ad50ab4d228b46a9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 10/29] fix: distance of a point to a degenerate segment

---
 include/boost/polygon/segment_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 2f41c1b..e59a1a7 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -656,7 +656,7 @@ euclidean_distance(const Segment& segment, const Point& point) {
     return euclidean_distance(low(segment), point);
   }
   if (length_sq == 0.0)
-    return 0.0;
+    return euclidean_distance(low(segment), point);
   Unit denom = std::sqrt(length_sq);
   Unit result = (A * D - C * B) / denom;
   return (result < 0.0) ? -result : result;
-- 
2.43.0


From 0101303c989034d605eaaedce1c3fff6f7ea001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 11/29] fix: slope comparison of sweep edges does not overflow
 the coordinate type

---
 .../detail/polygon_arbitrary_formation.hpp    | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
index 5cc387c..00e91d1 100644
--- a/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
+++ b/include/boost/polygon/detail/polygon_arbitrary_formation.hpp
@@ -332,10 +332,11 @@ namespace boost { namespace polygon{
           } else if(elm1y == elm2y) {
             if(elm1 == elm2)
               return false;
-            retval = less_slope(elm1.second.get(HORIZONTAL) - elm1.first.get(HORIZONTAL),
-                                     elm1.second.get(VERTICAL) - elm1.first.get(VERTICAL),
-                                     elm2.second.get(HORIZONTAL) - elm2.first.get(HORIZONTAL),
-                                     elm2.second.get(VERTICAL) - elm2.first.get(VERTICAL));
+            typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+            retval = less_slope((at)elm1.second.get(HORIZONTAL) - (at)elm1.first.get(HORIZONTAL),
+                                     (at)elm1.second.get(VERTICAL) - (at)elm1.first.get(VERTICAL),
+                                     (at)elm2.second.get(HORIZONTAL) - (at)elm2.first.get(HORIZONTAL),
+                                     (at)elm2.second.get(VERTICAL) - (at)elm2.first.get(VERTICAL));
             retval = ((*justBefore_) != 0) ^ retval;
           }
         }
@@ -825,10 +826,11 @@ namespace boost { namespace polygon{
           } else if(elm1y == elm2y) {
             if(elm1.pt == elm2.pt && elm1.other_pt == elm2.other_pt)
               return false;
-            retval = less_slope(elm1.other_pt.get(HORIZONTAL) - elm1.pt.get(HORIZONTAL),
-                                     elm1.other_pt.get(VERTICAL) - elm1.pt.get(VERTICAL),
-                                     elm2.other_pt.get(HORIZONTAL) - elm2.pt.get(HORIZONTAL),
-                                     elm2.other_pt.get(VERTICAL) - elm2.pt.get(VERTICAL));
+            typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+            retval = less_slope((at)elm1.other_pt.get(HORIZONTAL) - (at)elm1.pt.get(HORIZONTAL),
+                                     (at)elm1.other_pt.get(VERTICAL) - (at)elm1.pt.get(VERTICAL),
+                                     (at)elm2.other_pt.get(HORIZONTAL) - (at)elm2.pt.get(HORIZONTAL),
+                                     (at)elm2.other_pt.get(VERTICAL) - (at)elm2.pt.get(VERTICAL));
             retval = ((*justBefore_) != 0) ^ retval;
           }
         }
@@ -1236,10 +1238,11 @@ namespace boost { namespace polygon{
       inline less_incoming_count(Point point) : pt_(point) {}
       inline bool operator () (const std::pair<std::pair<std::pair<Point, Point>, int>, active_tail_arbitrary*>& elm1,
                                const std::pair<std::pair<std::pair<Point, Point>, int>, active_tail_arbitrary*>& elm2) const {
-        Unit dx1 = elm1.first.first.first.get(HORIZONTAL) - elm1.first.first.second.get(HORIZONTAL);
-        Unit dx2 = elm2.first.first.first.get(HORIZONTAL) - elm2.first.first.second.get(HORIZONTAL);
-        Unit dy1 = elm1.first.first.first.get(VERTICAL) - elm1.first.first.second.get(VERTICAL);
-        Unit dy2 = elm2.first.first.first.get(VERTICAL) - elm2.first.first.second.get(VERTICAL);
+        typedef typename coordinate_traits<Unit>::manhattan_area_type at;
+        at dx1 = (at)elm1.first.first.first.get(HORIZONTAL) - (at)elm1.first.first.second.get(HORIZONTAL);
+        at dx2 = (at)elm2.first.first.first.get(HORIZONTAL) - (at)elm2.first.first.second.get(HORIZONTAL);
+        at dy1 = (at)elm1.first.first.first.get(VERTICAL) - (at)elm1.first.first.second.get(VERTICAL);
+        at dy2 = (at)elm2.first.first.first.get(VERTICAL) - (at)elm2.first.first.second.get(VERTICAL);
         return scanline_base<Unit>::less_slope(dx1, dy1, dx2, dy2);
       }
     };
-- 
2.43.0


From 4e0f063695be6b11c298130dec417156ccec1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 12/29] fix: big integer of the least integer does not overflow

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 078d935..7860445 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -234,7 +234,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0U - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
@@ -247,9 +247,9 @@ class extended_int {
       this->chunks_[1] = that >> 32;
       this->count_ = this->chunks_[1] ? 2 : 1;
     } else if (that < 0) {
-      that = -that;
-      this->chunks_[0] = static_cast<uint32>(that);
-      this->chunks_[1] = that >> 32;
+      uint64 val = 0U - static_cast<uint64>(that);
+      this->chunks_[0] = static_cast<uint32>(val);
+      this->chunks_[1] = static_cast<uint32>(val >> 32);
       this->count_ = this->chunks_[1] ? -2 : -1;
     } else {
       this->count_ = 0;
@@ -275,7 +275,7 @@ class extended_int {
       this->chunks_[0] = that;
       this->count_ = 1;
     } else if (that < 0) {
-      this->chunks_[0] = -that;
+      this->chunks_[0] = 0U - static_cast<uint32>(that);
       this->count_ = -1;
     } else {
       this->count_ = 0;
@@ -289,9 +289,9 @@ class extended_int {
       this->chunks_[1] = that >> 32;
       this->count_ = this->chunks_[1] ? 2 : 1;
     } else if (that < 0) {
-      that = -that;
-      this->chunks_[0] = static_cast<uint32>(that);
-      this->chunks_[1] = that >> 32;
+      uint64 val = 0U - static_cast<uint64>(that);
+      this->chunks_[0] = static_cast<uint32>(val);
+      this->chunks_[1] = static_cast<uint32>(val >> 32);
       this->count_ = this->chunks_[1] ? -2 : -1;
     } else {
       this->count_ = 0;
-- 
2.43.0


From ad05f03266e9fd6876c2f790ccc147b7a5e6ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 13/29] fix: big integer difference drops every leading zero
 chunk

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 7860445..e5200c4 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -535,7 +535,7 @@ class extended_int {
       }
       sz2 = sz1;
     }
-    this->count_ = static_cast<int32>(sz1-1);
+    this->count_ = static_cast<int32>(sz1);
     bool flag = false;
     for (std::size_t i = 0; i < sz2; ++i) {
       this->chunks_[i] = c1[i] - c2[i] - (flag?1:0);
@@ -545,8 +545,8 @@ class extended_int {
       this->chunks_[i] = c1[i] - (flag?1:0);
       flag = !c1[i] && flag;
     }
-    if (this->chunks_[this->count_])
-      ++this->count_;
+    while (this->count_ && !this->chunks_[this->count_ - 1])
+      --this->count_;
   }
 
   void mul(const uint32* c1, std::size_t sz1,
-- 
2.43.0


From eb0c2594b3f132e42aa68cf7ff101d44d4a6f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 14/29] fix: adding an extended-exponent zero keeps the other
 operand

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index e5200c4..cdcb965 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -115,8 +115,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator+(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return that;
     }
     if (that.val_ == 0.0 ||
@@ -135,8 +135,8 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator-(const extended_exponent_fpt& that) const {
-    if (this->val_ == 0.0 ||
-        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->val_ == 0.0 || (that.val_ != 0.0 &&
+        that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF)) {
       return extended_exponent_fpt(-that.val_, that.exp_);
     }
     if (that.val_ == 0.0 ||
-- 
2.43.0


From 6d5be89c5387d770d1f3bfc2c1a01056ed4b6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 15/29] fix: robust cross product of extreme coordinates does
 not wrap

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..bc49884 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -68,10 +68,10 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -((l + r < l) ? to_fpt(l) + to_fpt(r) : to_fpt(l + r));
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return (l + r < l) ? to_fpt(l) + to_fpt(r) : to_fpt(l + r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
-- 
2.43.0


From f89ed3b6711669bce99b215da6346bfa3e500ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 16/29] fix: Voronoi circle through two points and a segment
 needs the tangent point on the right side

The existence predicate accepted the circle for the wrong rotation of its three
arcs when the points run with the sweep, so an arc could be removed that does
not vanish there (e.g. points (2,-4), (4,0) and segment (13,1)-(-10,-1)).
---
 include/boost/polygon/detail/voronoi_predicates.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index bc49884..2d90e48 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -480,10 +480,12 @@ class voronoi_predicates {
             site1.point0(), site2.point0(), site3.point0());
         typename ot::Orientation orient2 = ot::eval(
             site1.point0(), site2.point0(), site3.point1());
-        if (segment_index == 1 && site1.x0() >= site2.x0()) {
+        if (segment_index == 1 &&
+            (site1.x0() >= site2.x0() || !site3.is_inverse())) {
           if (orient1 != ot::RIGHT)
             return false;
-        } else if (segment_index == 3 && site2.x0() >= site1.x0()) {
+        } else if (segment_index == 3 &&
+            (site2.x0() >= site1.x0() || site3.is_inverse())) {
           if (orient2 != ot::RIGHT)
             return false;
         } else if (orient1 != ot::RIGHT && orient2 != ot::RIGHT) {
-- 
2.43.0


From e2981a4a1d5126d74ac5c777d584f1b6442c6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 17/29] fix: check every hole, not the outer boundary again, in
 is_45 of polygons with holes

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e3d1859..2f31ca0 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1055,7 +1055,7 @@ namespace boost { namespace polygon{
     typename polygon_with_holes_traits<polygon_type>::iterator_holes_type itrh = begin_holes(polygon), itrh_end = end_holes(polygon);
     typedef typename polygon_with_holes_traits<polygon_type>::hole_type hole_type;
     for(; itrh != itrh_end; ++ itrh) {
-      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(polygon), itr1_end = end_points(polygon);
+      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(*itrh), itr1_end = end_points(*itrh);
       if(!point_sequence_is_45(itr1, itr1_end)) return false;
     }
     return true;
-- 
2.43.0


From 90c0b89cf0c74b57859bc0789feaf55d9dd9b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:21 +0000
Subject: [PATCH 18/29] fix: compare edge extents in the difference type in
 is_45

---
 include/boost/polygon/polygon_traits.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index 2f31ca0..c7c5a50 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1024,23 +1024,23 @@ namespace boost { namespace polygon{
   template <typename iT>
   bool point_sequence_is_45(iT itr, iT itr_end) {
     typedef typename std::iterator_traits<iT>::value_type Point;
-    typedef typename point_traits<Point>::coordinate_type Unit;
+    typedef typename coordinate_traits<typename point_traits<Point>::coordinate_type>::coordinate_difference Unit;
     if(itr == itr_end) return true;
     Point firstPt = *itr;
     Point prevPt = firstPt;
     ++itr;
     while(itr != itr_end) {
       Point pt = *itr;
-      Unit deltax = x(pt) - x(prevPt);
-      Unit deltay = y(pt) - y(prevPt);
+      Unit deltax = (Unit)x(pt) - (Unit)x(prevPt);
+      Unit deltay = (Unit)y(pt) - (Unit)y(prevPt);
       if(deltax && deltay &&
          local_abs(deltax) != local_abs(deltay))
         return false;
       prevPt = pt;
       ++itr;
     }
-    Unit deltax = x(firstPt) - x(prevPt);
-    Unit deltay = y(firstPt) - y(prevPt);
+    Unit deltax = (Unit)x(firstPt) - (Unit)x(prevPt);
+    Unit deltay = (Unit)y(firstPt) - (Unit)y(prevPt);
     if(deltax && deltay &&
        local_abs(deltax) != local_abs(deltay))
       return false;
-- 
2.43.0


From 35ce0968775a4663e6a0651e671e077e80f9d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 19/29] fix: boolean of other geometry with a set of the other
 scanline orientation

The edges of the right operand were read as if they had the orientation of
the left one.
---
 include/boost/polygon/detail/polygon_90_set_view.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..9c2960a 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -110,6 +110,13 @@ namespace boost { namespace polygon{
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
         insert_into_view_arg(linput_, lvalue_, orient_l);
+        if(orient_ != rvalue_.orient()) {
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, rvalue_.orient());
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+          return;
+        }
         rvalue_.sort();
         //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
         //          << "," << orient_.to_int() << std::endl;
-- 
2.43.0


From 209b2c2338588c9d8217e2e028f9055a6e6487aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 20/29] fix: connectivity extraction of sets with vertical
 scanline orientation

Their coordinates were taken transposed, so they did not link correctly with
other geometry.
---
 include/boost/polygon/polygon_90_set_data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..3be7765 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -965,6 +965,11 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      if(ps.orient() != orientation_2d(HORIZONTAL)) {
+        polygon_90_set_data<coordinate_type> ps2(HORIZONTAL);
+        ps2.insert(ps);
+        return insert(ps2);
+      }
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From 3c079ded6ea3177fafea53c8fb08d5c73fab98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 21/29] fix: BinaryCount subtraction added

---
 include/boost/polygon/detail/boolean_op.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/boolean_op.hpp b/include/boost/polygon/detail/boolean_op.hpp
index 0c674a2..701bf99 100644
--- a/include/boost/polygon/detail/boolean_op.hpp
+++ b/include/boost/polygon/detail/boolean_op.hpp
@@ -243,8 +243,8 @@ namespace boolean_op {
   }
   template <class T>
   inline BinaryCount<T>& BinaryCount<T>::operator-=(const BinaryCount<T>& that) {
-    counts_[0] += that.counts_[0];
-    counts_[1] += that.counts_[1];
+    counts_[0] -= that.counts_[0];
+    counts_[1] -= that.counts_[1];
     return *this;
   }
   template <class T>
-- 
2.43.0


From 8ef37b1533b49296fb0fa485396d35427bf16c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 22/29] fix: polygon_90_set_data range constructor ignored the
 scanline orientation

---
 include/boost/polygon/polygon_90_set_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 3be7765..9e4c793 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -46,8 +46,8 @@ namespace boost { namespace polygon{
 
     // constructor from an iterator pair over vertex data
     template <typename iT>
-    inline polygon_90_set_data(orientation_2d, iT input_begin, iT input_end) :
-      orient_(HORIZONTAL), data_(), dirty_(false), unsorted_(false) {
+    inline polygon_90_set_data(orientation_2d orient, iT input_begin, iT input_end) :
+      orient_(orient), data_(), dirty_(false), unsorted_(false) {
       dirty_ = true;
       unsorted_ = true;
       for( ; input_begin != input_end; ++input_begin) { insert(*input_begin); }
-- 
2.43.0


From c92a1fa237879cd1de446fe3818812ff3880334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 23/29] fix: polygon_90_set_data copy with orientation change
 did not compile

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 9e4c793..41bc3cb 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that);
     }
 
     // destructor
-- 
2.43.0


From 977195ccfc84f92b43cfd17608e0518b03c28cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 24/29] fix: property_merge_45 read its scan output as sorted,
 which it is not, and crashed or lost regions

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..5b78679 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -89,11 +89,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From a4f25848288fa23bbcd89c308a4937f4f75c5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 25/29] fix: connectivity_extraction::extract read past the end
 when no inserted node has an edge

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..9f31239 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -2825,6 +2825,7 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
 
     template <typename result_type>
     inline void execute(result_type& result) {
+      if(pmd.empty()) return;
       //intersect data
       property_merge_data tmp_pmd;
       line_intersection<Unit>::validate_scan(tmp_pmd, pmd.begin(), pmd.end());
-- 
2.43.0


From aa8511a8fc5e2cd37bf53ef3b3c87e4b275c1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 26/29] fix: centres and halves of intervals, rectangles and
 segments overflowed the coordinate type for coordinates beyond half its range

---
 include/boost/polygon/interval_concept.hpp | 6 ++++--
 include/boost/polygon/segment_concept.hpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 4cb76c6..24e78c6 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -314,7 +314,9 @@ typename enable_if<
   >::type,
   typename interval_coordinate_type<IntervalType>::type
 >::type center(const IntervalType& interval) {
-  return (high(interval) + low(interval)) / 2;
+  typedef typename interval_coordinate_type<IntervalType>::type Unit;
+  typedef typename interval_difference_type<IntervalType>::type Diff;
+  return static_cast<Unit>(((Diff)high(interval) + (Diff)low(interval)) / 2);
 }
 
 struct y_i_delta : gtl_yes {};
@@ -908,7 +910,7 @@ typename enable_if<
   IntervalType
 >::type get_half(const IntervalType& interval, direction_1d dir) {
   typedef typename interval_coordinate_type<IntervalType>::type Unit;
-  Unit c = (get(interval, LOW) + get(interval, HIGH)) / 2;
+  Unit c = center(interval);
   return construct<IntervalType>(
       (dir == LOW) ? get(interval, LOW) : c,
       (dir == LOW) ? c : get(interval, HIGH));
diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index e59a1a7..494167d 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -247,9 +247,11 @@ typename enable_if<
   >::type,
 typename segment_point_type<Segment>::type>::type
 center(const Segment& segment) {
+  typedef typename segment_coordinate_type<Segment>::type Unit;
+  typedef typename coordinate_traits<Unit>::coordinate_difference Diff;
   return construct<typename segment_point_type<Segment>::type>(
-      (x(high(segment)) + x(low(segment)))/2,
-      (y(high(segment)) + y(low(segment)))/2);
+      static_cast<Unit>(((Diff)x(high(segment)) + (Diff)x(low(segment))) / 2),
+      static_cast<Unit>(((Diff)y(high(segment)) + (Diff)y(low(segment))) / 2));
 }
 
 struct y_s_low2 : gtl_yes {};
-- 
2.43.0


From cde089f538122bec28835954536e4ad1060053ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 27/29] fix: flipping an interval overflowed the coordinate
 type although the mirrored interval is representable

---
 include/boost/polygon/interval_concept.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 24e78c6..a59b9af 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -349,9 +349,10 @@ typename enable_if<
 IntervalType>::type& flip(
     IntervalType& interval,
     typename interval_coordinate_type<IntervalType>::type axis = 0) {
-  typename interval_coordinate_type<IntervalType>::type newLow, newHigh;
-  newLow  = 2 * axis - high(interval);
-  newHigh = 2 * axis - low(interval);
+  typedef typename interval_coordinate_type<IntervalType>::type Unit;
+  typedef typename interval_difference_type<IntervalType>::type Diff;
+  Unit newLow  = static_cast<Unit>(2 * (Diff)axis - (Diff)high(interval));
+  Unit newHigh = static_cast<Unit>(2 * (Diff)axis - (Diff)low(interval));
   low(interval, newLow);
   high(interval, newHigh);
   return interval;
-- 
2.43.0


From 23e5edce6c6e67f0d51eec9ced884ce635bc7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 28/29] fix: inserting a Manhattan set into a 45-degree set as
 a hole did not subtract it

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..23de9bd 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From cd6b80db7e48923e8b28239fa0af4d6575db999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 29/29] fix: property_merge_45 stored counts of any property
 type but looked them up as int, so other property types did not compile

---
 include/boost/polygon/detail/property_merge_45.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 5b78679..3485371 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -31,7 +31,7 @@ namespace boost { namespace polygon{
       //inline CountMerge& operator=(int count) { counts[0] = counts[1] = count; return *this; }
       inline CountMerge& operator=(const CountMerge& count) { counts = count.counts; return *this; }
       inline int& operator[](property_type index) {
-        std::vector<std::pair<int, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
+        typename std::vector<std::pair<property_type, int> >::iterator itr = std::lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
         if(itr != counts.end() && itr->first == index) {
             return itr->second;
         }
-- 
2.43.0


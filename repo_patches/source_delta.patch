From ad6f3022c2d1e89a45b14b9f7b3ea5a06d506ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 01/33] fix: polygon_90_set_data orientation-changing copy
 constructor does not compile

---
 include/boost/polygon/polygon_90_set_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 2c640bf..8e8bf59 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -63,7 +63,7 @@ namespace boost { namespace polygon{
     // copy with orientation change constructor
     inline polygon_90_set_data(orientation_2d orient, const polygon_90_set_data& that) :
       orient_(orient), data_(), dirty_(false), unsorted_(false) {
-      insert(that, false, that.orient_);
+      insert(that.begin(), that.end(), that.orient_);
     }
 
     // destructor
-- 
2.43.0


From 59c7e14009f0edf6772bff26326137b3b129861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 02/33] fix: Manhattan polygons formed with holes fractured out
 are counterclockwise, as documented

---
 .../polygon/detail/polygon_formation.hpp      | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_formation.hpp b/include/boost/polygon/detail/polygon_formation.hpp
index f4c0d70..558e7de 100644
--- a/include/boost/polygon/detail/polygon_formation.hpp
+++ b/include/boost/polygon/detail/polygon_formation.hpp
@@ -618,6 +618,28 @@ namespace polygon_formation {
     inline ActiveTail<Unit>* yield() { return p_; }
   };
 
+  // outer boundary of a polygon whose holes, if any, have been fractured out
+  template<bool orientT, typename Unit>
+  class PolyLinePolygonData {
+  private:
+    ActiveTail<Unit>* p_;
+  public:
+    typedef Unit coordinate_type;
+    typedef typename ActiveTail<Unit>::iterator compact_iterator_type;
+    typedef iterator_compact_to_points<compact_iterator_type, point_data<coordinate_type> > iterator_type;
+    inline PolyLinePolygonData() : p_(0) {}
+    inline PolyLinePolygonData(ActiveTail<Unit>* p) : p_(p) {}
+    //use default copy and assign
+    inline compact_iterator_type begin_compact() const { return p_->begin(false, (orientT ? VERTICAL : HORIZONTAL)); }
+    inline compact_iterator_type end_compact() const { return p_->end(); }
+    inline iterator_type begin() const { return iterator_type(begin_compact(), end_compact()); }
+    inline iterator_type end() const { return iterator_type(end_compact(), end_compact()); }
+    inline std::size_t size() const {
+       return p_->getPolyLineSize();
+    }
+    inline ActiveTail<Unit>* yield() { return p_; }
+  };
+
   template<bool orientT, typename Unit>
   class PolyLinePolygonWithHolesData {
   private:
@@ -679,11 +701,11 @@ namespace polygon_formation {
   template <bool orientT, typename Unit>
   struct PolyLineType<orientT, Unit, polygon_with_holes_concept> { typedef PolyLinePolygonWithHolesData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_90_concept> { typedef PolyLinePolygonData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_45_concept> { typedef PolyLinePolygonData<orientT, Unit> type; };
   template <bool orientT, typename Unit>
-  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLineHoleData<orientT, Unit> type; };
+  struct PolyLineType<orientT, Unit, polygon_concept> { typedef PolyLinePolygonData<orientT, Unit> type; };
 
   template <bool orientT, typename Unit, typename polygon_concept_type>
   class ScanLineToPolygonItrs {
@@ -2192,6 +2214,11 @@ namespace polygon_formation {
     typedef polygon_90_concept type;
   };
 
+  template <bool orientT, typename Unit>
+  struct geometry_concept<polygon_formation::PolyLinePolygonData<orientT, Unit> > {
+    typedef polygon_90_concept type;
+  };
+
   //public API to access polygon formation algorithm
   template <typename output_container, typename iterator_type, typename concept_type>
   unsigned int get_polygons(output_container& container,
-- 
2.43.0


From fdd804b8e24159a55ad4d9e10ae973670562a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 03/33] fix: boolean of a non-set left operand with a
 polygon_90_set_data of the other scan orientation

---
 .../boost/polygon/detail/polygon_90_set_view.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/polygon_90_set_view.hpp b/include/boost/polygon/detail/polygon_90_set_view.hpp
index 7e93b03..44084ac 100644
--- a/include/boost/polygon/detail/polygon_90_set_view.hpp
+++ b/include/boost/polygon/detail/polygon_90_set_view.hpp
@@ -110,12 +110,18 @@ namespace boost { namespace polygon{
         value_type linput_(orient_);
         orientation_2d orient_l = polygon_90_set_traits<ltype>::orient(lvalue_);
         insert_into_view_arg(linput_, lvalue_, orient_l);
-        rvalue_.sort();
         //std::cout << "compute_90_set_value-3 orientations (left, out):\t" << orient_l.to_int()
         //          << "," << orient_.to_int() << std::endl;
-
-        output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
-                                     rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        if(rvalue_.orient() == orient_) {
+          rvalue_.sort();
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rvalue_.begin(), rvalue_.end(), boolean_op::BinaryCount<op_type>());
+        } else { // right hand side orientation is different
+          value_type rinput_(orient_);
+          insert_into_view_arg(rinput_, rvalue_, rvalue_.orient());
+          output_.applyBooleanBinaryOp(linput_.begin(), linput_.end(),
+                                       rinput_.begin(), rinput_.end(), boolean_op::BinaryCount<op_type>());
+        }
       }
     };
 
-- 
2.43.0


From 07d6a5114e85eb73d0834c9c2a39bec23ecc37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 04/33] fix: polygon_90_set_data must be rescanned after a
 scaling that can merge coordinates

---
 include/boost/polygon/polygon_90_set_data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 8e8bf59..efe75a0 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -726,6 +726,7 @@ namespace boost { namespace polygon{
         (*itr).first = scaling_policy<coordinate_type>::round((dt)((*itr).first) / (dt)factor);
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) / (dt)factor);
       }
+      dirty_ = true;
       unsorted_ = true; //scaling down can make coordinates equal that were not previously equal
       return *this;
     }
@@ -739,6 +740,7 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
+      dirty_ = true;
       unsorted_ = true;
       return *this;
     }
@@ -752,6 +754,7 @@ namespace boost { namespace polygon{
           scaling.scale((*itr).second.first, (*itr).first);
         }
       }
+      dirty_ = true;
       unsorted_ = true;
       return *this;
     }
@@ -762,6 +765,7 @@ namespace boost { namespace polygon{
         (*itr).first = scaling_policy<coordinate_type>::round((dt)((*itr).first) * (dt)factor);
         (*itr).second.first = scaling_policy<coordinate_type>::round((dt)((*itr).second.first) * (dt)factor);
       }
+      dirty_ = true;
       unsorted_ = true; //scaling make coordinates equal that were not previously equal
       return *this;
     }
-- 
2.43.0


From 15154b3531e419002ab90380b3b05ef8f35ee5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 05/33] fix: polygon_90_set_data::shrink leaves negative counts
 that cancel later insertions

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index efe75a0..90d9667 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -614,6 +614,7 @@ namespace boost { namespace polygon{
           }
         }
       }
+      clean(); //shrinking can leave negative counts, which must not cancel what is inserted later
       return *this;
     }
 
-- 
2.43.0


From ad7077db461a36ce17d12744dbb08fb6ca313b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 06/33] fix: transformation::operator+= concatenated an
 uninitialised translation

---
 include/boost/polygon/transform.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 1bb0cd9..ec81e1f 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -405,9 +405,9 @@ class transformation {
 
   // concatenate this with that
   const transformation& operator+=(const transformation& tr) {
-    coordinate_type x, y;
-    transformation<coordinate_type> inv = inverse();
-    inv.transform(x, y);
+    // express the translation of tr in the coordinate system of this
+    coordinate_type x = tr.p_.get(HORIZONTAL), y = tr.p_.get(VERTICAL);
+    atr_.inverse().transform(x, y);
     p_.set(HORIZONTAL, p_.get(HORIZONTAL) + x);
     p_.set(VERTICAL, p_.get(VERTICAL) + y);
     // concatenate axis transforms
-- 
2.43.0


From 0775495df9aeaf2e41708feee95181ce71a57319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 07/33] fix: move(polygon_90_set, HORIZONTAL, d) took the
 orientation constant for an x displacement

---
 include/boost/polygon/polygon_90_set_concept.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_concept.hpp b/include/boost/polygon/polygon_90_set_concept.hpp
index 5259a07..459c3e1 100644
--- a/include/boost/polygon/polygon_90_set_concept.hpp
+++ b/include/boost/polygon/polygon_90_set_concept.hpp
@@ -473,6 +473,17 @@ namespace boost { namespace polygon{
       return move(polygon_set, 0, displacement);
   }
 
+  //an orientation constant must not convert to an x displacement
+  struct y_p_s_move_enum : gtl_yes {};
+
+  template <typename polygon_set_type>
+  typename enable_if< typename gtl_and<y_p_s_move_enum, typename gtl_if<typename is_mutable_polygon_90_set_type<polygon_set_type>::type>::type>::type,
+                      polygon_set_type>::type &
+  move(polygon_set_type& polygon_set,
+  orientation_2d_enum orient, typename polygon_90_set_traits<polygon_set_type>::coordinate_type displacement) {
+    return move(polygon_set, orientation_2d(orient), displacement);
+  }
+
   struct y_p_s_move2 : gtl_yes {};
 
   template <typename polygon_set_type>
-- 
2.43.0


From c65a963264fb63c0901556256e1a6f99af3de96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 08/33] fix: anisotropic_scale_factor::scale used the x factor
 for y

---
 include/boost/polygon/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index ec81e1f..364e3ba 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -329,7 +329,7 @@ class anisotropic_scale_factor {
     x = scaling_policy<coordinate_type>::round(
         (scale_factor_type)x * get(HORIZONTAL));
     y = scaling_policy<coordinate_type>::round(
-        (scale_factor_type)y * get(HORIZONTAL));
+        (scale_factor_type)y * get(VERTICAL));
   }
 
   // invert this scale factor to give the reverse scale factor
-- 
2.43.0


From fc419260ef9ab40a564f9e847ebd422bbc9e4fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 09/33] fix: scale(rectangle, scaling) collapsed the rectangle
 to a point

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index e824319..bcadde0 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -996,7 +996,7 @@ namespace boost { namespace polygon{
                      rectangle_type>::type &
   scale(rectangle_type& rectangle, const scaling_type& scaling) {
     point_data<typename rectangle_coordinate_type<rectangle_type>::type> llp(xl(rectangle), yl(rectangle));
-    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xl(rectangle), yl(rectangle));
+    point_data<typename rectangle_coordinate_type<rectangle_type>::type> urp(xh(rectangle), yh(rectangle));
     scale(llp, scaling);
     scale(urp, scaling);
     set_points(rectangle, llp, urp);
-- 
2.43.0


From 9bca498a4794b64c34c5742518276e0709a0cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 10/33] fix: connectivity_extraction_90 mixed the scan
 orientations of inserted sets

---
 include/boost/polygon/polygon_90_set_data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index 90d9667..ca5e05d 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -970,6 +970,9 @@ namespace boost { namespace polygon{
 
     //insert a polygon set graph node, the value returned is the id of the graph node
     inline unsigned int insert(const polygon_90_set_data<coordinate_type>& ps) {
+      //all graph nodes have to be scanned along the same axis
+      if(ps.orient() != HORIZONTAL)
+        return insert(polygon_90_set_data<coordinate_type>(HORIZONTAL, ps));
       ps.clean();
       touch_90_operation<coordinate_type>::populateTouchSetData(tsd_, ps.begin(), ps.end(), nodeCount_);
       return nodeCount_++;
-- 
2.43.0


From 9bd4fceb78a0e3e487bf26c93d384616c711ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 11/33] fix: polygon_90_set_data::interact left the inserted
 edges marked as scanned

---
 include/boost/polygon/polygon_90_set_data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/boost/polygon/polygon_90_set_data.hpp b/include/boost/polygon/polygon_90_set_data.hpp
index ca5e05d..fd2fce2 100644
--- a/include/boost/polygon/polygon_90_set_data.hpp
+++ b/include/boost/polygon/polygon_90_set_data.hpp
@@ -810,7 +810,6 @@ namespace boost { namespace polygon{
       for(std::set<int>::iterator itr = graph[0].begin(); itr != graph[0].end(); ++itr){
         insert(polys[(*itr)-1]);
       }
-      dirty_ = false;
       return *this;
     }
 
-- 
2.43.0


From 467fbbef59b9b51e5b74d944a599dc2f8483923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 12/33] fix: polygon_45_set_data::insert with is_hole ignored
 the hole flag for Manhattan sets and single vertices

---
 include/boost/polygon/polygon_45_set_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 97585f6..23de9bd 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -115,7 +115,7 @@ namespace boost { namespace polygon{
     inline void insert_clean(const Vertex45Compact& vertex_45, bool is_hole = false) {
       if(vertex_45.count.is_45()) is_manhattan_ = false;
       data_.push_back(vertex_45);
-      if(is_hole) data_.back().count.invert();
+      if(is_hole) data_.back().count = data_.back().count.invert();
     }
 
     inline void insert(const Vertex45Compact& vertex_45, bool is_hole = false) {
@@ -131,7 +131,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       } else {
@@ -139,7 +138,6 @@ namespace boost { namespace polygon{
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
-          if(is_hole) vertex_45.count[1] *= - 1;
           insert_clean(vertex_45, is_hole);
         }
       }
-- 
2.43.0


From d0fa7becf24a62e43d5dfde1fa36bb38aed32024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 13/33] fix: polygon_45_set_data and polygon_set_data empty()
 did not clean pending geometry, as documented

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 +-
 include/boost/polygon/polygon_set_data.hpp    | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 23de9bd..9dd9d2f 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -186,7 +186,7 @@ namespace boost { namespace polygon{
     inline void clear() { data_.clear(); error_data_.clear(); dirty_ = unsorted_ = false; is_manhattan_ = true; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const { clean(); return data_.empty(); }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
diff --git a/include/boost/polygon/polygon_set_data.hpp b/include/boost/polygon/polygon_set_data.hpp
index 32dd800..1782501 100644
--- a/include/boost/polygon/polygon_set_data.hpp
+++ b/include/boost/polygon/polygon_set_data.hpp
@@ -296,7 +296,12 @@ namespace boost { namespace polygon {
     inline void clear() { data_.clear(); dirty_ = unsorted_ = false; }
 
     // find out if Polygon set is empty
-    inline bool empty() const { return data_.empty(); }
+    inline bool empty() const {
+      if(!dirty_ || data_.empty()) return data_.empty();
+      polygon_set_data scanned(*this); // the state of this set is left as it is
+      scanned.clean();
+      return scanned.data_.empty();
+    }
 
     // get the Polygon set size in vertices
     inline std::size_t size() const { clean(); return data_.size(); }
-- 
2.43.0


From c3e3e011dd9b4974c5979a86abb7adc2ddcc91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 14/33] fix: property_merge_45 formed polygons from unsorted
 vertices

---
 include/boost/polygon/detail/property_merge_45.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index c2feffc..5b78679 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -89,11 +89,11 @@ namespace boost { namespace polygon{
         if(left == right) return;
         if(!left.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << edgeType << std::endl;
-          output[left].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, -edgeType));
+          output[left].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, -edgeType));
         }
         if(!right.empty()) {
           //std::cout << pt.x() << " " << pt.y() << " " << rise << " " << -edgeType << std::endl;
-          output[right].insert_clean(typename boolean_op_45<Unit>::Vertex45(pt, rise, edgeType));
+          output[right].insert(typename polygon_45_formation<Unit>::Vertex45Compact(pt, rise, edgeType));
         }
       }
     };
-- 
2.43.0


From d9a97ed5234597d94aeaf75b6e6295ae750c2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 15/33] fix: polygon_45_set_data::set(value) kept a stale
 Manhattan flag and lost sloped edges

---
 include/boost/polygon/polygon_45_set_data.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index 9dd9d2f..d2e6875 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -226,12 +226,14 @@ namespace boost { namespace polygon{
 
     void set_clean(const value_type& value) {
       data_ = value;
+      update_is_manhattan_();
       dirty_ = false;
       unsorted_ = false;
     }
 
     void set(const value_type& value) {
       data_ = value;
+      update_is_manhattan_();
       dirty_ = true;
       unsorted_ = true;
     }
@@ -347,6 +349,12 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    void update_is_manhattan_() {
+      is_manhattan_ = true;
+      for(std::size_t i = 0; i < data_.size(); ++i) {
+        if(data_[i].count.is_45()) is_manhattan_ = false;
+      }
+    }
     template <typename output_container>
     void get_dispatch(output_container& output, polygon_45_concept tag) const {
       get_fracture(output, true, tag);
-- 
2.43.0


From 5ba75144ac5c2a8ee9b9994053c8257162990cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 16/33] fix: property_merge_45::merge applied the rounding
 squares of one property set to the following ones

---
 include/boost/polygon/polygon_45_set_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index d2e6875..d4c0825 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -1828,6 +1828,8 @@ namespace boost { namespace polygon{
       for(typename std::map<keytype, polygon_45_set_data<big_coord> >::iterator itr = result_big.begin();
           itr != result_big.end(); ++itr) {
         polys.clear();
+        pos_error_rects.clear();
+        neg_error_rects.clear();
         (*itr).second.get(polys);
         for(std::size_t i = 0; i < polys.size(); ++i) {
           get_error_rects(pos_error_rects, neg_error_rects, polys[i]);
-- 
2.43.0


From 95b834571271d3c29f81f0f54c17f82a74f72ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 17/33] fix: equal Manhattan regions of polygon_45_set_data
 compared different when two corners touch

---
 include/boost/polygon/polygon_45_set_data.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/polygon/polygon_45_set_data.hpp b/include/boost/polygon/polygon_45_set_data.hpp
index d4c0825..a7471f1 100644
--- a/include/boost/polygon/polygon_45_set_data.hpp
+++ b/include/boost/polygon/polygon_45_set_data.hpp
@@ -126,12 +126,14 @@ namespace boost { namespace polygon{
 
     template <typename coordinate_type_2>
     inline void insert(const polygon_90_set_data<coordinate_type_2>& polygon_set, bool is_hole = false) {
+      const std::size_t first = data_.size();
       if(polygon_set.orient() == VERTICAL) {
         for(typename polygon_90_set_data<coordinate_type_2>::iterator_type itr = polygon_set.begin();
             itr != polygon_set.end(); ++itr) {
           Vertex45Compact vertex_45(point_data<Unit>((*itr).first, (*itr).second.first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
           insert_clean(vertex_45, is_hole);
+          merge_back_(first);
         }
       } else {
         for(typename polygon_90_set_data<coordinate_type_2>::iterator_type itr = polygon_set.begin();
@@ -139,6 +141,7 @@ namespace boost { namespace polygon{
           Vertex45Compact vertex_45(point_data<Unit>((*itr).second.first, (*itr).first), 2, (*itr).second.second);
           vertex_45.count[1] = (*itr).second.second;
           insert_clean(vertex_45, is_hole);
+          merge_back_(first);
         }
       }
       dirty_ = true;
@@ -349,6 +352,15 @@ namespace boost { namespace polygon{
 
   private:
     //functions
+    // two corners at the same point share one vertex, as in the output of a scan
+    void merge_back_(std::size_t first) {
+      if(data_.size() < first + 2) return;
+      Vertex45Compact& previous = data_[data_.size() - 2];
+      if(previous.pt == data_.back().pt) {
+        previous.count += data_.back().count;
+        data_.pop_back();
+      }
+    }
     void update_is_manhattan_() {
       is_manhattan_ = true;
       for(std::size_t i = 0; i < data_.size(); ++i) {
-- 
2.43.0


From d7bb26f0f33e2bf2575e99dc458e372aa37ba90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 18/33] fix: connectivity_extraction::extract crashed when
 nothing with edges was inserted

---
 include/boost/polygon/detail/scan_arbitrary.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/polygon/detail/scan_arbitrary.hpp b/include/boost/polygon/detail/scan_arbitrary.hpp
index 86f7778..9f31239 100644
--- a/include/boost/polygon/detail/scan_arbitrary.hpp
+++ b/include/boost/polygon/detail/scan_arbitrary.hpp
@@ -2825,6 +2825,7 @@ pts.push_back(Point(12344171, 6695983 )); pts.push_back(Point(12287208, 6672388
 
     template <typename result_type>
     inline void execute(result_type& result) {
+      if(pmd.empty()) return;
       //intersect data
       property_merge_data tmp_pmd;
       line_intersection<Unit>::validate_scan(tmp_pmd, pmd.begin(), pmd.end());
-- 
2.43.0


From 3edc9085ccc65f42670446752370214d4e85aa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 19/33] fix: rectangle intersect with consider_touch=false
 clipped rectangles that only touch

---
 include/boost/polygon/rectangle_concept.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index bcadde0..1ad078a 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -642,9 +642,12 @@ namespace boost { namespace polygon{
                                          typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        bool>::type
   intersect(rectangle_type_1& rectangle, const rectangle_type_2& b, bool consider_touch = true) {
-    if(intersects(rectangle, b)) {
-      intersect(rectangle, horizontal(b), HORIZONTAL, consider_touch);
-      intersect(rectangle, vertical(b), VERTICAL, consider_touch);
+    typename rectangle_interval_type<rectangle_type_1>::type
+      ivlh = horizontal(rectangle), ivlv = vertical(rectangle);
+    if(intersect(ivlh, horizontal(b), consider_touch) &&
+       intersect(ivlv, vertical(b), consider_touch)) {
+      horizontal(rectangle, ivlh);
+      vertical(rectangle, ivlv);
       return true;
     }
     return false;
-- 
2.43.0


From c69d9bf08359375467fce374cc127803abde3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 20/33] fix: distance between rectangles truncated the squared
 distance to int

---
 include/boost/polygon/rectangle_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index 1ad078a..d645c76 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -932,7 +932,7 @@ namespace boost { namespace polygon{
                                                           typename is_rectangle_concept<typename geometry_concept<rectangle_type_2>::type>::type>::type,
                        typename rectangle_distance_type<rectangle_type>::type>::type
   euclidean_distance(const rectangle_type& lvalue, const rectangle_type_2& rvalue) {
-    double val = (int)square_euclidean_distance(lvalue, rvalue);
+    double val = (double)square_euclidean_distance(lvalue, rvalue);
     return std::sqrt(val);
   }
 
-- 
2.43.0


From 82b097b3238b47ce5e721800fbe803a0fe071cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 21/33] fix: distance between far apart points overflowed the
 coordinate type

---
 include/boost/polygon/point_concept.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/point_concept.hpp b/include/boost/polygon/point_concept.hpp
index 4d4c1dd..ecededf 100644
--- a/include/boost/polygon/point_concept.hpp
+++ b/include/boost/polygon/point_concept.hpp
@@ -285,8 +285,9 @@ euclidean_distance(
     const PointType1& point1,
     const PointType2& point2,
     orientation_2d orient) {
-  typename point_difference_type<PointType1>::type dif =
-      get(point1, orient) - get(point2, orient);
+  typedef typename point_difference_type<PointType1>::type Unit;
+  Unit dif = static_cast<Unit>(get(point1, orient)) -
+             static_cast<Unit>(get(point2, orient));
   return (dif < 0) ? -dif : dif;
 }
 
-- 
2.43.0


From ffdb17a5a177bec478a385ff754979576345d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 22/33] fix: center and get_half overflowed the coordinate type

---
 include/boost/polygon/interval_concept.hpp | 7 +++++--
 include/boost/polygon/segment_concept.hpp  | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/interval_concept.hpp b/include/boost/polygon/interval_concept.hpp
index 3eeec0f..fda206c 100644
--- a/include/boost/polygon/interval_concept.hpp
+++ b/include/boost/polygon/interval_concept.hpp
@@ -310,7 +310,10 @@ typename enable_if<
   >::type,
   typename interval_coordinate_type<IntervalType>::type
 >::type center(const IntervalType& interval) {
-  return (high(interval) + low(interval)) / 2;
+  typedef typename interval_coordinate_type<IntervalType>::type ctype;
+  typedef typename interval_difference_type<IntervalType>::type diff_type;
+  return static_cast<ctype>((static_cast<diff_type>(high(interval)) +
+                             static_cast<diff_type>(low(interval))) / 2);
 }
 
 struct y_i_delta : gtl_yes {};
@@ -902,7 +905,7 @@ typename enable_if<
   IntervalType
 >::type get_half(const IntervalType& interval, direction_1d dir) {
   typedef typename interval_coordinate_type<IntervalType>::type Unit;
-  Unit c = (get(interval, LOW) + get(interval, HIGH)) / 2;
+  Unit c = center(interval);
   return construct<IntervalType>(
       (dir == LOW) ? get(interval, LOW) : c,
       (dir == LOW) ? c : get(interval, HIGH));
diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 2f41c1b..5cd336a 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -247,9 +247,13 @@ typename enable_if<
   >::type,
 typename segment_point_type<Segment>::type>::type
 center(const Segment& segment) {
+  typedef typename segment_coordinate_type<Segment>::type ctype;
+  typedef typename coordinate_traits<ctype>::coordinate_difference diff_type;
   return construct<typename segment_point_type<Segment>::type>(
-      (x(high(segment)) + x(low(segment)))/2,
-      (y(high(segment)) + y(low(segment)))/2);
+      static_cast<ctype>((static_cast<diff_type>(x(high(segment))) +
+                          static_cast<diff_type>(x(low(segment)))) / 2),
+      static_cast<ctype>((static_cast<diff_type>(y(high(segment))) +
+                          static_cast<diff_type>(y(low(segment)))) / 2));
 }
 
 struct y_s_low2 : gtl_yes {};
-- 
2.43.0


From 027a1c14ed7e74f5a296463a32e3c47746d52fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 23/33] fix: distance from a degenerate segment to a point was
 always zero

---
 include/boost/polygon/segment_concept.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/segment_concept.hpp b/include/boost/polygon/segment_concept.hpp
index 5cd336a..adb3076 100644
--- a/include/boost/polygon/segment_concept.hpp
+++ b/include/boost/polygon/segment_concept.hpp
@@ -660,7 +660,7 @@ euclidean_distance(const Segment& segment, const Point& point) {
     return euclidean_distance(low(segment), point);
   }
   if (length_sq == 0.0)
-    return 0.0;
+    return euclidean_distance(low(segment), point);
   Unit denom = std::sqrt(length_sq);
   Unit result = (A * D - C * B) / denom;
   return (result < 0.0) ? -result : result;
-- 
2.43.0


From 96b930ff59c77b1aa9a3d0c24749ab82590840e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 24/33] fix: rectangle get_corner did not compile

---
 include/boost/polygon/rectangle_concept.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/rectangle_concept.hpp b/include/boost/polygon/rectangle_concept.hpp
index d645c76..63bef0a 100644
--- a/include/boost/polygon/rectangle_concept.hpp
+++ b/include/boost/polygon/rectangle_concept.hpp
@@ -822,8 +822,11 @@ namespace boost { namespace polygon{
     bool>::type
   get_corner(point_type& corner_point, const rectangle_type& rectangle, direction_2d direction_facing, direction_1d direction_turning) {
     typedef typename rectangle_coordinate_type<rectangle_type>::type Unit;
-    Unit u1 = get(rectangle, direction_facing);
-    Unit u2 = get(rectangle, direction_facing.turn(direction_turning));
+    //looking out from within the rectangle LOW turns left and HIGH turns right
+    direction_2d side = (direction_turning == direction_1d(LOW)) ?
+      direction_facing.left() : direction_facing.right();
+    Unit u1 = get(get(rectangle, orientation_2d(direction_facing)), direction_1d(direction_facing));
+    Unit u2 = get(get(rectangle, orientation_2d(side)), direction_1d(side));
     if(orientation_2d(direction_facing).to_int()) std::swap(u1, u2);
     corner_point = construct<point_type>(u1, u2);
     return true;
-- 
2.43.0


From b2bc2a24a36d5fce2fd38fb33a323a35ce9f9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 25/33] fix: is_45 ignored the holes of a polygon with holes

---
 include/boost/polygon/polygon_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/polygon/polygon_traits.hpp b/include/boost/polygon/polygon_traits.hpp
index e3d1859..2f31ca0 100644
--- a/include/boost/polygon/polygon_traits.hpp
+++ b/include/boost/polygon/polygon_traits.hpp
@@ -1055,7 +1055,7 @@ namespace boost { namespace polygon{
     typename polygon_with_holes_traits<polygon_type>::iterator_holes_type itrh = begin_holes(polygon), itrh_end = end_holes(polygon);
     typedef typename polygon_with_holes_traits<polygon_type>::hole_type hole_type;
     for(; itrh != itrh_end; ++ itrh) {
-      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(polygon), itr1_end = end_points(polygon);
+      typename polygon_traits<hole_type>::iterator_type itr1 = begin_points(*itrh), itr1_end = end_points(*itrh);
       if(!point_sequence_is_45(itr1, itr1_end)) return false;
     }
     return true;
-- 
2.43.0


From 76d7c376b4c3d7248af794d585e8249165287e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 26/33] fix: extended_int::dif left leading zero words in the
 difference

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index 078d935..d47d297 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -535,7 +535,7 @@ class extended_int {
       }
       sz2 = sz1;
     }
-    this->count_ = static_cast<int32>(sz1-1);
+    this->count_ = static_cast<int32>(sz1);
     bool flag = false;
     for (std::size_t i = 0; i < sz2; ++i) {
       this->chunks_[i] = c1[i] - c2[i] - (flag?1:0);
@@ -545,8 +545,9 @@ class extended_int {
       this->chunks_[i] = c1[i] - (flag?1:0);
       flag = !c1[i] && flag;
     }
-    if (this->chunks_[this->count_])
-      ++this->count_;
+    // Leading zero chunks may be left by any number of borrows.
+    while (this->count_ && !this->chunks_[this->count_ - 1])
+      --this->count_;
   }
 
   void mul(const uint32* c1, std::size_t sz1,
-- 
2.43.0


From 217169b7041305a694cd1304804b9202cc628d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 27/33] fix: extended_exponent_fpt lost a small operand when
 the other one was zero

---
 include/boost/polygon/detail/voronoi_ctypes.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_ctypes.hpp b/include/boost/polygon/detail/voronoi_ctypes.hpp
index d47d297..9f4af88 100644
--- a/include/boost/polygon/detail/voronoi_ctypes.hpp
+++ b/include/boost/polygon/detail/voronoi_ctypes.hpp
@@ -115,12 +115,13 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator+(const extended_exponent_fpt& that) const {
+    if (that.val_ == 0.0)
+      return *this;
     if (this->val_ == 0.0 ||
         that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return that;
     }
-    if (that.val_ == 0.0 ||
-        this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return *this;
     }
     if (this->exp_ >= that.exp_) {
@@ -135,12 +136,13 @@ class extended_exponent_fpt {
   }
 
   extended_exponent_fpt operator-(const extended_exponent_fpt& that) const {
+    if (that.val_ == 0.0)
+      return *this;
     if (this->val_ == 0.0 ||
         that.exp_ > this->exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return extended_exponent_fpt(-that.val_, that.exp_);
     }
-    if (that.val_ == 0.0 ||
-        this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
+    if (this->exp_ > that.exp_ + _traits::MAX_SIGNIFICANT_EXP_DIF) {
       return *this;
     }
     if (this->exp_ >= that.exp_) {
-- 
2.43.0


From 1c014e074aace1d0cf92b35e68e6fa4f45426f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 28/33] fix: negating the smallest coordinate overflowed in the
 circle event of a point and two segments

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index b6314d3..68f9b1a 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -1283,14 +1283,14 @@ class voronoi_predicates {
             static_cast<int_x2_type>(segm_start2.x()),
             static_cast<int_x2_type>(segm_end2.y()) -
             static_cast<int_x2_type>(segm_start2.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         b -= sqr_sum2 * robust_fpt_type(robust_cross_product(
             static_cast<int_x2_type>(segm_end1.x()) -
             static_cast<int_x2_type>(segm_start1.x()),
             static_cast<int_x2_type>(segm_end1.y()) -
             static_cast<int_x2_type>(segm_start1.y()),
-            static_cast<int_x2_type>(-site1.y()),
+            -static_cast<int_x2_type>(site1.y()),
             static_cast<int_x2_type>(site1.x())), to_fpt(1.0));
         t -= b;
         if (point_index == 2) {
-- 
2.43.0


From 027d7bd15d74187f70c5ff8d1cb94eb2c6204a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 29/33] fix: robust_cross_product lost the carry of the sum of
 two products

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index 68f9b1a..38e0d29 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -68,15 +68,23 @@ class voronoi_predicates {
       if (is_neg(a2_) ^ is_neg(b1_))
         return (l > r) ? -to_fpt(l - r) : to_fpt(r - l);
       else
-        return -to_fpt(l + r);
+        return -add(l, r);
     } else {
       if (is_neg(a2_) ^ is_neg(b1_))
-        return to_fpt(l + r);
+        return add(l, r);
       else
         return (l < r) ? -to_fpt(r - l) : to_fpt(l - r);
     }
   }
 
+  // Sum of the two unsigned integers, that may not fit the integer type.
+  // The relative error is at most 1EPS.
+  static fpt_type add(uint_x2_type l, uint_x2_type r) {
+    static to_fpt_converter to_fpt;
+    uint_x2_type sum = l + r;
+    return (sum < l) ? to_fpt(l) + to_fpt(r) : to_fpt(sum);
+  }
+
   struct orientation_test {
    public:
     // Represents orientation test result.
-- 
2.43.0


From e50bc4e33cf62eebadd207cdfaa6a18c6ea7134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 30/33] fix: a beach line search could confuse the arcs of a
 segment and of its own end point

---
 include/boost/polygon/detail/voronoi_predicates.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index 38e0d29..c916892 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -263,6 +263,13 @@ class voronoi_predicates {
         return fast_res == LESS;
       }
 
+      // The arcs of a segment and of its end point are tangent to each other,
+      // so the arc of the segment is never the farther one.
+      if (left_site.point0() == right_site.point0() ||
+          left_site.point0() == right_site.point1()) {
+        return !reverse_order;
+      }
+
       fpt_type dist1 = find_distance_to_point_arc(left_site, new_point);
       fpt_type dist2 = find_distance_to_segment_arc(right_site, new_point);
 
-- 
2.43.0


From 27920f7f0ed093cf1602a3341f62026f622a5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 31/33] fix: a circle event of two points and a segment could
 be created for the wrong order of the sites

---
 .../polygon/detail/voronoi_predicates.hpp     | 57 +++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/include/boost/polygon/detail/voronoi_predicates.hpp b/include/boost/polygon/detail/voronoi_predicates.hpp
index c916892..25b2b37 100644
--- a/include/boost/polygon/detail/voronoi_predicates.hpp
+++ b/include/boost/polygon/detail/voronoi_predicates.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_POLYGON_DETAIL_VORONOI_PREDICATES
 #define BOOST_POLYGON_DETAIL_VORONOI_PREDICATES
 
+#include <limits>
 #include <utility>
 
 #include "voronoi_robust_fpt.hpp"
@@ -1473,6 +1474,8 @@ class voronoi_predicates {
             if (!circle_existence_predicate_.pps(site1, site2, site3, 3))
               return false;
             circle_formation_functor_.pps(site1, site2, site3, 3, circle);
+            if (reached_in_reverse_order(circle, site1, site2, site3, false))
+              return false;
           }
         } else {
           if (!site3.is_segment()) {
@@ -1494,6 +1497,8 @@ class voronoi_predicates {
             if (!circle_existence_predicate_.pps(site2, site3, site1, 1))
               return false;
             circle_formation_functor_.pps(site2, site3, site1, 1, circle);
+            if (reached_in_reverse_order(circle, site3, site2, site1, true))
+              return false;
           } else {
             // (segment, point, segment) sites.
             if (!circle_existence_predicate_.pss(site2, site1, site3, 2))
@@ -1523,6 +1528,58 @@ class voronoi_predicates {
     }
 
    private:
+    // The sites of a circle event touch the circle one after another in the
+    // clockwise order starting from its rightmost point. The existence
+    // predicate for two points and a segment verifies this only up to a
+    // rotation of the sites, while e.g. the site sequence (A, P, Q, A), where
+    // A is a segment, may hold two triples touching the same circle. Returns
+    // true if the segment and the point at the other end of the triple
+    // definitely touch the circle in the wrong order.
+    bool reached_in_reverse_order(
+        const circle_type& c, const site_type& point, const site_type& middle,
+        const site_type& segment, bool segment_first) {
+      typename ot::Orientation side = ot::eval(
+          segment.point0(), segment.point1(), middle.point0());
+      if (side == ot::COLLINEAR) {
+        side = ot::eval(
+            segment.point0(), segment.point1(), point.point0());
+      }
+      // Direction from the circle center to the segment.
+      fpt_type dx = to_fpt(segment.y1()) - to_fpt(segment.y0());
+      fpt_type dy = to_fpt(segment.x0()) - to_fpt(segment.x1());
+      if (side == ot::RIGHT) {
+        dx = -dx;
+        dy = -dy;
+      }
+      if (is_zero(dy) && is_pos(dx))
+        return false;
+      // Direction from the circle center to the point.
+      fpt_type px = to_fpt(point.x()) - c.x();
+      fpt_type py = to_fpt(point.y()) - c.y();
+      fpt_type tolerance = std::numeric_limits<fpt_type>::epsilon() *
+          static_cast<fpt_type>(256) *
+          (magnitude(c.x()) + magnitude(c.y()) +
+           magnitude(to_fpt(point.x())) + magnitude(to_fpt(point.y())));
+      if (magnitude(py) <= tolerance)
+        return false;
+      bool point_first;
+      if (is_zero(dy)) {
+        point_first = is_neg(py);
+      } else if (is_pos(py) != is_pos(dy)) {
+        point_first = is_neg(py);
+      } else {
+        fpt_type cross = (dx * py - dy * px) / get_sqrt(dx * dx + dy * dy);
+        if (magnitude(cross) <= tolerance)
+          return false;
+        point_first = is_pos(cross);
+      }
+      return point_first == segment_first;
+    }
+
+    static fpt_type magnitude(fpt_type value) {
+      return is_neg(value) ? -value : value;
+    }
+
     bool lies_outside_vertical_segment(
         const circle_type& c, const site_type& s) {
       if (!s.is_segment() || !is_vertical(s)) {
-- 
2.43.0


From ccc4d4d6e3073cf05769daa8b2990e8218724fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 32/33] fix: combine_axis_arrays did not map the axes and could
 not undo a flip

---
 include/boost/polygon/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/polygon/transform.hpp b/include/boost/polygon/transform.hpp
index 364e3ba..ea0bf61 100644
--- a/include/boost/polygon/transform.hpp
+++ b/include/boost/polygon/transform.hpp
@@ -194,10 +194,10 @@ class axis_transformation {
       { this_array[0] & 1, this_array[1] & 1 },
       { that_array[0] & 1, that_array[1] & 1 }
     };
-    this_array[0] = (INDIVIDUAL_AXIS)((int)this_array[0] |
+    this_array[0] = (INDIVIDUAL_AXIS)(((int)that_array[indexes[0]] & 2) |
                                       ((int)zero_bits[0][0] ^
                                        (int)zero_bits[1][indexes[0]]));
-    this_array[1] = (INDIVIDUAL_AXIS)((int)this_array[1] |
+    this_array[1] = (INDIVIDUAL_AXIS)(((int)that_array[indexes[1]] & 2) |
                                       ((int)zero_bits[0][1] ^
                                        (int)zero_bits[1][indexes[1]]));
   }
-- 
2.43.0


From 4c962b719cd21b6b3aea4c06fa2301bd5c75e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 33/33] fix: property_merge_45 compiles for property types
 other than int

---
 include/boost/polygon/detail/property_merge_45.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/polygon/detail/property_merge_45.hpp b/include/boost/polygon/detail/property_merge_45.hpp
index 5b78679..79f21cc 100644
--- a/include/boost/polygon/detail/property_merge_45.hpp
+++ b/include/boost/polygon/detail/property_merge_45.hpp
@@ -31,7 +31,8 @@ namespace boost { namespace polygon{
       //inline CountMerge& operator=(int count) { counts[0] = counts[1] = count; return *this; }
       inline CountMerge& operator=(const CountMerge& count) { counts = count.counts; return *this; }
       inline int& operator[](property_type index) {
-        std::vector<std::pair<int, int> >::iterator itr = lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
+        typename std::vector<std::pair<property_type, int> >::iterator itr =
+            std::lower_bound(counts.begin(), counts.end(), std::make_pair(index, int(0)));
         if(itr != counts.end() && itr->first == index) {
             return itr->second;
         }
-- 
2.43.0


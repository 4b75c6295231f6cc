From 02fcf31c3b828d79bdf720314c4d93897bd86344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 01/15] fix: axis-aligned Gaussian box mixed up its principal
 axes

The smaller radius was laid along the major axis, so the half-widths of the
box were swapped for anisotropic covariances.
---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..a065fea 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 68e6d34f3a4f08b6142043d4fb71668eeb8335f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 02/15] fix: copied target summaries referred to the original's
 weight

The implicit copy bound r to the weight of the copied-from object, which
dangles as soon as the vector of summaries reallocates.
---
 include/target.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..c1fc4d7 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,10 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    // r must refer to this object's own weight, also in copies
+    TargetSummary_(const Self& b)
+    : Parent(b), r(this->w), id(b.id), cid(b.cid) {}
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From b848d84586f5bde461a8cb476bd3f1637186ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 03/15] fix: sampling a mixture left columns unset

Rounding each component's share down left the remaining columns with
whatever the buffer held before, and sample() wrote full states into a
two-row block.
---
 include/gm.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..87d8214 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -204,12 +204,19 @@ struct GM {
         }
     }
 
+    // End of the columns to be sampled from component i, given the cumulative
+    // weight up to and including it. All columns are divided among components.
+    unsigned last_column(const unsigned i, const double cw, const unsigned cols) const {
+        return i + 1 < c.size() ? std::min<unsigned>(cw * cols + 0.5, cols) : cols;
+    }
+
     template<typename RES>
     void sample(RES& res) const {
         unsigned col = 0;
+        double cw = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            unsigned csamples = last_column(i, cw += c[i].w, res.cols()) - col;
+            auto tmp = res.block(0, col, STATES, csamples);
             c[i].sample(tmp);
             col += csamples;
         }
@@ -218,8 +225,9 @@ struct GM {
     template<typename RES>
     void sample_pos(RES& res) const {
         unsigned col = 0;
+        double cw = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
+            unsigned csamples = last_column(i, cw += c[i].w, res.cols()) - col;
             auto tmp = res.block(0, col, 2, csamples);
             c[i].sample_pos(tmp);
             col += csamples;
-- 
2.43.0


From 2105f6a6a0119418d40adc8c4b31b8ed507a5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 04/15] fix: metrics and intensity map modified the targets

Transforming to the local frame of the query and back moved the targets
(by kilometres for distant origins) and changed their bounding boxes
without updating the spatial index.
---
 include/lmb.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..7e946cb 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,10 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
+                const PDF pdf = t->pdf;
                 t->transform_to_local(origin);
                 t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                t->pdf = pdf;
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +266,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C = C.cwiseMin(c);
 
@@ -316,9 +318,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
-- 
2.43.0


From 691815dd1c6bf907ab60270f6e1c6cbfa1532ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 05/15] fix: cluster_nhyps in Python returned the report counts

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From 65bd9930c6c97a117622132ce2c3f7bcd6787ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 06/15] fix: assignment of column-major cost matrices solved
 the transposed problem

lap() handed the data of any matrix to rlap(), which reads it row by row.
OSPA and GOSPA pass column-major matrices, so from three targets on they
could charge an assignment that is not optimal.
---
 include/rlapjv.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..604ed4f 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -552,7 +552,8 @@ nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    const lap::CostMatrix costs = C;  // rlap reads the costs row by row
+    rlap<int, double>(rows, cols, costs.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From 6f47180c5b60f697371ae6be73b8d57c6e084163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 07/15] fix: feasibility test of the assignment solver took
 2^rows steps

From 31 rows on it overflowed and never ended (OSPA of 31 targets hung).
Match the rows by augmenting paths instead.
---
 include/rlapjv.h | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 604ed4f..41cd77d 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <limits>
 #include <memory>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -514,7 +515,21 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
+// Match row to a column over the entries that are not infinite, moving rows matched
+// earlier to other columns if necessary (augmenting path).
+template<typename NotInf>
+bool match_row(const NotInf& notinf, const int row, std::vector<int>& matched, std::vector<char>& seen) {  // NOLINT
+    for (int col = 0; col < notinf.cols(); ++col) {
+        if (notinf(row, col) && !seen[col]) {
+            seen[col] = 1;
+            if (matched[col] < 0 || match_row(notinf, matched[col], matched, seen)) {
+                matched[col] = row;
+                return true;
+            }
+        }
+    }
+    return false;
+}
 
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
@@ -525,30 +540,18 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
 
+    // A finite assignment exists if and only if every row can be matched to a
+    // column of its own over the finite entries.
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
-        for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
-                }
-            }
-nextcol:;
+    std::vector<int> matched(cols, -1);
+    for (int row = 0; row < rows; ++row) {
+        std::vector<char> seen(cols, 0);
+        if (!match_row(notinf, row, matched, seen)) {
+            //std::cout << "NOK matrix: " << std::endl;
+            //std::cout << C << std::endl;
+            return false;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
-        return false;
-nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From d0d28dd81a74d04ce8e0db4778f5cdd20944fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 08/15] fix: association weights became NaN when exp(-cost)
 underflowed

With many targets in a cluster, or certain targets that cannot all be
detected, all hypothesis weights were zero and existence probabilities and
births of the scan were lost in 0/0.
---
 include/cluster.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..cb3062a 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -83,13 +83,18 @@ struct Cluster_ {
             Murty murty(C);
             Assignment res;
             double cost;
+            double best_cost = 0;
             double w;
             double w_sum = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                if (n == 0) {
+                    best_cost = cost;
+                }
+                // Relative to the best hypothesis, as exp(-cost) may underflow
+                w = std::exp(best_cost - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From b0962206db84b7f904dee317be16210988a45d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 09/15] fix: box intersection was neither symmetric nor exact

The test of the diagonals' crossing point reported separated boxes as
intersecting, missed crossing boxes depending on the argument order, and
missed boxes that cross without their diagonals doing so. Use separating
edges.
---
 include/bbox.hpp | 46 +++++++++++++---------------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index a065fea..74b7fcc 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -171,42 +171,22 @@ struct BBox {
     }
 
     bool intersects(const BBox& other) const {
-        for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
+        return !separates(other) && !other.separates(*this);
+    }
+
+    // Does the direction of an edge of this (convex) box separate it from the other?
+    // Two convex boxes are disjoint if and only if an edge of either of them does.
+    bool separates(const BBox& other) const {
+        for (int i = 0, j = 3; i < 4; j = i++) {
+            const Eigen::RowVector2d normal(corners(1, i) - corners(1, j),
+                                            corners(0, j) - corners(0, i));
+            const Eigen::RowVector4d own = normal * corners;
+            const Eigen::RowVector4d others = normal * other.corners;
+            if (own.maxCoeff() < others.minCoeff() || others.maxCoeff() < own.minCoeff()) {
                 return true;
             }
         }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
-                return true;
-            }
-        }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        return false;
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From 735041b4f68afb4e698bb2e71e1d6e0b03bc42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 10/15] fix: R-tree split used uninitialised seeds for very
 large boxes

---
 include/RTree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/RTree.h b/include/RTree.h
index 92f3001..8a08395 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -1240,6 +1240,7 @@ void RTREE_QUAL::ChoosePartition(PartitionVars* a_parVars, int a_minFill)
        && (a_parVars->m_count[1] < (a_parVars->m_total - a_parVars->m_minFill)))
   {
     biggestDiff = (ELEMTYPEREAL) -1;
+    chosen = -1;
     for(int index=0; index<a_parVars->m_total; ++index)
     {
       if(!a_parVars->m_taken[index])
@@ -1260,7 +1261,7 @@ void RTREE_QUAL::ChoosePartition(PartitionVars* a_parVars, int a_minFill)
           diff = -diff;
         }
 
-        if(diff > biggestDiff)
+        if(chosen < 0 || diff > biggestDiff)
         {
           biggestDiff = diff;
           chosen = index;
@@ -1347,7 +1348,7 @@ void RTREE_QUAL::InitParVars(PartitionVars* a_parVars, int a_maxRects, int a_min
 RTREE_TEMPLATE
 void RTREE_QUAL::PickSeeds(PartitionVars* a_parVars)
 {
-  int seed0, seed1;
+  int seed0 = 0, seed1 = 1; // used as they are if no pair compares as worse (rounding, overflow)
   ELEMTYPEREAL worst, waste;
   ELEMTYPEREAL area[MAXNODES+1];
 
-- 
2.43.0


From fb7424fb5fc9b6ae7041a92130305c7fc66516d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 11/15] fix: R-tree reinsertion truncated child pointers to the
 item type

---
 include/RTree.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/RTree.h b/include/RTree.h
index 8a08395..1f266bd 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -325,8 +325,8 @@ protected:
   void FreeNode(Node* a_node);
   void InitNode(Node* a_node);
   void InitRect(Rect* a_rect);
-  bool InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level);
-  bool InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level);
+  bool InsertRectRec(Rect* a_rect, Node* a_child, Node* a_node, Node** a_newNode, int a_level);
+  bool InsertRect(Rect* a_rect, Node* a_child, Node** a_root, int a_level);
   Rect NodeCover(Node* a_node);
   bool AddBranch(Branch* a_branch, Node* a_node, Node** a_newNode);
   void DisconnectBranch(Node* a_node, int a_index);
@@ -492,7 +492,7 @@ void RTREE_QUAL::Insert(const ELEMTYPE a_min[NUMDIMS], const ELEMTYPE a_max[NUMD
     rect.m_max[axis] = a_max[axis];
   }
 
-  InsertRect(&rect, a_dataId, &m_root, 0);
+  InsertRect(&rect, (Node*) a_dataId, &m_root, 0);
 }
 
 
@@ -875,7 +875,7 @@ void RTREE_QUAL::InitRect(Rect* a_rect)
 // The level argument specifies the number of steps up from the leaf
 // level to insert; e.g. a data rectangle goes in at level = 0.
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level)
+bool RTREE_QUAL::InsertRectRec(Rect* a_rect, Node* a_child, Node* a_node, Node** a_newNode, int a_level)
 {
   ASSERT(a_rect && a_node && a_newNode);
   ASSERT(a_level >= 0 && a_level <= a_node->m_level);
@@ -888,7 +888,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   if(a_node->m_level > a_level)
   {
     index = PickBranch(a_rect, a_node);
-    if (!InsertRectRec(a_rect, a_id, a_node->m_branch[index].m_child, &otherNode, a_level))
+    if (!InsertRectRec(a_rect, a_child, a_node->m_branch[index].m_child, &otherNode, a_level))
     {
       // Child was not split
       a_node->m_branch[index].m_rect = CombineRect(a_rect, &(a_node->m_branch[index].m_rect));
@@ -905,7 +905,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   else if(a_node->m_level == a_level) // Have reached level for insertion. Add rect, split if necessary
   {
     branch.m_rect = *a_rect;
-    branch.m_child = (Node*) a_id;
+    branch.m_child = a_child;
     // Child field of leaves contains id of data record
     return AddBranch(&branch, a_node, a_newNode);
   }
@@ -926,7 +926,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
 // InsertRect2 does the recursion.
 //
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level)
+bool RTREE_QUAL::InsertRect(Rect* a_rect, Node* a_child, Node** a_root, int a_level)
 {
   ASSERT(a_rect && a_root);
   ASSERT(a_level >= 0 && a_level <= (*a_root)->m_level);
@@ -941,7 +941,7 @@ bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, i
   Node* newNode;
   Branch branch;
 
-  if(InsertRectRec(a_rect, a_id, *a_root, &newNode, a_level))  // Root split
+  if(InsertRectRec(a_rect, a_child, *a_root, &newNode, a_level))  // Root split
   {
     newRoot = AllocNode();  // Grow tree taller and new root
     newRoot->m_level = (*a_root)->m_level + 1;
@@ -1424,7 +1424,7 @@ bool RTREE_QUAL::RemoveRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root)
       for(int index = 0; index < tempNode->m_count; ++index)
       {
         InsertRect(&(tempNode->m_branch[index].m_rect),
-                   tempNode->m_branch[index].m_data,
+                   tempNode->m_branch[index].m_child,
                    a_root,
                    tempNode->m_level);
       }
-- 
2.43.0


From 049092b7e7a5a90df38835111cf2dd93d4ff00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 12/15] fix: box of a singular covariance could be NaN

---
 include/bbox.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 74b7fcc..ece68eb 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -47,8 +47,9 @@ struct AABBox {
         auto l = solver.eigenvalues();
         auto e = solver.eigenvectors();
 
-        double r1 = nstd * std::sqrt(l[0]);
-        double r2 = nstd * std::sqrt(l[1]);
+        // Eigenvalues of singular matrices may come out slightly negative
+        double r1 = nstd * std::sqrt(std::max(l[0], 0.0));
+        double r2 = nstd * std::sqrt(std::max(l[1], 0.0));
         double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
@@ -161,8 +162,9 @@ struct BBox {
         Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> solver(P);
         auto l = solver.eigenvalues();
         auto e = solver.eigenvectors();
-        double r1 = nstd * std::sqrt(l[0]);
-        double r2 = nstd * std::sqrt(l[1]);
+        // Eigenvalues of singular matrices may come out slightly negative
+        double r1 = nstd * std::sqrt(std::max(l[0], 0.0));
+        double r2 = nstd * std::sqrt(std::max(l[1], 0.0));
 
         corners << x + r1 * e.col(0) + r2 * e.col(1),
                    x - r1 * e.col(0) + r2 * e.col(1),
-- 
2.43.0


From fd50f69fec6a88786d4c971dada914cc11113590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 13/15] fix: samples of a singular covariance could be NaN

---
 include/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/statistics.hpp b/include/statistics.hpp
index 2510d84..a23369c 100644
--- a/include/statistics.hpp
+++ b/include/statistics.hpp
@@ -10,7 +10,7 @@ namespace lmb {
     void nrand(RES& res, const MEAN mean, const COV covariance) {
         Eigen::SelfAdjointEigenSolver<COV> eigenSolver(covariance);
         auto transform = eigenSolver.eigenvectors() \
-            * eigenSolver.eigenvalues().cwiseSqrt().asDiagonal();
+            * eigenSolver.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal();
         for(Eigen::DenseIndex i = 0; i < res.cols(); ++i) {
             res.col(i) = mean + transform * MEAN{}.unaryExpr(
                 [&](auto) { return nrand(); } );
-- 
2.43.0


From 8aee88915d9183bb204d5faa86a5c651f24d58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 14/15] fix: OSPA assignment minimised the distances instead of
 their p-th powers

---
 include/lmb.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 7e946cb..6cf6408 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -271,18 +271,10 @@ class SILMB {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
                     targettree.targets[i]->pdf = pdf;
                 }
-                C = C.cwiseMin(c);
+                C = C.cwiseMin(c).array().pow(p);
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
-                score = std::pow(cost / n, 1.0 / p);
+                score = std::pow(lap::cost(C, res) / n, 1.0 / p);
             }
         }
         return score;
-- 
2.43.0


From 9349fb8c77ba5ef10e965db65bdbc706d77af1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 15/15] fix: the assignment solver no longer loops on nearly
 tied costs

Rows competing for too few columns whose costs are nearly tied lowered the
column price by the gap in each step of the augmenting row reduction: with
gaps of 1e-9 a 3 x 4 matrix took billions of steps. The number of steps is
now limited; rows left are assigned by the shortest path phase.
---
 include/rlapjv.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 41cd77d..6358a8a 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -306,6 +306,9 @@ cost rlap(int dim0, int dim1,
         idx k = 0;
         idx prevnumfree = numfree;
         numfree = 0; // start list of rows still free after augmenting row reduction.
+        // rows competing for too few columns of nearly the same cost lower the prices by tiny
+        // amounts: after a while, leave the rows to the shortest paths.
+        idx reductions = dim0 * dim1;
         while (k < prevnumfree)
         {
             idx i = free[k++];
@@ -338,8 +341,9 @@ cost rlap(int dim0, int dim1,
 
             if (i0 >= 0)
             { // minimum column j1 assigned earlier.
-                if (vj1_lowers)
+                if (vj1_lowers && reductions > 0)
                 {
+                    --reductions;
                     // put in current k, and go back to that k.
                     // continue augmenting path i - j1 with i0.
                     free[--k] = i0;
-- 
2.43.0


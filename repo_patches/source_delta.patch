From c17b1974b90f4cd090099b0f311b54ed1577e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 01/44] fix: Graph: cover every node id and never answer from
 stale shortest paths

The shortest-path tables and the visited marks were sized by the number of
nodes with outgoing edges, so one-way or sparse ids were read out of range.
Removing an edge, or asking with another infinite cost, kept old answers.
---
 include/fields2cover/types/Graph.h |  6 +++
 src/fields2cover/types/Graph.cpp   | 66 ++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..d4398bf 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -68,11 +68,17 @@ class Graph {
     std::vector<bool>& visited,
     int& route_index) const;
 
+  /// Smallest number bigger than any node id used by the edges
+  size_t indexBound() const;
+  void clearShortestPaths();
+  void updateShortestPaths(int64_t INF = 1e15);
+
  protected:
   map_to_map_to_int edges_;
   short_path_container_t shortest_paths_;       // sequence of nodes
   std::vector<std::vector<int64_t>> distance_;  // costs of shortest paths
   std::vector<std::vector<int64_t>> next_;
+  int64_t inf_ {0};  // infinite cost used on distance_
 };
 
 }  // namespace f2c::types
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..9d6a96e 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,11 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
-  if (!this->next_.empty() || !this->distance_.empty()) {
-    this->next_.clear();
-    this->distance_.clear();
-    this->shortest_paths_.clear();
-  }
+  this->clearShortestPaths();
   return *this;
 }
 
@@ -30,8 +26,10 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->clearShortestPaths();
   return *this;
 }
+
 Graph& Graph::removeEdge(size_t i, size_t j) {
   return this->removeDirectedEdge(i, j).removeDirectedEdge(j, i);
 }
@@ -40,6 +38,29 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::indexBound() const {
+  size_t bound = 0;
+  for (auto&& src : this->edges_) {
+    bound = std::max(bound, src.first + 1);
+    for (auto&& dest : src.second) {
+      bound = std::max(bound, dest.first + 1);
+    }
+  }
+  return bound;
+}
+
+void Graph::clearShortestPaths() {
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
+}
+
+void Graph::updateShortestPaths(int64_t INF) {
+  if (this->next_.empty() || this->distance_.empty() || this->inf_ != INF) {
+    this->shortestPathsAndCosts(INF);
+  }
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -69,7 +90,8 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(
+      std::max({this->indexBound(), from + 1, to + 1}), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -100,7 +122,9 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->indexBound();
+  this->clearShortestPaths();
+  this->inf_ = INF;
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -111,7 +135,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = dist.size();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -119,7 +143,9 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
       dist[src.first][dest.first] = dest.second;
       next[src.first][dest.first] = dest.first;
     }
-    dist[src.first][src.first] = 0;
+  }
+  for (size_t i = 0; i < N; ++i) {
+    dist[i][i] = 0;
   }
 
 
@@ -153,18 +179,14 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
 }
 
 std::vector<std::vector<int64_t>>& Graph::getCosts() {
-  if (this->distance_.empty()) {
-    this->shortestPathsAndCosts();
-  }
+  this->updateShortestPaths();
   return this->distance_;
 }
 
 short_path_container_t& Graph::getPaths() {
-  if (next_.empty()) {
-    this->shortestPathsAndCosts();
-  }
+  this->updateShortestPaths();
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = next_.size();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -184,15 +206,14 @@ short_path_container_t& Graph::getPaths() {
 }
 
 std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && (this->next_.empty() || this->distance_.empty())) {
-    this->shortestPathsAndCosts(INF);
-  }
+  this->updateShortestPaths(INF);
   return this->reconstructPath(from, to, next_);
 }
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from != to && std::max(from, to) < next.size()
+      && next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -206,8 +227,9 @@ std::vector<size_t> Graph::reconstructPath(size_t from,
 }
 
 int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && this->distance_.size() == 0) {
-    this->shortestPathsAndCosts(INF);
+  this->updateShortestPaths(INF);
+  if (std::max(from, to) >= this->distance_.size()) {
+    return from == to ? 0 : INF;
   }
   return this->distance_[from][to];
 }
-- 
2.43.0


From 7ad56abc0b40cca5137381e26515e91823a13ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 02/44] fix: LineString and LinearRing: the closest point of a
 one-point line is that point

---
 src/fields2cover/types/LineString.cpp | 3 +++
 src/fields2cover/types/LinearRing.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..01f916e 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -128,6 +128,9 @@ double LineString::endAngle() const {
 }
 
 Point LineString::closestPointTo(const Point& p) const {
+  if (this->size() == 1) {
+    return this->at(0);
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..73a692f 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -134,6 +134,9 @@ LinearRing& LinearRing::closeRing() {
 }
 
 Point LinearRing::closestPointTo(const Point& p) const {
+  if (this->size() == 1) {
+    return this->at(0);
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
-- 
2.43.0


From 7c35efa7be24804d4206fcfd67a6ca0b69673f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 03/44] fix: Swath::clone keeps the swath type

---
 src/fields2cover/types/Swath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..c2d02a0 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,7 +115,7 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
+  Swath new_s {this->path_.clone(), this->width_, this->id_, this->type_};
   new_s.setCreationDir(this->getCreationDir());
   return new_s;
 }
-- 
2.43.0


From 9d3f62fc5173ecfb27c494bf73c586c7b8b25edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 04/44] fix: SnakeOrder: a single swath is not rotated past its
 end

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..351326a 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 3) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From c9f59e78c365aeebe0b099ded4d65347ca3270cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 05/44] fix: SpiralOrder::setSpiralSize: never divide by a zero
 spiral size

---
 src/fields2cover/route_planning/spiral_order.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..ed30ba9 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -10,7 +10,7 @@ SpiralOrder::SpiralOrder(size_t sp_size) {
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max<size_t>(2, sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From 158aa71a7f21ce8346accb4711a8aac1a8ca7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 06/44] fix: Swath equality compares both ends, so that it is
 symmetric

---
 src/fields2cover/types/Swath.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index c2d02a0..f720766 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -29,9 +29,15 @@ bool Swath::operator!=(const Swath& s) const {
   if (s.getWidth() != this->getWidth()) {
     return true;
   }
-  Point this_p {this->startPoint()};
-  Point s_p = (this->hasSameDir(s) ? s.startPoint() : s.endPoint());
-  return (this_p.getX() != s_p.getX() || this_p.getY() != s_p.getY()) ||
+  const bool same_dir = this->hasSameDir(s);
+  Point s_start = (same_dir ? s.startPoint() : s.endPoint());
+  Point s_end = (same_dir ? s.endPoint() : s.startPoint());
+  Point this_start {this->startPoint()};
+  Point this_end {this->endPoint()};
+  return this_start.getX() != s_start.getX() ||
+    this_start.getY() != s_start.getY() ||
+    this_end.getX() != s_end.getX() ||
+    this_end.getY() != s_end.getY() ||
     s.length() != this->length();
 }
 
-- 
2.43.0


From 2b364e05e3abbde9312a859863e3e716d5130a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 07/44] fix: Swaths::append: a collection can be appended to
 itself

---
 src/fields2cover/types/Swaths.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..8325097 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -119,8 +119,10 @@ void Swaths::append(const MultiLineString& lines, const Cells& polys,
 }
 
 void Swaths::append(const Swaths& swaths) {
-  for (auto&& s : swaths) {
-    this->emplace_back(s);
+  const size_t n = swaths.size();
+  this->data_.reserve(this->size() + n);
+  for (size_t i = 0; i < n; ++i) {
+    this->data_.push_back(swaths.data_[i]);
   }
 }
 
-- 
2.43.0


From 050ae83fc9f0041b9b679ad6957710c9afbdfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 08/44] fix: Swath::hasSameDir compares the directions the
 swaths are travelled, as documented

---
 src/fields2cover/types/Swath.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index f720766..4c18f00 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -29,7 +29,7 @@ bool Swath::operator!=(const Swath& s) const {
   if (s.getWidth() != this->getWidth()) {
     return true;
   }
-  const bool same_dir = this->hasSameDir(s);
+  const bool same_dir = (s.getCreationDir() == this->getCreationDir());
   Point s_start = (same_dir ? s.startPoint() : s.endPoint());
   Point s_end = (same_dir ? s.endPoint() : s.startPoint());
   Point this_start {this->startPoint()};
@@ -127,7 +127,13 @@ Swath Swath::clone() const {
 }
 
 bool Swath::hasSameDir(const Swath& s) const {
-  return s.getCreationDir() == this->getCreationDir();
+  const Point dir1 {this->endPoint() - this->startPoint()};
+  const Point dir2 {s.endPoint() - s.startPoint()};
+  const double dot = dir1.getX() * dir2.getX() + dir1.getY() * dir2.getY();
+  if (dot == 0.0) {
+    return s.getCreationDir() == this->getCreationDir();
+  }
+  return dot > 0.0;
 }
 
 void Swath::targetSameDirAs(const Swath& s) {
-- 
2.43.0


From 655c266475a875f1d6a0b461d0b178f3d30a90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 09/44] fix: CubicSpline: the first piece keeps its cubic term
 and reaches the second knot

---
 src/fields2cover/utils/spline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..cf727e6 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -104,6 +104,9 @@ double CubicSpline::operator()(double x) const {
   double xi = xs - x_vec_[idx];
   double xi2 = xi * xi;
   double xi3 = xi2 * xi;
+  if (xs < x_vec_[0]) {
+    return y_vec_[0] + b_vec_[0] * xi + c_vec_[0] * xi2;
+  }
 
   return y_vec_[idx] + b_vec_[idx] * xi + c_vec_[idx] * xi2 + d_vec_[idx] * xi3;
 }
@@ -187,7 +190,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From 2e27cabe9c82faeb1330ca2575d9c9ea42fc5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 10/44] fix: CubicSpline: also reject unsorted first abscissae

---
 src/fields2cover/utils/spline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index cf727e6..ee6b055 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -118,6 +118,9 @@ void CubicSpline::SetSpline() {
 void CubicSpline::SetSplineCubic() {
   std::vector<double> h(size_), alpha(size_), l(size_), z(size_), u(size_);
 
+  check_error(x_vec_[1] > x_vec_[0],
+      "In CubicSpline SetSpline, x array is not sorted"
+      "from smallest to largest\n");
   h[0] = x_vec_[1] - x_vec_[0];
   l[0] = 1.;
   u[0] = 0.;
-- 
2.43.0


From bfa0a482936f4a61afbdff7279fafdaf35dbb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 11/44] fix: CubicSpline: the monotonic correction stays inside
 the knots

---
 src/fields2cover/utils/spline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index ee6b055..623b21c 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -153,7 +153,7 @@ void CubicSpline::SetSplineCubic() {
   // Monotonic correction
   if (monotonic_) {
     bool changed = false;
-    for (unsigned int i = 0; i < size_; i++) {
+    for (unsigned int i = 0; i + 1 < size_; i++) {
       int i_low = std::max(static_cast<int>(i - 1), 0);
       int i_high =
           std::min(static_cast<int>(i + 1), static_cast<int>(size_) - 1);
@@ -183,7 +183,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i + 1 < size_; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From 6b12c9dbeee88af09351bf86f807f2e5d3fd2106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 12/44] fix: cells, cell and multi-point accessors reject
 indices outside the container

---
 src/fields2cover/types/Cell.cpp       |  7 +++++++
 src/fields2cover/types/Cells.cpp      | 18 ++++++++++++++----
 src/fields2cover/types/MultiPoint.cpp |  4 ++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..884ff1e 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -130,10 +130,17 @@ void Cell::addGeometry(const LinearRing& ring) {
 }
 
 const LinearRing Cell::getExteriorRing() const {
+  if (!this->data_->getExteriorRing()) {
+    throw std::out_of_range("Cell does not contain an exterior ring");
+  }
   return LinearRing(this->data_->getExteriorRing());
 }
 
 const LinearRing Cell::getInteriorRing(size_t i) const {
+  if (i >= static_cast<size_t>(this->data_->getNumInteriorRings())) {
+    throw std::out_of_range(
+        "Cell does not contain interior ring " + std::to_string(i));
+  }
   return LinearRing(this->data_->getInteriorRing(i));
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..d3b6a86 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -114,13 +114,19 @@ const Cell Cells::getCell(size_t i) const {
 }
 
 const LinearRing Cells::getCellBorder(size_t i) const {
-  return LinearRing(
-      downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->getExteriorRing());
+  if (i >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i));
+  }
+  return Cell(this->data_->getGeometryRef(i)).getExteriorRing();
 }
 
 const LinearRing Cells::getInteriorRing(size_t i_cell, size_t i_ring) const {
-  return LinearRing(downCast<OGRPolygon*>(this->data_->getGeometryRef(i_cell))
-      ->getInteriorRing(i_ring));
+  if (i_cell >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i_cell));
+  }
+  return Cell(this->data_->getGeometryRef(i_cell)).getInteriorRing(i_ring);
 }
 
 void Cells::addGeometry(const Cell& c) {
@@ -128,6 +134,10 @@ void Cells::addGeometry(const Cell& c) {
 }
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
+  if (i >= static_cast<size_t>(this->data_->getNumGeometries())) {
+    throw std::out_of_range(
+        "Cells does not contain cell at " + std::to_string(i));
+  }
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
       ring.clone().get());
 }
diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..10593e2 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -73,6 +73,10 @@ const Point MultiPoint::getLastPoint() const {
 
 
 void MultiPoint::setGeometry(size_t i, const Point& p) {
+    if (i >= static_cast<size_t>(data_->getNumGeometries())) {
+      throw std::out_of_range(
+          "MultiPoint does not contain point " + std::to_string(i));
+    }
     OGRPoint* point = downCast<OGRPoint*>(data_->getGeometryRef(i));
     point->setX(p.getX());
     point->setY(p.getY());
-- 
2.43.0


From 922ed017ea8551ef88926d754aa04f29b6a66a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 13/44] fix: cloning a field keeps its previous coordinate
 system and an empty field's reference point

---
 src/fields2cover/types/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..bece52e 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -76,6 +76,10 @@ void Field::setField(const Cells& _field) {
 Field Field::clone() const {
   Field new_field {this->field_ + this->ref_point_, this->id_};
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
+  if (this->field_.isEmpty()) {
+    new_field.ref_point_ = this->ref_point_;
+  }
   return new_field;
 }
 
-- 
2.43.0


From d34b0c35c2c3b6778a0a95227e18515497526d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 14/44] fix: UTM zones of one digit are split into zone and
 hemisphere

---
 src/fields2cover/types/Field.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index bece52e..f39f81e 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -166,7 +166,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  const std::string utm = getUTMCoordSystem(coord_sys);
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -174,7 +175,10 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  const std::string utm = getUTMCoordSystem(coord_sys);
+  const auto pos = utm.find_first_not_of("0123456789");
+  const std::string hemisphere {
+    pos == std::string::npos ? "" : utm.substr(pos, 1)};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From ea307c25d1a352d53af46513fda8ceb529c4f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 15/44] fix: the EPSG code is read after the EPSG mark

---
 src/fields2cover/types/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index f39f81e..9a5e57d 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -137,7 +137,7 @@ bool Field::isCoordSystemEPSG() const {
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
   return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+    std::stoi(coord_sys.substr(coord_sys.find("EPSG:") + 5)) : -1;
 }
 
 int Field::getEPSGCoordSystem() const {
-- 
2.43.0


From 233eaafb12e074e56df59127a6252d7585f98ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 16/44] fix: transforming a swath keeps its type and creation
 direction

---
 src/fields2cover/utils/transformation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..2a23c93 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,10 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
-        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+  auto new_swath = swath.clone();
+  new_swath.setPath(transform(
+        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to));
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +133,9 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  auto new_swath = swath.clone();
+  new_swath.setPath(transform(swath.getPath(), coord_sys_from, coord_sys_to));
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From e428ec2394212d1449939f4df4630913b5af0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 17/44] fix: transformed backward path states keep heading
 backward

---
 src/fields2cover/utils/transformation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 2a23c93..fde4fd3 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -66,7 +66,9 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   }
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
-    new_path[i].angle = (new_path[i+1].point - new_path[i].point).getAngleFromPoint();
+    const F2CPoint step = new_path[i+1].point - new_path[i].point;
+    new_path[i].angle = (new_path[i].dir == f2c::types::PathDirection::BACKWARD ?
+        F2CPoint(0, 0) - step : step).getAngleFromPoint();
   }
 
 
-- 
2.43.0


From 26c539ac83eeff106b17f412241a93b782448551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 18/44] fix: longitude 180 belongs to UTM zone 60

---
 src/fields2cover/utils/transformation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index fde4fd3..13fc51f 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include "fields2cover/utils/transformation.h"
+#include <algorithm>
 #include <boost/algorithm/string/predicate.hpp>
 
 namespace f2c {
@@ -189,8 +190,8 @@ void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
   }
 
   std::string utm_zone = std::string("UTM:") + \
-      std::to_string(static_cast<size_t>(
-            floor((field.getRefPoint().getX() + 180) / 6) + 1)) + \
+      std::to_string(static_cast<size_t>(std::min(60.0,
+            floor((field.getRefPoint().getX() + 180) / 6) + 1))) + \
       (field.getRefPoint().getY() > 0 ? "N" : "S") + \
       " datum:" + (field.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
   transform(field, utm_zone);
-- 
2.43.0


From 20c256b21080e2aedc5ecfb9f7627f4abc876dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 19/44] fix: route ends are found past empty connections and
 swath groups

---
 src/fields2cover/types/Route.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..5509b15 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include "fields2cover/types/Route.h"
+#include <algorithm>
 
 namespace f2c::types {
 
@@ -121,20 +122,24 @@ void Route::setConnection(size_t i, const MultiPoint& mp) {
 }
 
 Point Route::startPoint() const {
-  if (sizeConnections() > 0 && connections_[0].size() > 0) {
-    return connections_[0].getFirstPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_[0].size() > 0) {
-    return v_swaths_[0][0].startPoint();
+  const size_t n = std::max(sizeConnections(), sizeVectorSwaths());
+  for (size_t i = 0; i < n; ++i) {
+    if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getFirstPoint();
+    } else if (i < sizeVectorSwaths() && v_swaths_[i].size() > 0) {
+      return v_swaths_[i][0].startPoint();
+    }
   }
   return {};
 }
 
 Point Route::endPoint() const {
-  if (sizeConnections() > sizeVectorSwaths() &&
-      connections_.back().size() > 0) {
-    return connections_.back().getLastPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_.back().size() > 0) {
-    return v_swaths_.back().back().endPoint();
+  for (size_t i = std::max(sizeConnections(), sizeVectorSwaths()); i > 0; --i) {
+    if (i <= sizeVectorSwaths() && v_swaths_[i - 1].size() > 0) {
+      return v_swaths_[i - 1].back().endPoint();
+    } else if (i <= sizeConnections() && connections_[i - 1].size() > 0) {
+      return connections_[i - 1].getLastPoint();
+    }
   }
   return {};
 }
-- 
2.43.0


From 801ca95f989742c246fbbc640b66411992374b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 20/44] fix: a swath joined to a route without points needs no
 connection

---
 src/fields2cover/types/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index 5509b15..5dbdffb 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -55,7 +55,7 @@ void Route::addSwath(const Swath& s) {
 }
 
 void Route::addSwath(const Swath& s, Graph2D& g) {
-  if (!this->isEmpty()) {
+  if (!this->asLineString().isEmpty()) {
     this->addConnection(g.shortestPath(this->endPoint(), s.startPoint()));
   }
   this->addSwath(s);
-- 
2.43.0


From 46ff3bff50aa897ce365f62d2a91b7b0234a6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 21/44] fix: the depot of the visiting graph is its own node

---
 .../route_planning/route_planner_base.cpp           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..8115712 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -127,16 +127,17 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
     }
   }
 
-  F2CPoint deposit(-1e8, -1e8);  // Arbitrary point
-  if (this->r_start_end) {
-    deposit = *this->r_start_end;
-  }
+  // Arbitrary point. It is not the start and end point itself, as that could
+  // also be the end of a swath.
+  F2CPoint deposit(-1e8, -1e8);
 
   for (auto&& swaths : swaths_by_cells) {
     for (auto&& s : swaths) {
       if (this->r_start_end) {
-        g.addEdge(s.startPoint(), deposit, shortest_graph);
-        g.addEdge(s.endPoint(), deposit, shortest_graph);
+        g.addEdge(s.startPoint(), deposit,
+            shortest_graph.shortestPathCost(s.startPoint(), *r_start_end));
+        g.addEdge(s.endPoint(), deposit,
+            shortest_graph.shortestPathCost(s.endPoint(), *r_start_end));
       } else {
         g.addEdge(s.startPoint(), deposit, 0);
         g.addEdge(s.endPoint(), deposit, 0);
-- 
2.43.0


From 9cf9a67902b6761aa8caec2bc2167e4b535950d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 22/44] fix: solutions of fewer than two nodes hold no swath

---
 src/fields2cover/route_planning/route_planner_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 8115712..6228e31 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -198,7 +198,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
+  for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
     for (int j = 0; j < NS; ++j) {
-- 
2.43.0


From 1044623eda4547413d2743077405a0c2a06ee907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 23/44] fix: Overlaps compares every pair of swaths

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..c13ce30 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -17,9 +17,9 @@ double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   std::vector<F2CCells> areas;
   for (int i = swaths.size() - 1; i >= 0; --i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
-      if (areas[i].intersects(areas[j])) {
-        area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
+    for (size_t j = 0; j + 1 < areas.size(); ++j) {
+      if (areas.back().intersects(areas[j])) {
+        area_overlaped += F2CCells(areas.back()).intersection(areas[j]).area();
       }
     }
   }
-- 
2.43.0


From 1793cd7165c689d939de0c4f918db172215a2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 24/44] fix: NSwathModified does not wrap the ring index below
 zero

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..98e2ffa 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -17,7 +17,7 @@ double NSwathModified::computeCost(
   for (auto&& ring : cell) {
     for (size_t i = 0; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry((i + ring.size() - 1) % ring.size());
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From d856cccd0e2de56d8b5c8b79684e4430de656197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 25/44] fix: FieldCoverage of no swaths is zero

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From aa31d3f9be199c670993de9272fa1d2a53f0f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 26/44] fix: RPObjective links the pieces of a route across
 empty ones

---
 .../objectives/rp_obj/rp_objective.cpp        | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..4421e17 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (s.size() == 0 || ps.isEmpty()) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
@@ -125,10 +128,31 @@ double RPObjective::computeCost(const F2CRoute& r) {
   for (auto&& s : r.getConnections()) {
     dist += computeCost(s);
   }
-  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
-    dist += computeCost(r.getConnection(i), r.getSwaths(i));
-    if (i + 1 < r.sizeConnections()) {
-      dist += computeCost(r.getSwaths(i), r.getConnection(i + 1));
+  // Links between consecutive pieces of the route, skipping the empty ones
+  const F2CMultiPoint* last_ps {nullptr};
+  const F2CSwaths* last_s {nullptr};
+  for (size_t i = 0;
+      i < r.sizeConnections() || i < r.sizeVectorSwaths(); ++i) {
+    if (i < r.sizeConnections() && !r.getConnection(i).isEmpty()) {
+      const F2CMultiPoint& ps = r.getConnection(i);
+      if (last_s) {
+        dist += computeCost(*last_s, ps);
+      } else if (last_ps) {
+        dist += computeCost(
+            last_ps->getGeometry(last_ps->size() - 1), ps.getGeometry(0));
+      }
+      last_ps = &ps;
+      last_s = nullptr;
+    }
+    if (i < r.sizeVectorSwaths() && r.getSwaths(i).size() > 0) {
+      const F2CSwaths& s = r.getSwaths(i);
+      if (last_s) {
+        dist += computeCost(last_s->back(), s[0]);
+      } else if (last_ps) {
+        dist += computeCost(*last_ps, s);
+      }
+      last_ps = nullptr;
+      last_s = &s;
     }
   }
   return dist;
-- 
2.43.0


From 34a53c14e980e1148b836f102b85ecdf133b6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 27/44] fix: a moved-from Point can be assigned again

---
 src/fields2cover/types/Point.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..765c451 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -21,6 +21,10 @@ Point::Point(Point&& p) = default;
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
+  if (!this->data_) {  // moved-from point
+    this->data_ = std::move(p.data_);
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
@@ -28,6 +32,10 @@ Point& Point::operator=(Point&& p) {
 }
 
 Point& Point::operator=(const Point& p) {
+  if (!this->data_) {  // moved-from point
+    this->data_ = Point(p).data_;
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
-- 
2.43.0


From 463c6c9ce31e2879d5d85a57fa29797cc08d6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 28/44] fix: remembered turns depend on turn velocity and
 discretization

---
 src/fields2cover/path_planning/turning_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..ad5e42d 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -85,7 +85,9 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
-        static_cast<int>(1e3 * end_angle)
+        static_cast<int>(1e3 * end_angle),
+        static_cast<int>(1e3 * robot.getTurnVel()),
+        static_cast<int>(1e6 * this->discretization)
   };
   auto it = path_cache_.find(v_turn);
   if (it != path_cache_.end()) {
-- 
2.43.0


From 4276e70adbbe6bec42f98b866b0176504849a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 29/44] fix: a path can be appended to itself

---
 src/fields2cover/types/Path.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..bc58a2f 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -97,8 +97,10 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  const size_t n = path.size();  // path may be this same path
+  this->states_.reserve(this->size() + n);
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
-- 
2.43.0


From 36ff2250097fce444856f416dad5b4e7025e0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 30/44] fix: appending a swath without points adds nothing to a
 path

---
 src/fields2cover/types/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index bc58a2f..ad47c4b 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -210,7 +210,7 @@ double Path::length() const {
 }
 
 void Path::appendSwath(const Swath& swath, double cruise_speed) {
-  for (size_t i = 0; i < swath.numPoints() - 1; ++i) {
+  for (size_t i = 0; i + 1 < swath.numPoints(); ++i) {
     PathState s;
     s.point = swath.getPoint(i);
     auto p_ang = Point(swath.getPoint(i + 1).getX() - swath.getPoint(i).getX(),
-- 
2.43.0


From 073814349cf705fe35a313ef520cce2de5bc2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 31/44] fix: Path::moveTo by one of its own points

---
 src/fields2cover/types/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index ad47c4b..c4512cf 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -138,8 +138,9 @@ double Path::getDimMaxY() const {
 }
 
 void Path::moveTo(const Point& p) {
+  const Point shift = p;  // p may be a point of this path
   for (auto&& s : this->states_) {
-    s.point = s.point + p;
+    s.point = s.point + shift;
   }
 }
 
-- 
2.43.0


From e0dd4acf7bef703da8226f7675f82dc13aeb87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 32/44] fix: Path::at the end of a path survives rounding

---
 src/fields2cover/types/Path.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index c4512cf..266afb6 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -246,9 +246,14 @@ PathState Path::at(double len) const {
       len *= static_cast<double>(states_[i].dir);
       state_at.point = Point(p.getX() + len * cos(ang),
                              p.getY() + len * sin(ang));
-      break;
+      return state_at;
     }
   }
+  // Rounding of the sum of lengths may leave the end slightly beyond it
+  if (this->size() > 0) {
+    state_at = states_.back();
+    state_at.point = states_.back().atEnd();
+  }
   return state_at;
 }
 
-- 
2.43.0


From 4e0202a6133f231b335a10d18a1f80b38d99f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 33/44] fix: discretizing a short path does not erase it

---
 src/fields2cover/types/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 266afb6..663903b 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -441,7 +441,7 @@ LineString Path::toLineString() const {
 
 Path& Path::discretize(double step_size) {
   if (this->size() > 1) {
-    int n = static_cast<int>((10.0 / step_size) * this->length());
+    int n = max(1, static_cast<int>((10.0 / step_size) * this->length()));
     this->populate(n);
     this->reduce(step_size);
   }
-- 
2.43.0


From c8c1ead0aa0e27c7395283c3f7dd7dbb0249dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 34/44] fix: rotating a point keeps its elevation

---
 src/fields2cover/types/Point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index 765c451..45d8e2c 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -134,7 +134,8 @@ Point Point::rotateFromPoint(double angle, const Point& p_r) const {
   double p_x = p_r.X() - x;
   double p_y = p_r.Y() - y;
   return Point(p_x * c - p_y * s + x,
-               p_x * s + p_y * c + y);
+               p_x * s + p_y * c + y,
+               p_r.Z());
 }
 
 double Point::getAngleFromPoints(const Point& end) const {
-- 
2.43.0


From 018c4d86597e3573dcc152abe8b579c15e98d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 35/44] fix: the line of an empty path is empty

---
 src/fields2cover/types/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 663903b..212a41e 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -435,7 +435,9 @@ LineString Path::toLineString() const {
   for (auto&& s : this->states_) {
     line.addPoint(s.point);
   }
-  line.addPoint(this->atEnd());
+  if (this->size() > 0) {
+    line.addPoint(this->atEnd());
+  }
   return line;
 }
 
-- 
2.43.0


From c13d3e637d84f0393b4d5d8d3195b80240a3c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 36/44] fix: routes whose first or last connection is one point
 can be planned

---
 src/fields2cover/path_planning/path_planning.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index f4723ab..9d40db4 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -56,7 +56,13 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang1 = s1.back().getOutAngle();
   } else if (mp.size() > 0) {
     p1 = mp[0];
-    ang1 = mp.getOutAngle(0);
+    if (mp.size() > 1) {
+      ang1 = mp.getOutAngle(0);
+    } else if (s2.size() > 0) {
+      ang1 = (s2[0].startPoint() - p1).getAngleFromPoint();
+    } else {
+      return {};
+    }
   } else {
     return {};
   }
@@ -65,7 +71,8 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
     ang2 = s2[0].getInAngle();
   } else if (mp.size() > 0) {
     p2 = mp.getLastPoint();
-    ang2 = mp.getInAngle(mp.size()-1);
+    ang2 = (mp.size() > 1) ? mp.getInAngle(mp.size()-1) :
+      (p2 - p1).getAngleFromPoint();
   } else {
     return {};
   }
-- 
2.43.0


From 434a9ba0091f7306f7909deba36195d8fb126369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 37/44] fix: Cell::isConvex looks at every corner of the border

---
 src/fields2cover/types/Cell.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 884ff1e..a42d244 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -153,14 +153,17 @@ bool Cell::isConvex() const {
   if (border.size() < 2) {
     return false;
   }
-  auto getAng = [&border] (size_t i) {
+  // The last point of a closed ring is the first one again
+  const size_t n = border.size() -
+    (border.startPoint() == border.endPoint() ? 1 : 0);
+  auto getAng = [&border, n] (size_t i) {
     return Point::getAngleFromPoints(
-        border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
+        border.getGeometry(i % n),
+        border.getGeometry((i + 1) % n),
+        border.getGeometry((i + 2) % n));
   };
   bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
+  for (size_t i = 1; i < n; ++i) {
     if (inv != (getAng(i) < M_PI)) {
       return false;
     }
-- 
2.43.0


From 9bb7a1079f058a57b5402263ddab1b4804ef2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 38/44] fix: Robot constructor stores curvatures as magnitudes,
 as the setters do

---
 src/fields2cover/types/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Robot.cpp b/src/fields2cover/types/Robot.cpp
index 6836ac6..e38f2dd 100644
--- a/src/fields2cover/types/Robot.cpp
+++ b/src/fields2cover/types/Robot.cpp
@@ -12,7 +12,7 @@ namespace f2c::types {
 Robot::Robot(double width, double cov_width,
     double max_curv, double max_diff_curv) :
       width_(width), cov_width_(cov_width),
-      max_icc_(max_curv), linear_curv_change_(max_diff_curv) {
+      max_icc_(fabs(max_curv)), linear_curv_change_(fabs(max_diff_curv)) {
   if (width <= 0.0 || cov_width < 0.0) {
     throw std::out_of_range("Robot widths have to be greater than 0.");
   }
-- 
2.43.0


From e2ae0a23fb1d012766382b63e57a4184e16181f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 39/44] fix: decomposition cuts each cell along lines of its
 own inside

---
 .../fields2cover/decomposition/decomposition_base.h    |  5 +++++
 .../decomposition/boustrophedon_decomp.cpp             |  3 ++-
 src/fields2cover/decomposition/decomposition_base.cpp  |  7 +++++++
 src/fields2cover/decomposition/trapezoidal_decomp.cpp  | 10 ++++++----
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/fields2cover/decomposition/decomposition_base.h b/include/fields2cover/decomposition/decomposition_base.h
index 477482f..cf9faab 100644
--- a/include/fields2cover/decomposition/decomposition_base.h
+++ b/include/fields2cover/decomposition/decomposition_base.h
@@ -49,6 +49,11 @@ class DecompositionBase {
       const obj::DecompObjective& obj);
 
   virtual ~DecompositionBase() = default;
+
+ protected:
+  /// Check if a line that only meets the border of a cell on its ends
+  /// runs through the cell, instead of outside it
+  static bool isLineInCell(const F2CCell& cell, const F2CLineString& line);
 };
 
 }  // namespace f2c::decomp
diff --git a/src/fields2cover/decomposition/boustrophedon_decomp.cpp b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
index 62b6af3..3df68d6 100644
--- a/src/fields2cover/decomposition/boustrophedon_decomp.cpp
+++ b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
@@ -49,7 +49,8 @@ F2CMultiLineString BoustrophedonDecomp::genSplitLines(
           line2 = cell.createLineUntilBorder(line2.endPoint(), split_angle + M_PI);
         }
 
-        if (line1.length() > 1e-5 && line2.length() > 1e-5) {
+        if (line1.length() > 1e-5 && line2.length() > 1e-5 &&
+            isLineInCell(cell, line1) && isLineInCell(cell, line2)) {
           split_lines.addGeometry(line1);
           split_lines.addGeometry(line2);
         }
diff --git a/src/fields2cover/decomposition/decomposition_base.cpp b/src/fields2cover/decomposition/decomposition_base.cpp
index 42b8cc6..b57b9a1 100644
--- a/src/fields2cover/decomposition/decomposition_base.cpp
+++ b/src/fields2cover/decomposition/decomposition_base.cpp
@@ -24,6 +24,13 @@ F2CCells DecompositionBase::merge(
   return cells;
 }
 
+bool DecompositionBase::isLineInCell(
+    const F2CCell& cell, const F2CLineString& line) {
+  if (line.size() < 2) {return false;}
+  const F2CPoint middle {(line.startPoint() + line.endPoint()) * 0.5};
+  return cell.isPointIn(middle) || cell.isPointInBorder(middle);
+}
+
 
 }  // namespace f2c::decomp
 
diff --git a/src/fields2cover/decomposition/trapezoidal_decomp.cpp b/src/fields2cover/decomposition/trapezoidal_decomp.cpp
index b9a2c1d..f6c067c 100644
--- a/src/fields2cover/decomposition/trapezoidal_decomp.cpp
+++ b/src/fields2cover/decomposition/trapezoidal_decomp.cpp
@@ -22,10 +22,12 @@ F2CMultiLineString TrapezoidalDecomp::genSplitLines(
   for (auto&& cell : cells) {
     for (auto&& ring : cell) {
       for (auto&& p : ring) {
-        lines.addGeometry(cells.createLineUntilBorder(
-            p, split_angle));
-        lines.addGeometry(cells.createLineUntilBorder(
-            p, split_angle + M_PI));
+        for (auto&& ang : {split_angle, split_angle + M_PI}) {
+          auto line = cell.createLineUntilBorder(p, ang);
+          if (isLineInCell(cell, line)) {
+            lines.addGeometry(line);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 9e1e0f3f76632da8c0321d8b1ac3118f946c70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 40/44] fix: lines inside a cell are kept when a corner touches
 a line

---
 src/fields2cover/types/MultiLineString.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..973ff21 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -65,6 +65,11 @@ void MultiLineString::append(const OGRGeometry* geom) {
         data_->addGeometry(ring);
       }
     }
+  } else if (wkbFlatten(geom->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    for (auto&& g : *geom->toGeometryCollection()) {
+      this->append(g);
+    }
   }
 }
 
-- 
2.43.0


From e6c8bc089ce8ac9a069c2a0a6d261bb4aacf7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 41/44] fix: headland passes keep their distance to the border
 in either order

---
 .../headland_generator/constant_headland.cpp         | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..245ada6 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -22,15 +22,9 @@ F2CCells ConstHL::generateHeadlandArea(
 std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     const F2CCells& field, double swath_width, int n_swaths, bool dir_out2in) {
   std::vector<F2CCells> hl;
-  if (dir_out2in) {
-    for (int i = 0; i < n_swaths; ++i) {
-      hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
-    }
-  } else {
-    hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
-    for (int i = 1; i < n_swaths; ++i) {
-      hl.emplace_back(hl.back().buffer(swath_width));
-    }
+  for (int i = 0; i < n_swaths; ++i) {
+    const int n_pass = dir_out2in ? i : n_swaths - 1 - i;
+    hl.emplace_back(field.buffer(-swath_width * (n_pass + 0.5)));
   }
   return hl;
 }
-- 
2.43.0


From 811e171ffacb735ab56abee14dea6bf044cbe6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 42/44] fix: planning a route with no headland passes

---
 src/fields2cover.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..3fdce7c 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,8 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      fast_hl_rings = hl_swaths.empty() ?
+        cells : hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


From 6882d4847e83138faac03ce5e910841d2c5561b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 43/44] fix: GML coordinates may be separated by any white
 space

---
 src/fields2cover/utils/parser.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..39f7e63 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -5,6 +5,8 @@
 //=============================================================================
 
 #include <tinyxml2.h>
+#include <algorithm>
+#include <sstream>
 #include <boost/optional.hpp>
 #include <nlohmann/json.hpp>
 #include "fields2cover/utils/parser.h"
@@ -53,19 +55,17 @@ F2CField Parser::importFieldGml(
             ->FirstChildElement("gml:LinearRing")\
             ->FirstChildElement("gml:coordinates")\
             ->GetText());
-  auto findAndReplaceAll =
-      [](std::string& data, std::string toSearch, std::string replaceStr) {
-            size_t pos = data.find(toSearch);
-            while (pos != std::string::npos) {
-                data.replace(pos, toSearch.size(), replaceStr);
-                pos = data.find(toSearch, pos + replaceStr.size());
-            }
-            return;
-      };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
+  auto coordsToWkt = [] (const std::string& coords) {
+    // Tuples are separated by any white space, their coordinates by commas
+    std::stringstream tuples(coords);
+    std::string ring, tuple;
+    while (tuples >> tuple) {
+      std::replace(tuple.begin(), tuple.end(), ',', ' ');
+      ring += (ring.empty() ? "" : ", ") + tuple;
+    }
+    return "(" + ring + ")";
+  };
+  p_coords = "POLYGON (" + coordsToWkt(p_coords) + ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
-- 
2.43.0


From 33aeeade00bcb958f2baeb51a11cf9c222a5a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 44/44] fix: holes of a GML field are read

---
 src/fields2cover/utils/parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 39f7e63..32aa41d 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -65,7 +65,16 @@ F2CField Parser::importFieldGml(
     }
     return "(" + ring + ")";
   };
-  p_coords = "POLYGON (" + coordsToWkt(p_coords) + ")";
+  p_coords = "POLYGON (" + coordsToWkt(p_coords);
+  for (auto* hole = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      hole != nullptr;
+      hole = hole->NextSiblingElement("gml:innerBoundaryIs")) {
+    p_coords += ", " + coordsToWkt(hole
+            ->FirstChildElement("gml:LinearRing")\
+            ->FirstChildElement("gml:coordinates")\
+            ->GetText());
+  }
+  p_coords += ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
-- 
2.43.0


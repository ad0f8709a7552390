From 7d07e4ef6077f546db3206de9d8e467633c2306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 01/51] fix: forget cached shortest paths when a graph edge is
 removed

removeDirectedEdge left the cached tables in place, so shortestPath,
shortestPathCost, getCosts and getPaths kept answering with the removed edge.
---
 src/fields2cover/types/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..32114b2 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -30,6 +30,9 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
-- 
2.43.0


From 030a8ea486644efd1b2ef9794c069fe98374531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 02/51] fix: size graph tables by node number, and count nodes
 without outgoing edges

The shortest-path tables and the visited list had one entry per node with
outgoing edges, but are indexed by node number: any sink or any gap in the
numbering read and wrote past their end. Queries about unknown nodes now say
unreachable.
---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 24 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..df33ec0 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// Rows of the tables indexed by node number (largest number + 1)
+  size_t tableSize() const;
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 32114b2..a0c69e3 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,6 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
+  this->edges_[to];  // Nodes without outgoing edges are nodes too
   if (!this->next_.empty() || !this->distance_.empty()) {
     this->next_.clear();
     this->distance_.clear();
@@ -43,6 +44,14 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::tableSize() const {
+  size_t n {0};
+  for (const auto& e : this->edges_) {
+    n = std::max(n, e.first + 1);
+  }
+  return n;
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -72,7 +81,8 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(
+      std::max(this->tableSize(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -103,7 +113,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->tableSize();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -114,7 +124,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = this->tableSize();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -167,7 +177,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = this->tableSize();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -195,6 +205,9 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
+  if (from >= next.size() || to >= next.size()) {
+    return {};
+  }
   if (from != to && next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
@@ -212,6 +225,9 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
+  if (from >= this->distance_.size() || to >= this->distance_.size()) {
+    return INF;
+  }
   return this->distance_[from][to];
 }
 
-- 
2.43.0


From 53a00aa7416573ba82622ff7b91d52639714004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 03/51] fix: keep type and zero width when a swath is cloned

clone() dropped the swath type (every headland swath became a mainland one,
also through Swaths, SwathsByCells, Route and the swath orders) and threw on
swaths without a width, which the default constructor makes.
---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..894ae3f 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s(*this);
+  new_s.setPath(this->path_.clone());
   return new_s;
 }
 
-- 
2.43.0


From 5e5dd4ad221d5bb5c3f1e7b0a24ca9de5f502561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 04/51] fix: compare both end points of swaths

Only the first point was compared: swaths of the same length leaving the same
point in different directions were equal, and a == b could differ from b == a.
---
 src/fields2cover/types/Swath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 894ae3f..bd32414 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -31,7 +31,10 @@ bool Swath::operator!=(const Swath& s) const {
   }
   Point this_p {this->startPoint()};
   Point s_p = (this->hasSameDir(s) ? s.startPoint() : s.endPoint());
+  Point this_e {this->endPoint()};
+  Point s_e = (this->hasSameDir(s) ? s.endPoint() : s.startPoint());
   return (this_p.getX() != s_p.getX() || this_p.getY() != s_p.getY()) ||
+    (this_e.getX() != s_e.getX() || this_e.getY() != s_e.getY()) ||
     s.length() != this->length();
 }
 
-- 
2.43.0


From e92da6b2bcb432b1bdc1ef4468d7b38b8822ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 05/51] fix: alternate the direction swaths are travelled in,
 not their flags

reverseDirOddSwaths looked only at the creation flag, so swaths given in mixed
directions came out of every swath order with neighbours travelled the same way.
---
 src/fields2cover/types/Swaths.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..d358d9a 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -135,7 +135,16 @@ void Swaths::sort() {
 
 void Swaths::reverseDirOddSwaths() {
   for (size_t i = 1; i < this->size(); ++i) {
-    this->data_[i].targetOppositeDirAs(this->data_[i - 1]);
+    auto& s = this->data_[i];
+    const auto& prev = this->data_[i - 1];
+    // The creation direction only tells about swaths created alike
+    const double same_way = (s.endPoint() - s.startPoint()) *
+      (prev.endPoint() - prev.startPoint());
+    if (same_way == 0.0) {
+      s.targetOppositeDirAs(prev);
+    } else if (same_way > 0.0) {
+      s.reverse();
+    }
   }
 }
 
-- 
2.43.0


From 5a99c1b07449d03c33d43e313049151b03343532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 06/51] fix: snake order of a single swath

With one swath the ranges to reverse and rotate started past the end.
---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..0cdd281 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 2) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From ae8b2b5d9e037180014b435ec1e1a8f749366a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 07/51] fix: spiral size below two set after construction

The constructor raises the size to at least two, the setter took 0 and the
next sort divided by it.
---
 src/fields2cover/route_planning/spiral_order.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..1f2696a 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -4,13 +4,13 @@ namespace f2c::rp {
 
 
 SpiralOrder::SpiralOrder(size_t sp_size) {
-  setSpiralSize(static_cast<size_t>(std::max(2, static_cast<int>(sp_size))));
+  setSpiralSize(sp_size);
 }
 
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max<size_t>(2, sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From ed23921ca7350d14dfaecac0d2e02bbc123bb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 08/51] fix: start and end point of routes that begin or end
 with an empty part

---
 src/fields2cover/types/Route.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..c144bc1 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -4,6 +4,7 @@
 //                        BSD-3 License
 //=============================================================================
 
+#include <algorithm>
 #include "fields2cover/types/Route.h"
 
 namespace f2c::types {
@@ -121,20 +122,33 @@ void Route::setConnection(size_t i, const MultiPoint& mp) {
 }
 
 Point Route::startPoint() const {
-  if (sizeConnections() > 0 && connections_[0].size() > 0) {
-    return connections_[0].getFirstPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_[0].size() > 0) {
-    return v_swaths_[0][0].startPoint();
+  for (size_t i = 0; i < sizeConnections() || i < sizeVectorSwaths(); ++i) {
+    if (i < sizeConnections() && connections_[i].size() > 0) {
+      return connections_[i].getFirstPoint();
+    }
+    if (i < sizeVectorSwaths()) {
+      for (const auto& swath : v_swaths_[i]) {
+        if (swath.numPoints() > 0) {
+          return swath.startPoint();
+        }
+      }
+    }
   }
   return {};
 }
 
 Point Route::endPoint() const {
-  if (sizeConnections() > sizeVectorSwaths() &&
-      connections_.back().size() > 0) {
-    return connections_.back().getLastPoint();
-  } else if (sizeVectorSwaths() > 0 && v_swaths_.back().size() > 0) {
-    return v_swaths_.back().back().endPoint();
+  for (size_t i = std::max(sizeConnections(), sizeVectorSwaths()); i > 0; --i) {
+    if (i <= sizeVectorSwaths()) {
+      for (size_t j = v_swaths_[i-1].size(); j > 0; --j) {
+        if (v_swaths_[i-1][j-1].numPoints() > 0) {
+          return v_swaths_[i-1][j-1].endPoint();
+        }
+      }
+    }
+    if (i <= sizeConnections() && connections_[i-1].size() > 0) {
+      return connections_[i-1].getLastPoint();
+    }
   }
   return {};
 }
-- 
2.43.0


From 62ad72c2a05d51256447c7e0578a6e31ebf8e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 09/51] fix: convexity of a cell also depends on the corner
 where its border closes

---
 src/fields2cover/types/Cell.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..8cee601 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -146,15 +146,26 @@ bool Cell::isConvex() const {
   if (border.size() < 2) {
     return false;
   }
-  auto getAng = [&border] (size_t i) {
-    return Point::getAngleFromPoints(
-        border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
-  };
-  bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
-    if (inv != (getAng(i) < M_PI)) {
+  size_t n = border.size();
+  if (border.getGeometry(0) == border.getGeometry(n - 1)) {
+    --n;  // The last point only closes the ring
+  }
+  // All the corners, also the ones next to the first point, should turn to the
+  // same side. Points in the middle of a straight border do not turn.
+  int side {0};
+  for (size_t i = 0; i < n; ++i) {
+    auto v1 = border.getGeometry((i + 1) % n) - border.getGeometry(i);
+    auto v2 = border.getGeometry((i + 2) % n) - border.getGeometry((i + 1) % n);
+    double cross = v1.getX() * v2.getY() - v1.getY() * v2.getX();
+    double scale = std::hypot(v1.getX(), v1.getY()) *
+      std::hypot(v2.getX(), v2.getY());
+    if (std::fabs(cross) <= 1e-9 * scale) {
+      continue;
+    }
+    int new_side = cross > 0 ? 1 : -1;
+    if (side == 0) {
+      side = new_side;
+    } else if (side != new_side) {
       return false;
     }
   }
-- 
2.43.0


From 512c476b91ae546b473d31596542fc8998f6ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 10/51] fix: splines miss their second knot, and accept
 unsorted first knots

---
 src/fields2cover/utils/spline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..c2bd1cb 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -115,6 +115,9 @@ void CubicSpline::SetSpline() {
 void CubicSpline::SetSplineCubic() {
   std::vector<double> h(size_), alpha(size_), l(size_), z(size_), u(size_);
 
+  check_error(x_vec_[1] > x_vec_[0],
+      "In CubicSpline SetSpline, x array is not sorted"
+      "from smallest to largest\n");
   h[0] = x_vec_[1] - x_vec_[0];
   l[0] = 1.;
   u[0] = 0.;
@@ -187,7 +190,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From 8952714db0583ba230a09799b5fe615bd989b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 11/51] fix: monotone splines read past the last knot; stale
 slopes when points are set again

---
 src/fields2cover/utils/spline.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index c2bd1cb..76c3878 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -53,9 +53,9 @@ CubicSpline::CubicSpline(
   size_ = x.size();
   x_vec_ = x;
   y_vec_ = y;
-  b_vec_.resize(size_);
-  c_vec_.resize(size_);
-  d_vec_.resize(size_);
+  b_vec_.assign(size_, 0.0);
+  c_vec_.assign(size_, 0.0);
+  d_vec_.assign(size_, 0.0);
 
   monotonic_ = monotonic;
 
@@ -75,9 +75,9 @@ void CubicSpline::SetPoints(
   size_ = x.size();
   x_vec_ = x;
   y_vec_ = y;
-  b_vec_.resize(size_);
-  c_vec_.resize(size_);
-  d_vec_.resize(size_);
+  b_vec_.assign(size_, 0.0);
+  c_vec_.assign(size_, 0.0);
+  d_vec_.assign(size_, 0.0);
 
   monotonic_ = monotonic;
 
@@ -163,6 +163,9 @@ void CubicSpline::SetSplineCubic() {
         changed = true;
       }
 
+      if (i + 1 >= size_) {
+        continue;  // No interval starts at the last knot
+      }
       double slope = (y_vec_[i_high] - y_vec_[i]) / h[i];
       if (slope == 0.0 && (b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0)) {
         b_vec_[i] = 0.0;
@@ -180,7 +183,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i + 1 < size_; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From 5fc2612f82c8a130e2d4a5d96d51bcf25cd3442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 12/51] fix: JSON importers report missing members and unusable
 points

---
 src/fields2cover/utils/parser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..1786f8b 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -84,7 +84,7 @@ F2CPoint getPointFromJson(const json& ps) {
   } else if (ps.size() == 2) {
     return F2CPoint(ps[0], ps[1]);
   }
-  return F2CPoint();
+  throw std::invalid_argument("Point without two or three coordinates");
 }
 
 F2CCell getCellFromJson(const json& imported_cell) {
@@ -96,7 +96,7 @@ F2CCell getCellFromJson(const json& imported_cell) {
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
+  auto json_rings = imported_cell.at("geometry").at("coordinates");
   for (int i = 0; i < json_rings.size(); ++i) {
     cell.addRing(jsonToF2CRing(json_rings[i]));
   }
@@ -108,10 +108,10 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
 
-  for (auto&& imported_cell : imported_field["features"]) {
+  for (auto&& imported_cell : imported_field.at("features")) {
     fields.emplace_back(
       F2CField(F2CCells(getCellFromJson(imported_cell)),
-        imported_cell["properties"]["Name"]));
+        imported_cell.at("properties").at("Name")));
   }
   return 0;
 }
@@ -119,21 +119,21 @@ int Parser::importJson(const std::string& file, F2CFields& fields) {
 F2CCell Parser::importCellJson(const std::string& file) {
   std::ifstream f(file);
   json imported_field = json::parse(f);
-  return getCellFromJson(imported_field["features"][0]);
+  return getCellFromJson(imported_field.at("features").at(0));
 }
 
 F2CSwaths Parser::importSwathsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_swaths = json::parse(f);
   F2CSwaths swaths;
-  for (auto&& imported_swath : imported_swaths["features"]) {
+  for (auto&& imported_swath : imported_swaths.at("features")) {
     F2CLineString line;
-    for (auto&& ps : imported_swath["geometry"]["coordinates"]) {
+    for (auto&& ps : imported_swath.at("geometry").at("coordinates")) {
       line.addPoint(getPointFromJson(ps));
     }
     swaths.emplace_back(line,
-      imported_swath["properties"]["width"],
-      imported_swath["properties"]["path_id"]);
+      imported_swath.at("properties").at("width"),
+      imported_swath.at("properties").at("path_id"));
   }
   return swaths;
 }
@@ -142,9 +142,9 @@ F2CStrips Parser::importStripsJson(const std::string& file) {
   std::ifstream f(file);
   json imported_strips = json::parse(f);
   F2CStrips strips;
-  for (auto&& imported_strip : imported_strips["features"]) {
+  for (auto&& imported_strip : imported_strips.at("features")) {
     F2CStrip strip;
-    strip.setName(imported_strip["properties"]["crop_id"]);
+    strip.setName(imported_strip.at("properties").at("crop_id"));
     strip.setCell(getCellFromJson(imported_strip));
     strips.emplace_back(strip);
   }
-- 
2.43.0


From 7c2f4b8335d4f02cd1fb3b351c715f6dcee13a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 13/51] fix: GML import reads holes and reports broken or
 incomplete files

---
 src/fields2cover/utils/parser.cpp | 63 ++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 1786f8b..1869dec 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -26,12 +26,11 @@ F2CField Parser::importFieldGml(
   std::locale::global(std::locale::classic());
 
   tinyxml2::XMLDocument doc;
-  doc.LoadFile(file.c_str());
-  auto* p_parcel = doc.RootElement();
-
-  if (p_parcel == nullptr) {
-    throw std::invalid_argument("File not found");
+  if (doc.LoadFile(file.c_str()) != tinyxml2::XML_SUCCESS ||
+      doc.RootElement() == nullptr) {
+    throw std::invalid_argument("File not found or not a valid XML file");
   }
+  auto* p_parcel = doc.RootElement();
 
   std::string id {""};
 
@@ -40,19 +39,24 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
-
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
+  auto getChild =
+      [](const tinyxml2::XMLElement* parent, const char* name) {
+            auto* child = parent->FirstChildElement(name);
+            if (child == nullptr) {
+              throw std::invalid_argument(
+                  std::string("GML file without element ") + name);
+            }
+            return child;
+      };
+  auto* p_polygon = getChild(
+      getChild(getChild(p_parcel, "Field"), "geometry"), "gml:Polygon");
 
-  std::string coord_sys = p_polygon->Attribute("srsName");
+  const char* srs_name = p_polygon->Attribute("srsName");
+  if (srs_name == nullptr) {
+    throw std::invalid_argument("GML polygon without coordinate system");
+  }
+  std::string coord_sys = srs_name;
 
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
   auto findAndReplaceAll =
       [](std::string& data, std::string toSearch, std::string replaceStr) {
             size_t pos = data.find(toSearch);
@@ -62,13 +66,30 @@ F2CField Parser::importFieldGml(
             }
             return;
       };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
+  auto ringToWkt =
+      [&](const tinyxml2::XMLElement* boundary) {
+            const char* text = getChild(getChild(boundary,
+                "gml:LinearRing"), "gml:coordinates")->GetText();
+            std::string coords = (text == nullptr) ? "" : text;
+            findAndReplaceAll(coords, ",", ";");
+            findAndReplaceAll(coords, " ", ", ");
+            findAndReplaceAll(coords, ";", " ");
+            return "(" + coords + ")";
+      };
+  std::string p_coords = "POLYGON (" +
+      ringToWkt(getChild(p_polygon, "gml:outerBoundaryIs"));
+  for (auto* p_hole = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      p_hole != nullptr;
+      p_hole = p_hole->NextSiblingElement("gml:innerBoundaryIs")) {
+    p_coords += ", " + ringToWkt(p_hole);
+  }
+  p_coords += ")";
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
-  OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
+  if (OGRGeometryFactory::createFromWkt(
+        p_coords.c_str(), spt_ref.get(), &new_geom) != OGRERR_NONE) {
+    throw std::invalid_argument("GML polygon with unusable coordinates");
+  }
 
   F2CField field(F2CCells(new_geom), id);
   field.setCRS(coord_sys);
-- 
2.43.0


From 7c717a9d2a84b749b0f20d8d41e00a833ce90511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 14/51] fix: points that were moved from lose their coordinates
 and crash when used again

---
 src/fields2cover/types/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..526a07f 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -17,7 +17,7 @@ Point::Point(double _x, double _y, double _z) : Geometry() {
 }
 
 Point::Point(const Point& p) : Geometry(p.clone()) {}
-Point::Point(Point&& p) = default;
+Point::Point(Point&& p) : Geometry(p.clone()) {}
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
-- 
2.43.0


From edd46c1a54ea39766b1e13c6341b231a6aff4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 15/51] fix: clones of geometries lose the last digits of their
 coordinates

---
 include/fields2cover/types/Geometries_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..32d8c28 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -18,7 +18,7 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
   SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
+  *cloned.get() = *this->data_;
   return cloned;
 }
 
-- 
2.43.0


From f41f3144204c241320a82639cb6dc0c53fbe0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 16/51] fix: report elements out of range instead of following
 null pointers

---
 src/fields2cover/types/Cell.cpp       | 7 +++++++
 src/fields2cover/types/Cells.cpp      | 9 +++++----
 src/fields2cover/types/MultiPoint.cpp | 7 +++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 8cee601..a29e046 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -130,10 +130,17 @@ void Cell::addGeometry(const LinearRing& ring) {
 }
 
 const LinearRing Cell::getExteriorRing() const {
+  if (this->isEmpty()) {
+    throw std::out_of_range("Cell does not contain an exterior ring");
+  }
   return LinearRing(this->data_->getExteriorRing());
 }
 
 const LinearRing Cell::getInteriorRing(size_t i) const {
+  if (this->isEmpty() || i >= this->size() - 1) {
+    throw std::out_of_range(
+        "Cell does not contain interior ring " + std::to_string(i));
+  }
   return LinearRing(this->data_->getInteriorRing(i));
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..d72c12f 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -114,13 +114,11 @@ const Cell Cells::getCell(size_t i) const {
 }
 
 const LinearRing Cells::getCellBorder(size_t i) const {
-  return LinearRing(
-      downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->getExteriorRing());
+  return this->getGeometry(i).getExteriorRing();
 }
 
 const LinearRing Cells::getInteriorRing(size_t i_cell, size_t i_ring) const {
-  return LinearRing(downCast<OGRPolygon*>(this->data_->getGeometryRef(i_cell))
-      ->getInteriorRing(i_ring));
+  return this->getGeometry(i_cell).getInteriorRing(i_ring);
 }
 
 void Cells::addGeometry(const Cell& c) {
@@ -128,6 +126,9 @@ void Cells::addGeometry(const Cell& c) {
 }
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
+  if (i >= this->size()) {
+    throw std::out_of_range("Cells does not contain cell " + std::to_string(i));
+  }
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
       ring.clone().get());
 }
diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..8c309e2 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -73,6 +73,13 @@ const Point MultiPoint::getLastPoint() const {
 
 
 void MultiPoint::setGeometry(size_t i, const Point& p) {
+    if (i >= this->size()) {
+      for (size_t j = this->size(); j < i; ++j) {
+        this->addPoint(Point());
+      }
+      this->addPoint(p);
+      return;
+    }
     OGRPoint* point = downCast<OGRPoint*>(data_->getGeometryRef(i));
     point->setX(p.getX());
     point->setY(p.getY());
-- 
2.43.0


From 40bd8932438475e2e17af7707697fc35844209f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 17/51] fix: clones of fields forget the previous CRS, and the
 reference point if empty

---
 src/fields2cover/types/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..23ec401 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -76,6 +76,10 @@ void Field::setField(const Cells& _field) {
 Field Field::clone() const {
   Field new_field {this->field_ + this->ref_point_, this->id_};
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
+  if (this->isEmpty()) {
+    new_field.ref_point_ = this->ref_point_;
+  }
   return new_field;
 }
 
-- 
2.43.0


From 799659f91e4e1704bb9ecfd4dae3934d3edb46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 18/51] fix: zone and hemisphere of UTM codes with one-digit
 zones

---
 src/fields2cover/types/Field.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 23ec401..8188065 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -137,7 +137,7 @@ bool Field::isCoordSystemEPSG() const {
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
   return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+    std::stoi(coord_sys.substr(coord_sys.find("EPSG:") + 5)) : -1;
 }
 
 int Field::getEPSGCoordSystem() const {
@@ -166,7 +166,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -174,7 +175,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  std::string hemisphere {utm.empty() ? "" : utm.substr(utm.size() - 1)};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From e1465a886c2075fa592d7936668624baea80f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 19/51] fix: transformed swaths keep type and direction; failed
 transformations leave the field alone

---
 src/fields2cover/utils/transformation.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..76e9021 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -19,9 +19,9 @@ std::unique_ptr<OGRCoordinateTransformation,
 
 void Transform::transform(F2CField& field, const std::string& coord_sys_to) {
   if (!field.isEmpty()) {
+    auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
     field.setField(field.getField() + field.getRefPoint());
-    field.getField()->transform(
-        generateCoordTransf(field.getCRS(), coord_sys_to).get());
+    field.getField()->transform(coords.get());
     field.setRefPoint(field.getField().getCellBorder(0).startPoint());
     field.setField(field.getField() - field.getRefPoint());
   } else {
@@ -87,9 +87,10 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
-        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+  F2CSwath new_swath = swath.clone();
+  new_swath.setPath(transform(
+        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to));
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +133,9 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath = swath.clone();
+  new_swath.setPath(transform(swath.getPath(), coord_sys_from, coord_sys_to));
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From c4e311caf8635fa5509140b29e84326cf6df88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 20/51] fix: heading of path states driven backwards after a
 transformation

---
 src/fields2cover/utils/transformation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index 76e9021..38f2276 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -66,7 +66,9 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   }
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
-    new_path[i].angle = (new_path[i+1].point - new_path[i].point).getAngleFromPoint();
+    auto dir = static_cast<double>(new_path[i].dir);
+    new_path[i].angle = (
+        (new_path[i+1].point - new_path[i].point) * dir).getAngleFromPoint();
   }
 
 
-- 
2.43.0


From c06cca4dc5805434a1cbf9fcdd5a5afaf576ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 21/51] fix: lines inside cells are lost when the line also
 touches a corner

The intersection is a collection of points and lines then, which was ignored.
Rays that leave the cell at their first point only gave no line because of
that, so createLineUntilBorder now tells them apart itself.
---
 src/fields2cover/types/Cell.cpp            | 5 +++++
 src/fields2cover/types/MultiLineString.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index a29e046..caec8f5 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -222,6 +222,11 @@ LineString Cell::createLineUntilBorder(
       }
     }
   }
+  // The ray leaves the cell at p, and meets the border again from outside
+  if (p.distance(*this) < 1e-5 &&
+      ((p + best_point) * 0.5).distance(*this) > 1e-5) {
+    return LineString();
+  }
   return (best_point == p) ? LineString() : LineString({p, best_point});
 }
 
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..d2ed8f9 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -65,6 +65,12 @@ void MultiLineString::append(const OGRGeometry* geom) {
         data_->addGeometry(ring);
       }
     }
+  } else if (wkbFlatten(geom->getGeometryType()) ==
+      OGRwkbGeometryType::wkbGeometryCollection) {
+    // For example, a line that crosses a polygon and also touches its corner
+    for (auto&& g : *geom->toGeometryCollection()) {
+      this->append(g);
+    }
   }
 }
 
-- 
2.43.0


From 53b66d3ba52be72e2db88239bbe0603d18d67644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 22/51] fix: rays leaving a cell at p are recognised also when
 they graze it again

---
 src/fields2cover/types/Cell.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index caec8f5..2ec0fc0 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -213,6 +213,9 @@ LineString Cell::createLineUntilBorder(
   const auto intersections(ray.intersection(*this));
   Point best_point{p};
   double min_dist {std::numeric_limits<double>::max()};
+  // From inside or from the border, the ray should start by crossing the cell.
+  // If not, it leaves the cell at p and meets the border again from outside.
+  bool enters {p.distance(*this) > 1e-5};
   for (auto&& line : intersections) {
     for (auto&& p_l : line) {
       double dist = p_l.distance(p);
@@ -220,11 +223,10 @@ LineString Cell::createLineUntilBorder(
         best_point = p_l;
         min_dist = dist;
       }
+      enters = enters || (dist < 1e-5 && line.length() > 1e-5);
     }
   }
-  // The ray leaves the cell at p, and meets the border again from outside
-  if (p.distance(*this) < 1e-5 &&
-      ((p + best_point) * 0.5).distance(*this) > 1e-5) {
+  if (!enters) {
     return LineString();
   }
   return (best_point == p) ? LineString() : LineString({p, best_point});
-- 
2.43.0


From 455959ac10b79a3e28ccfdb65aa6c8b1afb49e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 23/51] fix: overlap objective compares every pair of swaths
 once

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..4ab5e3b 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -15,13 +15,14 @@ double Overlaps::computeCost(const F2CCell& poly, const F2CSwaths& swaths) {
 double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   double area_overlaped {0.0};
   std::vector<F2CCells> areas;
-  for (int i = swaths.size() - 1; i >= 0; --i) {
-    areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
-      if (areas[i].intersects(areas[j])) {
-        area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
+  for (auto&& s : swaths) {
+    auto area = s.areaCovered(poly);
+    for (auto&& other : areas) {
+      if (area.intersects(other)) {
+        area_overlaped += area.intersection(other).area();
       }
     }
+    areas.emplace_back(area);
   }
   return area_overlaped / poly.area();
 }
-- 
2.43.0


From dd3936f858e01676784c7d9342ef3cba0eb1fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 24/51] fix: modified swath count closes each ring with its
 last vertex

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..98e2ffa 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -17,7 +17,7 @@ double NSwathModified::computeCost(
   for (auto&& ring : cell) {
     for (size_t i = 0; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry((i + ring.size() - 1) % ring.size());
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From f171fc966868d8c93c67e7fe026e8413f905cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 25/51] fix: field coverage uses the width of every swath and
 accepts none

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..92e3949 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,13 +15,14 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
-  F2CMultiLineString lines;
+  F2CCells covered;
   for (const auto& s : swaths) {
-    lines.addGeometry(s.getPath());
+    for (const auto& cell : s.areaCovered()) {
+      covered.addGeometry(cell);
+    }
   }
 
-  double area_covered {poly.getCellsInside(
-      F2CCells::buffer(lines, swaths[0].getWidth() / 2.0)).area()};
+  double area_covered {poly.getCellsInside(covered.unionCascaded()).area()};
   return area_covered / poly.area();
 }
 
-- 
2.43.0


From d0168496c59a564832fd967e6267c1654c3ff732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 26/51] fix: route cost includes the moves over empty
 connections

---
 .../objectives/rp_obj/rp_objective.cpp        | 40 ++++++++++++++-----
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..3e5bd60 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (ps.isEmpty() || s.size() == 0) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
@@ -119,16 +122,31 @@ double RPObjective::computeCost(const F2CSwaths& swaths) {
 
 double RPObjective::computeCost(const F2CRoute& r) {
   double dist {0.0};
-  for (auto&& s : r.getVectorSwaths()) {
-    dist += computeCost(s);
-  }
-  for (auto&& s : r.getConnections()) {
-    dist += computeCost(s);
-  }
-  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
-    dist += computeCost(r.getConnection(i), r.getSwaths(i));
-    if (i + 1 < r.sizeConnections()) {
-      dist += computeCost(r.getSwaths(i), r.getConnection(i + 1));
+  // Last swath driven, and the points visited since then
+  const F2CSwath* last_swath {nullptr};
+  const F2CMultiPoint* last_points {nullptr};
+  for (size_t i = 0; i < r.sizeConnections() || i < r.sizeVectorSwaths(); ++i) {
+    if (i < r.sizeConnections() && r.getConnection(i).size() > 0) {
+      const auto& points = r.getConnection(i);
+      if (last_points) {
+        dist += computeCost(last_points->getGeometry(last_points->size() - 1),
+            points.getGeometry(0));
+      } else if (last_swath) {
+        dist += computeCost(*last_swath, points);
+      }
+      dist += computeCost(points);
+      last_points = &points;
+    }
+    if (i < r.sizeVectorSwaths() && r.getSwaths(i).size() > 0) {
+      const auto& swaths = r.getSwaths(i);
+      if (last_points) {
+        dist += computeCost(*last_points, swaths);
+      } else if (last_swath) {
+        dist += computeCost(*last_swath, swaths[0]);
+      }
+      dist += computeCost(swaths);
+      last_swath = &swaths.back();
+      last_points = nullptr;
     }
   }
   return dist;
-- 
2.43.0


From 0de5bf15c846cc5bef3786253660a3b06566ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 27/51] fix: no headland rings from the inside when none are
 asked for

---
 src/fields2cover/headland_generator/constant_headland.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..a68388b 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -26,7 +26,7 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
     }
-  } else {
+  } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
       hl.emplace_back(hl.back().buffer(swath_width));
-- 
2.43.0


From e392980ba1976fd88ab1dd58e85d3445ce81a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 28/51] fix: headland rings from the inside stay within the
 field

---
 src/fields2cover/headland_generator/constant_headland.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a68388b..ccff397 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -29,7 +29,13 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
   } else if (n_swaths > 0) {
     hl.emplace_back(field.buffer(-swath_width * (n_swaths - 0.5)));
     for (int i = 1; i < n_swaths; ++i) {
-      hl.emplace_back(hl.back().buffer(swath_width));
+      auto ring = hl.back().buffer(swath_width);
+      // Growing a ring prolongs its sharp corners, maybe out of the field
+      auto limit = field.buffer(-swath_width * (n_swaths - i - 0.5));
+      if (!ring.within(limit.buffer(1e-6))) {
+        ring = ring.intersection(limit);
+      }
+      hl.emplace_back(ring);
     }
   }
   return hl;
-- 
2.43.0


From b56098462bba2c805acc08e136af4962426c4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 29/51] fix: cells are split along every line, without losing
 ground

---
 src/fields2cover/types/Cells.cpp | 58 ++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index d72c12f..43f8492 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -179,17 +179,61 @@ Cells Cells::unionCascaded() const {
 }
 
 Cells Cells::splitByLine(const LineString& line) const {
-  Cells cells = this->difference(this->buffer(line, 1e-8));
-  for (auto&& c : cells) {
-    c = Cell::buffer(c, 1e-8 * 0.5);
-  }
-  return cells;
+  return this->splitByLine(MultiLineString(line));
 }
 
 Cells Cells::splitByLine(const MultiLineString& lines) const {
-  Cells cells{*this};
+  // Rounding: borders and lines meet at points of a grid, and lines that end
+  // on a border are made longer, as they may stop short of it.
+  const double grid {1e-7};
+  const double tol {1e-6};
+  // Pieces, each with the lines that enter it without splitting it yet.
+  std::vector<std::pair<Cell, MultiLineString>> pieces;
+  for (auto&& cell : *this) {
+    pieces.emplace_back(cell, MultiLineString());
+  }
+  auto ctx = OGRGeometry::createGEOSContext();
   for (auto&& line : lines) {
-    cells = cells.splitByLine(line);
+    const size_t n {line.size()};
+    if (n < 2) {continue;}
+    LineString cut {line.clone()};
+    cut.setGeometry(0, line[0].getPointFromAngle(
+      (line[0] - line[1]).getAngleFromPoint(), tol));
+    cut.setGeometry(n - 1, line[n - 1].getPointFromAngle(
+      (line[n - 1] - line[n - 2]).getAngleFromPoint(), tol));
+
+    std::vector<std::pair<Cell, MultiLineString>> next;
+    for (auto&& piece : pieces) {
+      if (!cut.intersects(piece.first)) {
+        next.emplace_back(piece);
+        continue;
+      }
+      MultiLineString cuts {piece.second.clone()};
+      cuts.addGeometry(cut);
+      auto polygon = piece.first->exportToGEOS(ctx);
+      auto border = GEOSBoundary_r(ctx, polygon);
+      auto inner = cuts->exportToGEOS(ctx);
+      auto edges = GEOSUnionPrec_r(ctx, border, inner, grid);
+      auto faces = GEOSPolygonize_r(ctx, &edges, 1);
+      const Cells found =
+        destroyResGeom<Cells>(OGRGeometryFactory::createFromGEOS(ctx, faces));
+      for (auto&& c : found) {
+        // Lines that overlap may enclose faces without ground
+        if (c.area() > tol * c.getExteriorRing().length() &&
+            Cells::intersection(piece.first, c).area() > 0.5 * c.area()) {
+          next.emplace_back(c.clone(), cuts);
+        }
+      }
+      for (auto g : {polygon, border, inner, edges, faces}) {
+        GEOSGeom_destroy_r(ctx, g);
+      }
+    }
+    pieces = next;
+  }
+  OGRGeometry::freeGEOSContext(ctx);
+  Cells cells;
+  for (auto&& piece : pieces) {
+    cells.addGeometry(piece.first);
   }
   return cells;
 }
-- 
2.43.0


From 71a3bb2804632c720b820eee881c6e78bbe555f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 30/51] fix: trapezoidal split lines stay in the cell of their
 vertex

---
 src/fields2cover/decomposition/trapezoidal_decomp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/decomposition/trapezoidal_decomp.cpp b/src/fields2cover/decomposition/trapezoidal_decomp.cpp
index b9a2c1d..296745e 100644
--- a/src/fields2cover/decomposition/trapezoidal_decomp.cpp
+++ b/src/fields2cover/decomposition/trapezoidal_decomp.cpp
@@ -22,9 +22,9 @@ F2CMultiLineString TrapezoidalDecomp::genSplitLines(
   for (auto&& cell : cells) {
     for (auto&& ring : cell) {
       for (auto&& p : ring) {
-        lines.addGeometry(cells.createLineUntilBorder(
+        lines.addGeometry(cell.createLineUntilBorder(
             p, split_angle));
-        lines.addGeometry(cells.createLineUntilBorder(
+        lines.addGeometry(cell.createLineUntilBorder(
             p, split_angle + M_PI));
       }
     }
-- 
2.43.0


From efb6fea9f1e60e3382886e65310058dadd23c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 31/51] fix: boustrophedon split lines behind edges in the
 split direction

---
 .../decomposition/boustrophedon_decomp.h      |  2 +-
 .../decomposition/boustrophedon_decomp.cpp    | 50 +++++++++----------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/fields2cover/decomposition/boustrophedon_decomp.h b/include/fields2cover/decomposition/boustrophedon_decomp.h
index 0890861..3d3065d 100644
--- a/include/fields2cover/decomposition/boustrophedon_decomp.h
+++ b/include/fields2cover/decomposition/boustrophedon_decomp.h
@@ -29,7 +29,7 @@ class BoustrophedonDecomp : public TrapezoidalDecomp {
       const obj::DecompObjective& obj = obj::DecompObjective()) override;
 
  private:
-  bool isLinePartOfLinearRing(const F2CLinearRing & ring, const F2CLineString & line) const;
+  F2CPoint skipEdges(const F2CLinearRing & ring, const F2CPoint & p, double ang) const;
 };
 
 }  // namespace f2c::decomp
diff --git a/src/fields2cover/decomposition/boustrophedon_decomp.cpp b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
index 62b6af3..0bdad88 100644
--- a/src/fields2cover/decomposition/boustrophedon_decomp.cpp
+++ b/src/fields2cover/decomposition/boustrophedon_decomp.cpp
@@ -9,28 +9,28 @@
 namespace f2c::decomp
 {
 
-bool BoustrophedonDecomp::isLinePartOfLinearRing(
-  const F2CLinearRing & ring,
-  const F2CLineString & line) const
+F2CPoint BoustrophedonDecomp::skipEdges(
+  const F2CLinearRing & ring, const F2CPoint & p, double ang) const
 {
-  if (ring.size() == 0 || line.size() == 0) {return false;}
-
-  // Iterate over the edges (segments) of the ring
-  for (int i = 0; i < ring.size() - 1; ++i) { // Exclude the last point to avoid looping twice
-    auto ringPointStart = ring.getGeometry(i);
-    auto ringPointEnd = ring.getGeometry(i + 1);
-
-    // Check if the line matches the current edge of the ring
-    if ((line.startPoint() == ringPointStart && line.endPoint() == ringPointEnd) ||
-      (line.startPoint() == ringPointEnd && line.endPoint() == ringPointStart))
-    {
-      // The line matches one of the ring edges
-      return true;
+  // The end of the edges of the ring that go from p in the direction of ang.
+  // Their directions are compared because rays along them are not exact.
+  F2CPoint end {p.clone()};
+  for (size_t n = 0; n < ring.size(); ++n) {
+    const F2CPoint start {end.clone()};
+    for (size_t i = 0; i + 1 < ring.size(); ++i) {
+      const auto a = ring.getGeometry(i);
+      const auto b = ring.getGeometry(i + 1);
+      if (start == a && F2CPoint::getAngleDiffAbs((b - a).getAngleFromPoint(), ang) < 1e-7) {
+        end = b;
+      } else if (start == b &&
+        F2CPoint::getAngleDiffAbs((a - b).getAngleFromPoint(), ang) < 1e-7)
+      {
+        end = a;
+      }
     }
+    if (start == end) {break;}
   }
-
-  // If the line doesn't match any edge of the ring, return false
-  return false;
+  return end;
 }
 
 F2CMultiLineString BoustrophedonDecomp::genSplitLines(
@@ -40,14 +40,10 @@ F2CMultiLineString BoustrophedonDecomp::genSplitLines(
   for (auto && cell : cells) {
     for (auto && ring : cell) {
       for (auto && p : ring) {
-        auto line1 = cell.createLineUntilBorder(p, split_angle);
-        while (isLinePartOfLinearRing(ring, line1)) {
-          line1 = cell.createLineUntilBorder(line1.endPoint(), split_angle);
-        }
-        auto line2 = cell.createLineUntilBorder(p, split_angle + M_PI);
-        while (isLinePartOfLinearRing(ring, line2)) {
-          line2 = cell.createLineUntilBorder(line2.endPoint(), split_angle + M_PI);
-        }
+        auto line1 = cell.createLineUntilBorder(
+          skipEdges(ring, p, split_angle), split_angle);
+        auto line2 = cell.createLineUntilBorder(
+          skipEdges(ring, p, split_angle + M_PI), split_angle + M_PI);
 
         if (line1.length() > 1e-5 && line2.length() > 1e-5) {
           split_lines.addGeometry(line1);
-- 
2.43.0


From 28035705df2111805da83c152210c713c8bf02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 32/51] fix: cached turns depend on the discretization and the
 turn speed

---
 src/fields2cover/path_planning/turning_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..d2416eb 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -85,7 +85,9 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
-        static_cast<int>(1e3 * end_angle)
+        static_cast<int>(1e3 * end_angle),
+        static_cast<int>(1e6 * discretization),
+        static_cast<int>(1e3 * robot.getTurnVel())
   };
   auto it = path_cache_.find(v_turn);
   if (it != path_cache_.end()) {
-- 
2.43.0


From b61410de3efefbe5164a43e2a1f5090b78a9e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 33/51] fix: an empty path is not a valid turn

---
 src/fields2cover/path_planning/turning_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index d2416eb..39a425e 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -102,6 +102,7 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
 bool TurningBase::isTurnValid(const types::Path& path,
     double dist_start_end, double end_angle,
     double max_dist, double max_rot_error) {
+  if (path.size() < 1) {return false;}
   for (auto&& s : path) {
     if (s.point.getY() < -max_dist) {
       return false;
-- 
2.43.0


From 411d11e6c08b8dc7ae9dec30ebb12697616a32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 34/51] fix: a path can be appended to itself

---
 src/fields2cover/types/Path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..e0615f3 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -97,8 +97,9 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  const size_t n = path.size();  // path may be this same path
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
-- 
2.43.0


From fa68c7d5beab91f8de794136a93ed3bacbd64a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 35/51] fix: appending an empty swath to a path adds nothing

---
 src/fields2cover/types/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index e0615f3..04a4837 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -209,7 +209,7 @@ double Path::length() const {
 }
 
 void Path::appendSwath(const Swath& swath, double cruise_speed) {
-  for (size_t i = 0; i < swath.numPoints() - 1; ++i) {
+  for (size_t i = 0; i + 1 < swath.numPoints(); ++i) {
     PathState s;
     s.point = swath.getPoint(i);
     auto p_ang = Point(swath.getPoint(i + 1).getX() - swath.getPoint(i).getX(),
-- 
2.43.0


From 7cf103fe343e869729f71fb66017d8596ffc9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 36/51] fix: the position after the whole length of a path is
 its end

---
 src/fields2cover/types/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 04a4837..e671a51 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -234,7 +234,8 @@ PathState Path::at(double len) const {
   PathState state_at;
   for (size_t i = 0; i < this->size(); ++i) {
     double len_state = fabs(states_[i].len);
-    if (len_state < len) {
+    // The last section takes what is left because of rounding errors
+    if (len_state < len && i + 1 < this->size()) {
       len -= len_state;
     } else {
       state_at = states_[i];
-- 
2.43.0


From 75a78f00d8ee1984b175d9c5d5c31d22b9a90f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 37/51] fix: an empty path is an empty line

---
 src/fields2cover/types/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index e671a51..d3acec3 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -429,7 +429,9 @@ LineString Path::toLineString() const {
   for (auto&& s : this->states_) {
     line.addPoint(s.point);
   }
-  line.addPoint(this->atEnd());
+  if (this->size() > 0) {
+    line.addPoint(this->atEnd());
+  }
   return line;
 }
 
-- 
2.43.0


From 599d9f063793c28f94ecaa06173267f2eb4107c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 38/51] fix: reducing a path keeps the speed of its sections

---
 src/fields2cover/types/Path.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index d3acec3..d331285 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -405,6 +405,7 @@ Path& Path::reduce(double min_dist_equal) {
     while (j < N &&
         this->states_[i].type == this->states_[j].type &&
         this->states_[i].dir == this->states_[j].dir &&
+        this->states_[i].velocity == this->states_[j].velocity &&
         this->states_[i].point.distance(
           this->states_[j].point) < min_dist_equal) {
       new_len += this->states_[j].len;
-- 
2.43.0


From 87e3f71809d9f20b55c2cb62d6461c544d2d04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 39/51] fix: discretizing a short path does not lose it

---
 src/fields2cover/types/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index d331285..b303924 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -346,7 +346,7 @@ void Path::loadFile(const std::string& file) {
 }
 
 Path& Path::populate(int number_points) {
-  if (this->size() < 3) { return *this;}
+  if (this->size() < 3 || number_points < 1) { return *this;}
 
   std::vector<double> x, y, ang_prov, old_vel, len;
   std::vector<PathDirection> old_dir;
@@ -362,6 +362,8 @@ Path& Path::populate(int number_points) {
       old_type.emplace_back(this->states_[i].type);
     }
   }
+  if (len.empty()) { return *this;}
+
   x.emplace_back(this->states_.back().atEnd().getX());
   y.emplace_back(this->states_.back().atEnd().getY());
   ang_prov.emplace_back(this->states_.back().angle);
-- 
2.43.0


From 0f9df3e48abb4bddb276802fbeda2786269ad703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 40/51] fix: paths go on over empty groups of swaths in a route

---
 src/fields2cover/path_planning/path_planning.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index f4723ab..5cfe96b 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -12,16 +12,24 @@ namespace f2c::pp {
 F2CPath PathPlanning::planPath(const F2CRobot& robot,
     const F2CRoute& route, TurningBase& turn) {
   F2CPath path;
+  F2CSwaths prev_swaths;
+  F2CMultiPoint connection;  // Points to visit since the last swath
   for (size_t i = 0; i < route.sizeVectorSwaths(); ++i) {
-    auto prev_swaths = (i >0) ? route.getSwaths(i-1) : F2CSwaths();
+    connection.addPoints(route.getConnection(i));
+    if (route.getSwaths(i).size() < 1) {
+      continue;
+    }
     path += planPathForConnection(robot,
-        prev_swaths, route.getConnection(i), route.getSwaths(i), turn);
+        prev_swaths, connection, route.getSwaths(i), turn);
     path += planPath(robot, route.getSwaths(i), turn);
+    prev_swaths = route.getSwaths(i);
+    connection = F2CMultiPoint();
   }
   if (route.sizeConnections() > route.sizeVectorSwaths()) {
-    path += planPathForConnection(robot,
-      route.getLastSwaths(), route.getLastConnection(), F2CSwaths(), turn);
+    connection.addPoints(route.getLastConnection());
   }
+  path += planPathForConnection(robot,
+      prev_swaths, connection, F2CSwaths(), turn);
   return path;
 }
 
-- 
2.43.0


From a133be9b898bd4b639b49dbdb56be34287e62fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 41/51] fix: paths start and end at connections of one point

---
 src/fields2cover/path_planning/path_planning.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/path_planning/path_planning.cpp b/src/fields2cover/path_planning/path_planning.cpp
index 5cfe96b..bcce3bf 100644
--- a/src/fields2cover/path_planning/path_planning.cpp
+++ b/src/fields2cover/path_planning/path_planning.cpp
@@ -62,18 +62,25 @@ F2CPath PathPlanning::planPathForConnection(const F2CRobot& robot,
   if (s1.size() > 0) {
     p1 = s1.back().endPoint();
     ang1 = s1.back().getOutAngle();
-  } else if (mp.size() > 0) {
+  } else if (mp.size() > 1) {
     p1 = mp[0];
     ang1 = mp.getOutAngle(0);
+  } else if (mp.size() == 1 && s2.size() > 0 &&
+      mp[0] != s2[0].startPoint()) {
+    p1 = mp[0];
+    ang1 = (s2[0].startPoint() - p1).getAngleFromPoint();
   } else {
     return {};
   }
   if (s2.size() > 0) {
     p2 = s2[0].startPoint();
     ang2 = s2[0].getInAngle();
-  } else if (mp.size() > 0) {
+  } else if (mp.size() > 1) {
     p2 = mp.getLastPoint();
     ang2 = mp.getInAngle(mp.size()-1);
+  } else if (mp.size() == 1 && mp[0] != p1) {
+    p2 = mp[0];
+    ang2 = (p2 - p1).getAngleFromPoint();
   } else {
     return {};
   }
-- 
2.43.0


From cacbe266f07ce5b34cc887d50d71cc500ad1e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 42/51] fix: planning a route without swaths does not crash

---
 src/fields2cover/route_planning/route_planner_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..736768a 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -22,6 +22,9 @@ F2CRoute RoutePlannerBase::genRoute(
     const F2CCells& cells, const F2CSwathsByCells& swaths,
     bool show_log, double d_tol, bool redirect_swaths,
     long int time_limit_seconds, bool search_for_optimum) {
+  if (swaths.sizeTotal() == 0) {
+    return F2CRoute();
+  }
   F2CGraph2D shortest_graph = createShortestGraph(cells, swaths, d_tol);
 
   F2CGraph2D cov_graph = createCoverageGraph(
@@ -197,7 +200,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
+  for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
     for (int j = 0; j < NS; ++j) {
@@ -220,7 +223,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
       }
     }
   }
-  if (r_start_end) {
+  if (r_start_end && !route.isEmpty()) {
     route.addConnection(shortest_graph.shortestPath(
           route.endPoint(), *r_start_end));
   }
-- 
2.43.0


From 03da7bf5d7ca51a57f5e7d963cb625537e29473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 43/51] fix: swaths that start at the start point of the route
 are not lost

---
 .../route_planning/route_planner_base.cpp          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 736768a..336fd99 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -130,16 +130,16 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
     }
   }
 
-  F2CPoint deposit(-1e8, -1e8);  // Arbitrary point
-  if (this->r_start_end) {
-    deposit = *this->r_start_end;
-  }
-
+  // Arbitrary point. The deposit is a node of its own, also when the route
+  //   starts at a swath.
+  F2CPoint deposit(-1e8, -1e8);
   for (auto&& swaths : swaths_by_cells) {
     for (auto&& s : swaths) {
       if (this->r_start_end) {
-        g.addEdge(s.startPoint(), deposit, shortest_graph);
-        g.addEdge(s.endPoint(), deposit, shortest_graph);
+        g.addEdge(s.startPoint(), deposit,
+            shortest_graph.shortestPathCost(s.startPoint(), *r_start_end));
+        g.addEdge(s.endPoint(), deposit,
+            shortest_graph.shortestPathCost(s.endPoint(), *r_start_end));
       } else {
         g.addEdge(s.startPoint(), deposit, 0);
         g.addEdge(s.endPoint(), deposit, 0);
-- 
2.43.0


From 45030943af636e5f44ebc1877148f2223d18498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 44/51] fix: routes start at their start point when no move is
 needed

---
 src/fields2cover/route_planning/route_planner_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 336fd99..bd59b18 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -209,16 +209,20 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
         if (route.isEmpty() && r_start_end) {
           route.addConnection(shortest_graph.shortestPath(
                 *r_start_end, swath.startPoint()));
+          route.addSwath(swath);
+        } else {
+          route.addSwath(swath, shortest_graph);
         }
-        route.addSwath(swath, shortest_graph);
         break;
       } else if (p_e == swath.startPoint() && p_s == swath.endPoint()) {
         swath.reverse();
         if (route.isEmpty() && r_start_end) {
           route.addConnection(shortest_graph.shortestPath(
                 *r_start_end, swath.startPoint()));
+          route.addSwath(swath);
+        } else {
+          route.addSwath(swath, shortest_graph);
         }
-        route.addSwath(swath, shortest_graph);
         break;
       }
     }
-- 
2.43.0


From 78220487176422f7adfa78252ea9cf7222c48d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 45/51] fix: rotating points keeps their height

---
 src/fields2cover/types/Point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index 526a07f..f769b4c 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -126,7 +126,8 @@ Point Point::rotateFromPoint(double angle, const Point& p_r) const {
   double p_x = p_r.X() - x;
   double p_y = p_r.Y() - y;
   return Point(p_x * c - p_y * s + x,
-               p_x * s + p_y * c + y);
+               p_x * s + p_y * c + y,
+               p_r.getZ());
 }
 
 double Point::getAngleFromPoints(const Point& end) const {
-- 
2.43.0


From 6881185fa307e27f62cfb6e0143066f5e3fe0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 46/51] fix: closest point of lines and rings of one point

---
 src/fields2cover/types/LineString.cpp | 3 +++
 src/fields2cover/types/LinearRing.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..e457c00 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -128,6 +128,9 @@ double LineString::endAngle() const {
 }
 
 Point LineString::closestPointTo(const Point& p) const {
+  if (this->size() == 1) {
+    return this->startPoint();
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..e7b68f8 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -134,6 +134,9 @@ LinearRing& LinearRing::closeRing() {
 }
 
 Point LinearRing::closestPointTo(const Point& p) const {
+  if (this->size() == 1) {
+    return this->startPoint();
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
-- 
2.43.0


From e3c3f0eb7db259127dfd8a72a7cb2ba274dc455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 47/51] fix: empty lines have no segments

---
 src/fields2cover/types/MultiLineString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index d2ed8f9..e1246df 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -135,7 +135,7 @@ void MultiLineString::addGeometry(const MultiLineString& lines) {
 
 MultiLineString MultiLineString::getLineSegments(const LineString& line) {
   MultiLineString res;
-  for (size_t i = 0; i < line.size()-1; ++i) {
+  for (size_t i = 0; i + 1 < line.size(); ++i) {
     res.addGeometry(LineString({line.getGeometry(i), line.getGeometry(i+1)}));
   }
   return res;
-- 
2.43.0


From 9bc90f222fb72ed5c3282f45f62bf8e0893b6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 48/51] fix: continuity of an empty list of angles

---
 include/fields2cover/types/Geometry_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index dc40a8a..f5ba477 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -193,6 +193,9 @@ double Geometry<T, R>::getAngContinuity(double prev_val, double val) {
 template <class T, OGRwkbGeometryType R>
 std::vector<double> Geometry<T, R>::getAngContinuity(
     const std::vector<double>& val) {
+  if (val.empty()) {
+    return {};
+  }
   std::vector<double> res {val[0]};
   for (size_t i = 1; i < val.size(); ++i) {
     res.emplace_back(getAngContinuity(res[i - 1], val[i]));
-- 
2.43.0


From 4ffa52542377629a8e367c74012429a3f1baf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 49/51] fix: headland rings from the inside do not cover
 obstacles when growing fails

---
 src/fields2cover/headland_generator/constant_headland.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index ccff397..0c229b9 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -32,7 +32,10 @@ std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
       auto ring = hl.back().buffer(swath_width);
       // Growing a ring prolongs its sharp corners, maybe out of the field
       auto limit = field.buffer(-swath_width * (n_swaths - i - 0.5));
-      if (!ring.within(limit.buffer(1e-6))) {
+      if (!ring->IsValid()) {
+        // Growing may fail where a ring meets itself, losing obstacles
+        ring = limit;
+      } else if (!ring.within(limit.buffer(1e-6))) {
         ring = ring.intersection(limit);
       }
       hl.emplace_back(ring);
-- 
2.43.0


From 6c780413d40faf8f29b275bb428116bbf4ffea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 50/51] fix: splitting cells kept faces outside them when GEOS
 misjudged their intersection

---
 src/fields2cover/types/Cells.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index 43f8492..b5a041e 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -218,11 +218,16 @@ Cells Cells::splitByLine(const MultiLineString& lines) const {
       const Cells found =
         destroyResGeom<Cells>(OGRGeometryFactory::createFromGEOS(ctx, faces));
       for (auto&& c : found) {
-        // Lines that overlap may enclose faces without ground
-        if (c.area() > tol * c.getExteriorRing().length() &&
-            Cells::intersection(piece.first, c).area() > 0.5 * c.area()) {
+        if (c.area() <= tol * c.getExteriorRing().length()) {continue;}
+        // Faces without ground, outside the piece, have its border around them
+        auto face = c->exportToGEOS(ctx);
+        auto inner_point = GEOSPointOnSurface_r(ctx, face);
+        if (destroyResGeom<Point>(OGRGeometryFactory::createFromGEOS(
+              ctx, inner_point)).within(piece.first)) {
           next.emplace_back(c.clone(), cuts);
         }
+        GEOSGeom_destroy_r(ctx, inner_point);
+        GEOSGeom_destroy_r(ctx, face);
       }
       for (auto g : {polygon, border, inner, edges, faces}) {
         GEOSGeom_destroy_r(ctx, g);
-- 
2.43.0


From d689bdbe5c95a8213fd92a3cb5063aa55bd52740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 51/51] fix: planning without headland swaths drove on a ring
 that is not there

With the constant headland and no headland swaths, planCovRoute and
planCovPath took the first of an empty list of rings.
---
 src/fields2cover.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..8272148 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,9 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      // Without headland swaths, drive on the borders of the field
+      fast_hl_rings = hl_swaths.empty() ? cells :
+          hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


#pragma once
#include "route_common.h"
#include "ortools/constraint_solver/routing.h"
#include "fields2cover/route_planning/route_planner_base.h"
#include "fields2cover/types/SwathsByCells.h"
using f2c::types::SwathsByCells; using f2c::types::Graph2D; using f2c::rp::RoutePlannerBase;
inline LinearRing rect(double x0, double y0, double x1, double y1) { return LinearRing({Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x0, y0)}); }
static const int64_t NOEDGE = 1 << 30;
inline int64_t edgeCost(const Graph2D& g, const Point& a, const Point& b) { return g.getCostFromEdge(g.nodeToIndex(a), g.nodeToIndex(b)); }
inline bool at(const Point& a, const Point& b) { return a == b; }
// tours: any order of the nodes whose steps all have a finite cost, back to the depot included
inline std::vector<int> anyTour(int n, int depot, const std::function<int64_t(int64_t, int64_t)>& cost, const operations_research::RoutingIndexManager& m) {
  std::vector<int> t; std::vector<bool> used(n); used[depot] = true; int cur = depot;
  auto ok = [&](int a, int b) { return cost(m.NodeToIndex(operations_research::RoutingIndexManager::NodeIndex(a)), m.NodeToIndex(operations_research::RoutingIndexManager::NodeIndex(b))) < NOEDGE / 2; };
  while ((int)t.size() < n - 1) { std::vector<int> c; for (int k = 0; k < n; k++) if (!used[k] && ok(cur, k)) c.push_back(k); if (c.empty()) sx_ignore_path("a partial tour that cannot be completed"); int k = c.size() == 1 ? c[0] : c[sx_choose("next", 0, (int)c.size() - 1)]; used[k] = true; t.push_back(k); cur = k; }
  if (n > 1 && !ok(cur, depot)) sx_ignore_path("a partial tour that cannot be completed"); return t;
}

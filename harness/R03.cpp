//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Route.cpp types/Graph.cpp types/Graph2D.cpp route_planning/route_planner_base.cpp
//@ native: model
//@ bound: every tour of finite cost over 1 to 3 swaths in one or two cells (4 swaths in the thorough run) inside one rectangular headland ring with or without a hole; swaths at arbitrary places inside unit intervals; with and without start point (on the ring, off the ring, or at a swath end), with and without redirection; five tours over 7 swaths
//@ assume: the routing solver (OR-tools) is a stub returning any tour of finite cost; swath ends and middles are pairwise different points; the headland is connected
#include "plan_common.h"
static std::vector<Swath> field(SwathsByCells& sbc, int n, bool two) {
  std::vector<Swath> all; Swaths a, b; for (int i = 0; i < n; i++) { double x = 2.0 * i + 1.25 + (i == 0 ? sx_double("t", 0, 0.5) : 0.25 * i); bool up = i != 1; Swath s(LineString(Point(x, up ? 1 : 9), Point(x, up ? 9 : 1)), 1.5 + i, 10 + i, i == 1 ? SwathType::HEADLAND : SwathType::MAINLAND); if (two && i == n - 1) b.emplace_back(s); else a.emplace_back(s); all.push_back(s.clone()); }
  sbc.emplace_back(a); if (two) sbc.emplace_back(b); return all; }
// one of a few tours over many swaths
static int pattern = 0;
inline std::vector<int> someTour(int n, int depot, const std::function<int64_t(int64_t, int64_t)>& cost, const operations_research::RoutingIndexManager& m) {
  std::vector<int> t; std::vector<bool> used(n); used[depot] = true; int cur = depot, step = 0; typedef operations_research::RoutingIndexManager::NodeIndex NI;
  auto ok = [&](int a, int b) { return cost(m.NodeToIndex(NI(a)), m.NodeToIndex(NI(b))) < NOEDGE / 2; };
  while ((int)t.size() < n - 1) { std::vector<int> c; for (int k = 0; k < n; k++) if (!used[k] && ok(cur, k)) c.push_back(k); if (c.empty()) sx_ignore_path("a partial tour that cannot be completed"); int k = c[(size_t)(pattern * (++step)) % c.size()]; used[k] = true; t.push_back(k); cur = k; }
  if (n > 1 && !ok(cur, depot)) sx_ignore_path("a partial tour that cannot be completed"); return t; }
static void run(int n, bool two, int start, bool redirect, bool whole, bool some = false) {
  SwathsByCells sbc; auto all = field(sbc, n, two); Cells hl; Cell c(rect(0, 0, some ? 20 : 10, 10)); hl.addGeometry(c); operations_research::tour_hook = anyTour; if (some) operations_research::tour_hook = someTour; RoutePlannerBase rp; Point se; if (start) { se = start == 1 ? Point(0, 5) : start == 2 ? Point(-3, 4) : all.back().endPoint(); rp.setStartAndEndPoint(se); }
  Graph2D g = rp.createShortestGraph(hl, sbc, 1e-4); Route r;
  if (whole) r = rp.genRoute(hl, sbc, false, 1e-4, redirect); else { auto cov = rp.createCoverageGraph(hl, sbc, g, 1e-4, redirect); auto ids = rp.computeBestRoute(cov, false, 1); sx_assert((int)ids.size() == 3 * n, "a tour visits both ends and the middle of every swath"); r = rp.transformSolutionToRoute(ids, sbc, cov, g); }
  std::vector<Swath> got; for (size_t i = 0; i < r.sizeVectorSwaths(); i++) for (size_t k = 0; k < r.getSwaths(i).size(); k++) got.push_back(r.getSwaths(i).at(k));
  sx_assert((int)got.size() == n, "every swath is covered exactly once"); std::vector<bool> seen(n);
  for (auto& s : got) { int k = s.getId() - 10; sx_assert(k >= 0 && k < n && !seen[k], "every swath is covered exactly once"); seen[k] = true; auto& o = all[k]; bool fwd = at(s.startPoint(), o.startPoint()) && at(s.endPoint(), o.endPoint()), rev = at(s.startPoint(), o.endPoint()) && at(s.endPoint(), o.startPoint()); sx_assert(fwd || (redirect && rev), "a swath is entered at one end and left at the other"); if (rev) sx_reach("reversed"); sx_assert_eq(s.getWidth(), o.getWidth(), "a swath keeps its width"); sx_assert(s.getType() == o.getType(), "a swath keeps its type"); sx_assert((s.getCreationDir() == o.getCreationDir()) == fwd, "a reversed swath is marked so"); }
  sx_assert(r.sizeVectorSwaths() == r.sizeConnections() || r.sizeVectorSwaths() + 1 == r.sizeConnections(), "connections and swaths alternate");
  // walk the route: consecutive points are the same point, a swath, or an edge of the headland graph
  auto joined = [&](const MultiPoint& m, const Point& from, const Point& to) { if (m.size() == 0) { sx_assert(at(from, to), "pieces of a route are joined"); return; } sx_assert(at(m.getFirstPoint(), from) && at(m.getLastPoint(), to), "a connection goes from the end of one piece to the start of the next"); int64_t cost = 0; for (size_t k = 0; k + 1 < m.size(); k++) { if (at(m[k], m[k + 1])) continue; int64_t e = edgeCost(g, m[k], m[k + 1]); sx_assert(e < NOEDGE, "a connection runs along the headland graph"); cost += e; } sx_assert(cost == g.shortestPathCost(from, to), "a connection is a shortest one"); };
  Point cur = got[0].startPoint(); size_t gi = 0;
  for (size_t i = 0; i < r.sizeConnections(); i++) { auto m = r.getConnection(i); bool has = i < r.sizeVectorSwaths(); if (has) sx_assert(r.getSwaths(i).size() == 1, "one swath between two connections");
    Point to = has ? r.getSwaths(i).at(0).startPoint() : cur; if (i == 0) { if (start) joined(m, se, to); else sx_assert(m.size() == 0, "no connection before the first swath without a start point"); } else if (has) joined(m, cur, to); else { sx_assert(start, "no connection after the last swath without an end point"); joined(m, cur, se); }
    if (has) cur = r.getSwaths(i).at(0).endPoint(); gi++; }
  if (start) { sx_assert(at(r.startPoint(), se) && at(r.endPoint(), se), "the route starts and ends at the requested point"); sx_assert(at(se, cur) || r.sizeConnections() == r.sizeVectorSwaths() + 1, "the route returns to the requested point"); }
}
SX_HARNESS(R03_any_tour) { int n = sx_choose("swaths", 1, 3); run(n, n > 1 && sx_choose("two cells", 0, 1), sx_choose("start", 0, 2), sx_choose("redirect", 0, 1), false); }
SX_HARNESS(R03_start_at_swath) { run(sx_choose("swaths", 1, 2), false, 3, sx_choose("redirect", 0, 1), sx_choose("whole", 0, 1)); }
SX_HARNESS(R03_whole) { run(2, sx_choose("two cells", 0, 1), sx_choose("start", 0, 1), sx_choose("redirect", 0, 1), true); }
SX_HARNESS(R03_many) { pattern = sx_choose("pattern", 0, 4); run(7, sx_choose("two cells", 0, 1), sx_choose("start", 0, 1), sx_choose("redirect", 0, 1), false, true); }
//@ thorough_only: R03_four
SX_HARNESS(R03_four) { run(4, sx_choose("two cells", 0, 1), sx_choose("start", 0, 1), sx_choose("redirect", 0, 1), false); }
SX_HARNESS(R03_short) { // solutions too short for a swath
  SwathsByCells sbc; field(sbc, 2, false); Cells hl; hl.addGeometry(Cell(rect(0, 0, 10, 10))); RoutePlannerBase rp; Graph2D g = rp.createShortestGraph(hl, sbc, 1e-4); auto cov = rp.createCoverageGraph(hl, sbc, g, 1e-4); int n = sx_choose("ids", 0, 2); std::vector<long long int> ids; for (int i = 0; i < n; i++) ids.push_back(i); Route r = rp.transformSolutionToRoute(ids, sbc, cov, g); sx_assert(r.isEmpty(), "a solution without swaths is an empty route"); }

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Route.cpp types/Graph.cpp types/Graph2D.cpp route_planning/route_planner_base.cpp
//@ native: model
//@ bound: one rectangular headland ring (with or without a rectangular hole that joins it) and 1 or 2 vertical swaths at arbitrary places inside unit intervals, ending inside the ring or on it (3 swaths in the thorough run); start point on, off or missing
//@ assume: swath ends, middles and ring vertices are pairwise different points more than the joining tolerance apart; costs are truncated to whole millimetres per edge
#include "plan_common.h"
static const double W = 10, H = 6;
static double along(const Point& p) { if (p.getY() == 0) return p.getX(); if (p.getX() == W) return W + p.getY(); if (p.getY() == H) return W + H + (W - p.getX()); return 2 * W + H + (H - p.getY()); }
static double apart(double a, double b) { double d = std::fabs(a - b), L = 2 * (W + H); return std::min(d, L - d); }
struct Case { SwathsByCells sbc; std::vector<Swath> all; Cells hl; std::vector<Point> foot, tip; };
static void end(Case& c, double x, bool top, double in) { c.tip.push_back(Point(x, top ? H - in : in)); c.foot.push_back(Point(x, top ? H : 0)); }
static void make(Case& c, int n, bool two) {
  Swaths a, b; for (int i = 0; i < n; i++) { double x = 2.0 * i + 2.25 + (i < 2 ? sx_double(("t" + std::to_string(i)).c_str(), 0, 0.5) : 0); double in = i == 0 ? (sx_choose("ends on the ring", 0, 1) ? 0 : 0.5) : 0.75 * (i - 1); bool up = i != 1; end(c, x, !up, in); end(c, x, up, in); Swath s(LineString(c.tip[2 * i], c.tip[2 * i + 1]), 1.5, 10 + i); if (two && i == n - 1) b.emplace_back(s); else a.emplace_back(s); c.all.push_back(s.clone()); }
  c.sbc.emplace_back(a); if (two) c.sbc.emplace_back(b); c.hl.addGeometry(Cell(rect(0, 0, W, H))); }
static void sane(Graph2D& g) { // every edge costs its distance in whole millimetres, alike in both directions
  auto es = g.getEdges(); for (auto& e : es) for (auto& f : e.second) { Point a = g.indexToNode(e.first), b = g.indexToNode(f.first); double d = a.distance(b); sx_assert(f.second <= 1000 * d && f.second > 1000 * d - 1, "an edge costs its distance"); sx_assert(g.getCostFromEdge(f.first, e.first) == f.second, "edges go both ways at the same cost"); } }
static void near(int64_t c, double d, int edges, const char* m) { sx_assert(c <= 1000 * d && c >= 1000 * d - edges, m); }
SX_HARNESS(R04_headland) {
  Case c; int n = sx_choose("swaths", 1, sx_thorough() ? 3 : 2); make(c, n, n > 1 && sx_choose("two cells", 0, 1)); int start = sx_choose("start", 0, 2); RoutePlannerBase rp; Point se = start == 1 ? Point(-2, 3) : Point(W, 2); if (start) { rp.setStartAndEndPoint(se); c.tip.push_back(se); c.foot.push_back(start == 1 ? Point(0, 3) : se); }
  Graph2D g = rp.createShortestGraph(c.hl, c.sbc, 1e-4); sane(g); int edges = (int)g.numNodes();
  static const double q[5][2] = {{0, 0}, {W, 0}, {W, H}, {0, H}, {0, 0}}; for (int k = 0; k < 4; k++) { Point a(q[k][0], q[k][1]), b(q[k + 1][0], q[k + 1][1]); near(g.shortestPathCost(a, b), k % 2 ? H : W, edges, "every border segment is in the graph at its length"); auto p = g.shortestPath(a, b); for (auto& x : p) sx_assert(k == 0 ? x.getY() == 0 : k == 1 ? x.getX() == W : k == 2 ? x.getY() == H : x.getX() == 0, "a border segment is travelled along the border"); }
  for (size_t i = 0; i < c.tip.size(); i++) { near(g.shortestPathCost(c.tip[i], c.foot[i]), std::fabs(c.tip[i].getX() - c.foot[i].getX()) + std::fabs(c.tip[i].getY() - c.foot[i].getY()), 1, "every swath end is attached to the nearest border point"); 
    for (size_t k = i + 1; k < c.tip.size(); k++) { double d = c.tip[i].distance(c.foot[i]) + c.tip[k].distance(c.foot[k]) + apart(along(c.foot[i]), along(c.foot[k])); near(g.shortestPathCost(c.tip[i], c.tip[k]), d, edges, "the cost between ends is the distance along the headland"); } }
}
SX_HARNESS(R04_hole) { // a hole whose ring is tied to the outer ring by a swath
  Cells hl; Cell cell(rect(0, 0, 10, 10)); cell.addRing(rect(4, 4, 6, 6)); hl.addGeometry(cell); SwathsByCells sbc; Swaths s; double x = 4.25 + sx_double("t", 0, 0.5); s.emplace_back(Swath(LineString(Point(x, 0), Point(x, 4)), 1, 0)); sbc.emplace_back(s); RoutePlannerBase rp; Graph2D g = rp.createShortestGraph(hl, sbc, 1e-4); sane(g);
  for (int k = 0; k < 4; k++) { auto r = rect(4, 4, 6, 6); near(g.shortestPathCost(r[k], r[k + 1]), 2, 3, "every hole segment is in the graph at its length"); auto o = rect(0, 0, 10, 10); near(g.shortestPathCost(o[k], o[k + 1]), 10, 3, "every border segment is in the graph at its length"); } near(g.shortestPathCost(Point(x, 4), Point(4, 4)), x - 4, 1, "a swath end on the hole splits its ring"); near(g.shortestPathCost(Point(x, 0), Point(10, 0)), 10 - x, 1, "a swath end on the border splits its ring"); }
SX_HARNESS(R04_visiting) {
  Case c; int n = sx_choose("swaths", 1, 2); make(c, n, n > 1 && sx_choose("two cells", 0, 1)); int start = sx_choose("start", 0, 1); RoutePlannerBase rp; Point se(-2, 3); if (start) rp.setStartAndEndPoint(se); bool redirect = sx_choose("redirect", 0, 1); Graph2D sg = rp.createShortestGraph(c.hl, c.sbc, 1e-4); Graph2D g = rp.createCoverageGraph(c.hl, c.sbc, sg, 1e-4, redirect); 
  sx_assert((int)g.numNodes() == 3 * n + 1, "the visiting graph has two ends and a middle per swath, and a depot"); Point dep = g.indexToNode(g.numNodes() - 1);
  for (auto& s : c.all) { Point a = s.startPoint(), b = s.endPoint(), m = (a + b) * 0.5; sx_assert(edgeCost(g, a, m) == 0 && edgeCost(g, m, b) == 0, "driving a swath is free"); if (redirect) sx_assert(edgeCost(g, b, m) == 0 && edgeCost(g, m, a) == 0, "driving a swath backwards is free when allowed"); else sx_assert(edgeCost(g, b, m) >= NOEDGE && edgeCost(g, m, a) >= NOEDGE, "a swath has one direction unless redirected"); sx_assert(edgeCost(g, m, dep) >= NOEDGE && edgeCost(g, dep, m) >= NOEDGE, "a tour cannot start inside a swath");
    for (auto* e : {&a, &b}) { int64_t want = start ? sg.shortestPathCost(*e, se) : 0; sx_assert(edgeCost(g, *e, dep) == want && edgeCost(g, dep, *e) == want, "the depot costs the way to the start point, or nothing"); }
    for (auto& t : c.all) { if (s.getId() == t.getId()) continue; Point u = t.startPoint(), v = t.endPoint(), w = (u + v) * 0.5; sx_assert(edgeCost(g, b, u) == sg.shortestPathCost(b, u), "swath ends are linked at the cost of the shortest headland path"); sx_assert(edgeCost(g, b, w) >= NOEDGE && edgeCost(g, w, a) >= NOEDGE && edgeCost(g, m, u) >= NOEDGE, "middles join only their own ends");
      if (redirect) sx_assert(edgeCost(g, a, u) == sg.shortestPathCost(a, u) && edgeCost(g, a, v) == sg.shortestPathCost(a, v) && edgeCost(g, b, v) == sg.shortestPathCost(b, v), "swath ends are linked at the cost of the shortest headland path"); else sx_assert(edgeCost(g, a, u) >= NOEDGE && edgeCost(g, b, v) >= NOEDGE && edgeCost(g, a, v) >= NOEDGE, "without redirection only ends lead to starts"); } }
}

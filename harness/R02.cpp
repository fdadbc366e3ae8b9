//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Route.cpp
//@ native: gdal
//@ bound: routes of up to 3 pieces of each kind (0 to 2 points per connection, 0 to 2 swaths per group, swaths of 2 or 3 points), arbitrary points; one edit after copying; one route of 6 pieces
#include "route_common.h"
static Rec build(Route& r, int np) {
  Rec q; int fresh = 0; bool first = true;
  for (int i = 0; i < np; i++) { 
    int c = np > 2 ? i % 3 : sx_choose("points", 0, 2); std::vector<Point> ps; for (int k = 0; k < c; k++) ps.push_back(pnt("p" + std::to_string(fresh++))); r.addConnection(ps); q.conns.push_back(ps);
    if (i == np - 1 && sx_choose("ends with connection", 0, 1)) break;
    int n = np > 2 ? (i + 1) % 3 : sx_choose("swaths", 0, 2); Swaths v; std::vector<Swath> g; for (int k = 0; k < n; k++) { int id = fresh++; std::string nm = "s" + std::to_string(id); Point a = pnt(nm + ".a"), b = pnt(nm + ".b"); LineString l(a, b); if (k == 1) l.addPoint(pnt(nm + ".c")); Swath s(l, 2.5, id); v.emplace_back(s); g.push_back(s); } r.addSwaths(v); q.groups.push_back(g); (void)first; }
  return q;
}
static void check(const Route& r, const Rec& q, const char* m) {
  auto v = line(q); LineString l = r.asLineString(); sx_assert(l.size() == v.size(), "the line of a route has exactly its points"); for (size_t i = 0; i < v.size(); i++) same(l[i], v[i], "the line of a route visits its points in order");
  if (!v.empty()) { same(r.startPoint(), v.front(), "a route starts at its first point"); same(r.endPoint(), v.back(), "a route ends at its last point"); }
  (void)m;
}
SX_HARNESS(R02_line) { Route r; Rec q = build(r, sx_size("pieces", 0, 2, 6)); holds(r, q); check(r, q, ""); Route c = r.clone(); holds(c, q); check(c, q, ""); }
SX_HARNESS(R02_clone) { Route r; Rec q = build(r, sx_size("pieces", 1, 2, 6)); if (q.groups.empty() || q.groups[0].empty()) sx_ignore_path("no swath to edit"); Route c = r.clone(); Rec q2 = q; for (auto& g : q2.groups) for (auto& s : g) s = s.clone(); q = q2; bool side = sx_choose("edit original", 0, 1); Route& e = side ? r : c; Route& k = side ? c : r; int how = sx_choose("how", 0, 4);
  if (how == 0) e.getSwaths(0).at(0).reverse(); else if (how == 1) e.getConnection(0).addPoint(pnt("x")); else if (how == 2) e.getSwaths(0).at(0).moveTo(pnt("x")); else if (how == 3) e.addConnection(pnt("x")); else { Swaths s; e.setSwaths(0, s); } holds(k, q); }
SX_HARNESS(R02_length) { // along the axes the length is a sum of coordinate differences
  Route r; double x0 = num("x0", 0, 10), x1 = num("x1", 0, 10), y0 = num("y0", 0, 10), y1 = num("y1", 0, 10); int shape = sx_choose("shape", 0, 3); double want; 
  if (shape == 0) { r.addConnection(Point(0, 0)); r.addSwath(mk(Point(x0, 0), Point(x0, y0), 1, 0)); want = x0 + y0; } 
  else if (shape == 1) { r.addSwath(mk(Point(x0, 0), Point(x0, y0), 1, 0)); r.addConnection(Point(x0 + x1, y0)); r.addSwath(mk(Point(x0 + x1, y0 + y1), Point(x0, y0 + y1), 1, 1)); want = y0 + x1 + y1 + x1; }
  else if (shape == 2) { r.addSwath(mk(Point(x0, 0), Point(x0, y0), 1, 0)); want = y0; } else { r.addConnection(std::vector<Point>{Point(x0, 0), Point(x0, y0), Point(x0 + x1, y0)}); want = y0 + x1; }
  sx_assert_eq(r.length(), want, "the length of a route is the length of its line"); sx_assert_eq(r.length(), r.asLineString().length(), "the length of a route is the length of its line"); Route e; sx_assert(e.length() == 0 && e.isEmpty() && e.asLineString().size() == 0, "an empty route has no length"); sx_assert_eq(r.clone().length(), want, "a copy has the same length"); }

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp objectives/sg_obj/sg_objective.cpp objectives/sg_obj/n_swath_modified.cpp
//@ native: model
//@ bound: borders (closed, or of up to 6 vertices without the repeated first one) of 3 to 11 edges, axis-parallel apart from one (triangles: two or three) arbitrary vertices, optionally a hole of 4 to 7 edges; arbitrary driving angles over a full turn and widths
#include "geo.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
using f2c::obj::NSwathModified; using f2c::obj::SGObjective;
static double across(const Point& a, const Point& b, double c, double s) { return std::fabs(s * (b.getX() - a.getX()) - c * (b.getY() - a.getY())); }
static double sum(const std::vector<Point>& v, double c, double s) { double t = 0; for (size_t i = 0; i < v.size(); i++) t += across(v[i], v[(i + 1) % v.size()], c, s); return t; }
static LinearRing ring(const std::vector<Point>& v, size_t from = 0) { LinearRing r; for (size_t i = 0; i <= v.size(); i++) r.addPoint(v[(from + i) % v.size()]); return r; }
// n vertices: a stair of axis-parallel edges with arbitrary step lengths; the first k vertices are arbitrary, in boxes
static std::vector<Point> shape(int n, int k, bool symbolic = true) { std::vector<Point> v; double x = 10, y = 0, a = symbolic ? num("stair.x", 1, 9) : 4, b = symbolic ? num("stair.y", 1, 9) : 6; for (int i = 0; i < n; i++) { if (i) { if (i % 2) x += a; else y += b; } if (i < k) { std::string m = "p" + std::to_string(i); v.push_back(Point(num(m + ".x", -50 + 40 * i, -20 + 40 * i), num(m + ".y", 100 - i * 30, 120 - i * 30))); } else v.push_back(Point(x, y)); } return v; }
SX_HARNESS(O02_formula) {
  int n = sx_choose("vertices", 3, 11); auto v = shape(n, 1); double w = num("width", 0.5, 9), a = sx_angle("ang", 0, 2 * PI); NSwathModified o; double r = o.computeCost(a, w, Cell(ring(v))), t = sum(v, std::cos(a), std::sin(a)); sx_assert_eq(r * (2 * w), t, "half the extent of every edge across the driving direction over the width");
}
SX_HARNESS(O02_triangle) {
  auto v = shape(3, sx_thorough() ? 3 : 2); double w = num("width", 0.5, 9), a = sx_angle("ang", 0, 2 * PI); NSwathModified o; sx_assert_eq(o.computeCost(a, w, Cell(ring(v))) * (2 * w), sum(v, std::cos(a), std::sin(a)), "half the extent of every edge across the driving direction over the width");
}
SX_HARNESS(O02_open) { // a border that comes without its first vertex repeated
  int n = sx_choose("vertices", 3, 6); auto v = shape(n, 1); OGRPolygon p; OGRLinearRing r; for (auto& q : v) r.addPoint(q.getX(), q.getY()); p.addRing(&r); double w = num("width", 0.5, 9), a = sx_angle("ang", 0, 2 * PI); NSwathModified o; Cell c(&p); sx_assert_eq(o.computeCost(a, w, c) * (2 * w), sum(v, std::cos(a), std::sin(a)), "half the extent of every edge across the driving direction over the width, the closing edge included");
}
SX_HARNESS(O02_hole) {
  int n = sx_choose("vertices", 3, sx_thorough() ? 7 : 4), m = sx_choose("hole", 4, 7); auto v = shape(n, 1, false); std::vector<Point> h; double hx = num("h.x", 1, 3), hy = num("h.y", 1, 3); static const double X[] = {0, 1, 1, 2, 2, 3, 3}, Y[] = {0, 0, 1, 1, 2, 2, 3}; for (int i = 0; i < m; i++) h.push_back(Point(X[i] * hx, Y[i] * hy)); h[0] = Point(num("h.ox", -9, -5), num("h.oy", 8, 9)); Cell c(ring(v)); c.addRing(ring(h)); double w = num("width", 0.5, 9), a = sx_angle("ang", 0, 2 * PI); NSwathModified o; SGObjective& g = o; double r = g.computeCost(a, w, c); sx_assert_eq(r * (2 * w), sum(v, std::cos(a), std::sin(a)) + sum(h, std::cos(a), std::sin(a)), "holes count like the outer border");
}
SX_HARNESS(O02_invariance) {
  int n = sx_choose("vertices", 3, sx_thorough() ? 9 : 6), from = sx_choose("start", 0, n - 1); auto v = shape(n, 1, false); double w = num("width", 0.5, 9), a = sx_angle("ang", 0, PI); NSwathModified o; int how = sx_choose("how", 0, 2); double t = sum(v, std::cos(a), std::sin(a)); if (how == 1) { Point m = pnt("move"); for (auto& p : v) p = p + m; } if (how == 2) std::reverse(v.begin(), v.end());
  sx_assert_eq(o.computeCost(how == 0 ? a + PI : a, w, Cell(ring(v, from))) * (2 * w), t, "turning the angle by half a turn, moving the field, starting elsewhere or going round the other way changes nothing");
}
SX_HARNESS(O02_degenerate) { NSwathModified o; sx_assert_eq(o.computeCost(num("a"), num("w"), Cell()), 0, "an empty cell needs no swath"); sx_assert_eq(o.computeCost(num("b"), num("v", -9, 0), Cell(ring(shape(4, 1)))), 0, "no width, no estimate"); sx_assert(o.isMinimizing() && o.isFastCompAvailable(), "the estimate is minimised and fast"); }

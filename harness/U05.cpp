//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp
//@ native: gdal
//@ bound: line strings, rings and multi-points of 1 to 4 arbitrary points (coordinates and heights in [-5000000, 5000000]); multi-lines of up to 3 lines; polygons with up to 2 holes; up to 3 polygons; every index, written once or twice; indices outside up to 2 beyond the end; one large size (9 members) per container
//@ assume: polygon rings are triangles anchored at an arbitrary point; member geometries are not empty
#include "geo.h"
#include <stdexcept>
template <class F> static bool raises(F f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; }
static void samev(const Point& a, const std::vector<double>& v, const char* m) { sx_assert_eq(a.getX(), v[0], m); sx_assert_eq(a.getY(), v[1], m); sx_assert_eq(a.getZ(), v[2], m); }
using V = std::vector<std::vector<double>>;
static V values(const char* n, int k) { V v; for (int i = 0; i < k; i++) { std::string s = std::string(n) + std::to_string(i); double x = num(s + ".x"), y = num(s + ".y"), z = num(s + ".z"); v.push_back({x, y, z}); } return v; }
// every way of reading a container of points shows exactly the values v
template <class L> static void reads(L& l, const V& v) {
  const L& c = l; sx_assert(c.size() == v.size(), "size counts the points");
  for (size_t i = 0; i < v.size(); i++) {
    samev(l.getGeometry(i), v[i], "getGeometry reads the point at its index"); samev(c.getGeometry(i), v[i], "const getGeometry reads the point at its index");
    Point o; l.getGeometry(i, o); samev(o, v[i], "out-parameter getGeometry reads the point"); Point o2; c.getGeometry(i, o2); samev(o2, v[i], "const out-parameter getGeometry reads the point");
    samev(c.at(i), v[i], "at reads the point"); samev(c[i], v[i], "operator[] reads the point");
  }
  samev(c.back(), v.back(), "back is the last point");
  size_t k = 0; for (auto&& p : c) { sx_assert(k < v.size(), "iteration ends"); samev(p, v[k], "iteration visits the points in order"); k++; } sx_assert(k == v.size(), "iteration visits every point");
  k = 0; for (auto&& p : l) { samev(p, v[k], "mutable iteration visits the points in order"); k++; } sx_assert(k == v.size(), "mutable iteration visits every point");
  size_t bad = v.size() + sx_choose("beyond", 0, 2);
  sx_assert(raises([&] { l.getGeometry(bad); }) && raises([&] { c.getGeometry(bad); }) && raises([&] { c.at(bad); }) && raises([&] { c[bad]; }), "an index outside raises");
  Point o; sx_assert(raises([&] { l.getGeometry(bad, o); }) && raises([&] { c.getGeometry(bad, o); }), "an index outside raises"); sx_assert(raises([&] { c.at(-1); }), "a negative index raises");
}
template <class L> static L filled(const V& v, int how) {
  L l; if (how == 0) for (auto& p : v) l.addPoint(p[0], p[1], p[2]); else if (how == 1) for (auto& p : v) l.addPoint(Point(p[0], p[1], p[2])); else if (how == 2) for (auto& p : v) l.addGeometry(Point(p[0], p[1], p[2]));
  else { std::vector<Point> ps; for (auto& p : v) ps.emplace_back(p[0], p[1], p[2]); return L(ps); } return l;
}
template <class L> static void history() {
  int n = sx_size("n", 1, 4, 9); V v = values("p", n); int how = sx_choose("how", 0, 3); L l = filled<L>(v, how);
  int op = sx_choose("op", 0, 2); int i = sx_choose("i", 0, n - 1); V w = values("q", 1);
  if (op == 1) { l.setGeometry(i, Point(w[0][0], w[0][1], w[0][2])); v[i] = w[0]; sx_reach("set"); }
  else if (op == 2) { l.addPoint(Point(w[0][0], w[0][1], w[0][2])); v.push_back(w[0]); sx_reach("add"); }
  reads(l, v);
}
SX_HARNESS(U05_line) { history<LineString>(); }
SX_HARNESS(U05_ring) { history<LinearRing>(); }
template <class L> static void scaled() {
  int n = sx_choose("n", 1, 2); V v = values("p", n); L l = filled<L>(v, 1); double f = n == 1 ? num("f", -10, 10) : (sx_choose("half", 0, 1) ? 0.5 : -3.0); l *= f; sx_assert((int)l.size() == n, "size counts the points");
  for (int k = 0; k < n; k++) { sx_assert(std::fabs(l[k].getX() - v[k][0] * f) <= 4e-7 && std::fabs(l[k].getY() - v[k][1] * f) <= 4e-7 && std::fabs(l[k].getZ() - v[k][2] * f) <= 4e-7, "scaling scales every point"); }
}
SX_HARNESS(U05_scale_line) { scaled<LineString>(); }
SX_HARNESS(U05_scale_ring) { scaled<LinearRing>(); }
SX_HARNESS(U05_scale_multipoint) { scaled<MultiPoint>(); }
SX_HARNESS(U05_multipoint) { history<MultiPoint>(); }
SX_HARNESS(U05_line_extra) {
  int n = sx_size("n", 2, 4, 9); V v = values("p", n); int kind = sx_choose("kind", 0, 1);
  if (kind == 0) { LineString l = filled<LineString>(v, 1); for (int i = 0; i < n; i++) { sx_assert_eq(l.getX(i), v[i][0], "getX"); sx_assert_eq(l.getY(i), v[i][1], "getY"); sx_assert_eq(l.getZ(i), v[i][2], "getZ"); sx_assert_eq(l.X(i), v[i][0], "X"); sx_assert_eq(l.Y(i), v[i][1], "Y"); sx_assert_eq(l.Z(i), v[i][2], "Z"); }
    samev(l.startPoint(), v[0], "start point"); samev(l.endPoint(), v[n - 1], "end point"); 
    auto segs = MultiLineString::getLineSegments(l); sx_assert((int)segs.size() == n - 1, "a line has one segment fewer than points"); for (int i = 0; i + 1 < n; i++) { sx_assert(segs[i].size() == 2, "a segment has two points"); samev(segs[i][0], v[i], "segment start"); samev(segs[i][1], v[i + 1], "segment end"); }
    l.reversePoints(); for (int i = 0; i < n; i++) samev(l[i], v[n - 1 - i], "reversing reverses the points"); }
  else { LinearRing l = filled<LinearRing>(v, 1); for (int i = 0; i < n; i++) { sx_assert_eq(l.getX(i), v[i][0], "getX"); sx_assert_eq(l.getY(i), v[i][1], "getY"); sx_assert_eq(l.getZ(i), v[i][2], "getZ"); } samev(l.startPoint(), v[0], "start point"); samev(l.endPoint(), v[n - 1], "end point");
    LineString c(l); sx_assert(c.size() == l.size(), "a ring becomes a line of the same points"); for (int i = 0; i < n; i++) samev(c[i], v[i], "a ring becomes a line of the same points");
    LinearRing r = l.clone(); r.reversePoints(); for (int i = 0; i < n; i++) samev(r[i], v[n - 1 - i], "reversing reverses the points"); }
}
SX_HARNESS(U05_close) {
  int n = sx_size("n", 3, 4, 9); V v = values("p", n); LinearRing l = filled<LinearRing>(v, 0); bool closed = v[0][0] == v[n - 1][0] && v[0][1] == v[n - 1][1] && v[0][2] == v[n - 1][2]; 
  double gap = std::max(std::max(std::fabs(v[0][0] - v[n - 1][0]), std::fabs(v[0][1] - v[n - 1][1])), std::fabs(v[0][2] - v[n - 1][2])); sx_assume(closed || gap > 1e-3);
  sx_assert(l.isClosed() == closed, "a ring is closed when its ends meet"); LinearRing& r = l.closeRing(); sx_assert(&r == &l, "closing works in place"); sx_assert((int)l.size() == n + (closed ? 0 : 1), "closing adds the missing point only"); for (int i = 0; i < n; i++) samev(l[i], v[i], "closing keeps the points"); sx_assert(l.isClosed(), "a closed ring is closed"); samev(l.endPoint(), v[0], "closing ends at the start"); 
}
SX_HARNESS(U05_multipoint_extra) { int n = sx_size("n", 1, 3, 9); V v = values("p", n); MultiPoint a = filled<MultiPoint>(v, 1), b; b.addPoints(a); reads(b, v); samev(a.getFirstPoint(), v[0], "first point"); samev(a.getLastPoint(), v[n - 1], "last point"); size_t bad = n + sx_choose("o", 0, 2); Point q(1, 2); sx_assert(raises([&] { a.setGeometry(bad, q); }), "writing outside a multi-point raises"); }
SX_HARNESS(U05_box) {
  int n = sx_choose("n", 2, 3); V v = values("p", n); LineString l = filled<LineString>(v, 1); double a = l.getDimMinX(), b = l.getDimMaxX(), c = l.getDimMinY(), d = l.getDimMaxY(); bool ha = false, hb = false, hc = false, hd = false;
  for (auto& p : v) { sx_assert(a <= p[0] && p[0] <= b && c <= p[1] && p[1] <= d, "the box encloses every point"); ha = ha || p[0] == a; hb = hb || p[0] == b; hc = hc || p[1] == c; hd = hd || p[1] == d; }
  sx_assert(ha && hb && hc && hd, "every side of the box touches a point"); sx_assert_eq(l.getWidth(), b - a, "width of the box"); sx_assert_eq(l.getHeight(), d - c, "height of the box"); double s = l.getMinSafeLength(); sx_assert(s * s >= (b - a) * (b - a) + (d - c) * (d - c), "the safe length exceeds the diagonal");
}
// containers of geometries: a line is (x,y)-(x+1,y+2)-..., tagged by an arbitrary anchor
static LineString line(const std::vector<double>& a) { return LineString({Point(a[0], a[1], a[2]), Point(a[0] + 1, a[1] + 2, a[2])}); }
static LinearRing ring(const std::vector<double>& a) { return LinearRing({Point(a[0], a[1], a[2]), Point(a[0] + 1, a[1], a[2]), Point(a[0], a[1] + 2, a[2]), Point(a[0], a[1], a[2])}); }
static void isLine(const LineString& l, const std::vector<double>& a, const char* m) { sx_assert(l.size() == 2, m); samev(l[0], a, m); samev(l[1], {a[0] + 1, a[1] + 2, a[2]}, m); }
static void isRing(const LinearRing& l, const std::vector<double>& a, const char* m) { sx_assert(l.size() == 4, m); samev(l[0], a, m); samev(l[1], {a[0] + 1, a[1], a[2]}, m); samev(l[2], {a[0], a[1] + 2, a[2]}, m); samev(l[3], a, m); }
template <class C, class E, class F> static void readsG(C& l, const V& v, F is) {
  const C& c = l; sx_assert(c.size() == v.size(), "size counts the members");
  for (size_t i = 0; i < v.size(); i++) { is(l.getGeometry(i), v[i], "getGeometry reads the member at its index"); is(c.getGeometry(i), v[i], "const getGeometry reads the member"); E o; l.getGeometry(i, o); is(o, v[i], "out-parameter getGeometry reads the member"); E o2; c.getGeometry(i, o2); is(o2, v[i], "const out-parameter getGeometry reads the member"); is(c.at(i), v[i], "at reads the member"); is(c[i], v[i], "operator[] reads the member"); }
  if (!v.empty()) is(c.back(), v.back(), "back is the last member");
  size_t k = 0; for (auto&& p : c) { sx_assert(k < v.size(), "iteration ends"); is(p, v[k], "iteration visits the members in order"); k++; } sx_assert(k == v.size(), "iteration visits every member");
  k = 0; for (auto&& p : l) { is(p, v[k], "mutable iteration visits the members in order"); k++; } sx_assert(k == v.size(), "mutable iteration visits every member");
  size_t bad = v.size() + sx_choose("beyond", 0, 2); E o; sx_assert(raises([&] { l.getGeometry(bad); }) && raises([&] { c.getGeometry(bad); }) && raises([&] { c.at(bad); }) && raises([&] { l.getGeometry(bad, o); }) && raises([&] { c.getGeometry(bad, o); }), "an index outside raises");
}
SX_HARNESS(U05_multiline) {
  int n = sx_size("n", 0, 3, 9); V v = values("a", n); MultiLineString m; for (auto& a : v) m.addGeometry(line(a)); int op = sx_choose("op", 0, 3); V w = values("b", 2);
  if (op == 1) { int i = sx_choose("i", 0, n); m.setGeometry(i, line(w[0])); if (i < n) v[i] = w[0]; else v.push_back(w[0]); }
  if (op == 2) { MultiLineString o; o.addGeometry(line(w[0])); o.addGeometry(line(w[1])); m.addGeometry(o); v.push_back(w[0]); v.push_back(w[1]); }
  if (op == 3) { m.append(line(w[0]).get()); v.push_back(w[0]); }
  readsG<MultiLineString, LineString>(m, v, isLine);
}
SX_HARNESS(U05_cell) {
  int n = sx_size("n", 0, 3, 9); V v = values("a", n); Cell m; for (auto& a : v) m.addRing(ring(a)); int op = sx_choose("op", 0, 2); V w = values("b", 1);
  if (op == 1) { int i = sx_choose("i", 0, n); m.setGeometry(i, ring(w[0])); if (i < n) v[i] = w[0]; else v.push_back(w[0]); }
  if (op == 2) { auto r = ring(w[0]); LinearRing open({r[0], r[1], r[2]}); m.addGeometry(open); v.push_back(w[0]); sx_assert(open.size() == 3, "adding a ring leaves the source ring alone"); }
  readsG<Cell, LinearRing>(m, v, isRing);
  if (!v.empty()) isRing(m.getExteriorRing(), v[0], "the exterior ring is the first"); else sx_assert(raises([&] { m.getExteriorRing(); }), "an empty cell has no exterior ring");
  for (size_t i = 1; i < v.size(); i++) isRing(m.getInteriorRing(i - 1), v[i], "hole i is ring i + 1");
  size_t bad = (v.empty() ? 0 : v.size() - 1) + sx_choose("hole beyond", 0, 1); sx_assert(raises([&] { m.getInteriorRing(bad); }), "a hole index outside raises");
}
SX_HARNESS(U05_cells) {
  int n = sx_size("n", 0, 3, 9); V v = values("a", n); Cells m; for (auto& a : v) m.addGeometry(Cell(ring(a))); int op = sx_choose("op", 0, 2); V w = values("b", 1); int hole = -1;
  if (op == 1) { int i = sx_choose("i", 0, n); m.setGeometry(i, Cell(ring(w[0]))); if (i < n) v[i] = w[0]; else v.push_back(w[0]); }
  if (op == 2 && n) { hole = sx_choose("i", 0, n - 1); m.addRing(hole, ring(w[0])); }
  auto is = [&](const Cell& c, const std::vector<double>& a, const char* t) { sx_assert(c.size() >= 1, t); isRing(c.getGeometry(0), a, t); };
  readsG<Cells, Cell>(m, v, is);
  for (size_t i = 0; i < v.size(); i++) { is(m.getCell(i), v[i], "getCell reads the cell"); isRing(m.getCellBorder(i), v[i], "the border of the cell"); sx_assert(m[i].size() == ((int)i == hole ? 2u : 1u), "a hole belongs to its cell only"); }
  if (hole >= 0) { isRing(m.getInteriorRing(hole, 0), w[0], "the hole added is read back"); sx_assert(raises([&] { m.getInteriorRing(hole, 1); }), "a hole index outside raises"); }
  size_t bad = v.size() + sx_choose("cell beyond", 0, 1); sx_assert(raises([&] { m.getCell(bad); }) && raises([&] { m.getCellBorder(bad); }) && raises([&] { m.getInteriorRing(bad, 0); }) && raises([&] { m.addRing(bad, ring(w[0])); }), "a cell index outside raises");
}

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Strip.cpp types/Route.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp
//@ native: gdal
//@ bound: points, lines, rings and multi-points of 2 or 3 arbitrary points, multi-lines of 2 lines, a polygon with a hole, 2 polygons; one arbitrary edit on either side after the clone; translations by arbitrary vectors; one large size (9 points) for lines, rings and multi-points
//@ assume: coordinates in [-5000000, 5000000]; the text form used by clone is exact (printing precision is not modelled)
#include "geo.h"
using T3 = std::vector<double>; using V = std::vector<T3>;
static T3 tri(const char* n) { std::string s(n); double x = num(s + ".x"), y = num(s + ".y"), z = num(s + ".z"); return {x, y, z}; }
static Point P(const T3& a) { return Point(a[0], a[1], a[2]); }
// flat list of the coordinates of any geometry
static void flat(const Point& p, V& v) { v.push_back({p.getX(), p.getY(), p.getZ()}); }
template <class G> static void flat(const G& g, V& v) { for (size_t i = 0; i < g.size(); i++) flat(g.at(i), v); }
template <class G> static V all(const G& g) { V v; flat(g, v); return v; }
static void eq(const V& a, const V& b, const char* m) { sx_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < 3; k++) sx_assert_eq(a[i][k], b[i][k], m); }
static V shift(V v, const Point& d, double s) { for (auto& p : v) { p[0] += s * d.getX(); p[1] += s * d.getY(); p[2] += s * d.getZ(); } return v; }
template <class L> static L seq(int n) { L l; for (int i = 0; i < n; i++) l.addPoint(P(tri(("p" + std::to_string(i)).c_str()))); return l; }
static LineString line(const T3& a) { return LineString({P(a), Point(a[0] + 1, a[1] + 2, a[2])}); }
static LinearRing ring(const T3& a, double w = 1) { return LinearRing({P(a), Point(a[0] + w, a[1], a[2]), Point(a[0], a[1] + w, a[2]), P(a)}); }
template <class G> static void moved(const G& g) {
  V v = all(g); Point d = P(tri("d")); eq(all(g + d), shift(v, d, 1), "adding a point moves every point by it"); eq(all(g - d), shift(v, d, -1), "subtracting a point moves every point back"); eq(all((g + d) - d), v, "moving by a point and back restores it");
  V n = all(d - g); sx_assert(n.size() == v.size(), "point minus geometry keeps the points"); for (size_t i = 0; i < v.size(); i++) { sx_assert_eq(n[i][0], d.getX() - v[i][0], "point minus geometry"); sx_assert_eq(n[i][1], d.getY() - v[i][1], "point minus geometry"); }
  eq(all(g), v, "moving leaves the original alone");
}
template <class G, class E> static void cloned(G& g, E edit) {
  V v = all(g); G c = g.clone(); eq(all(c), v, "a clone equals its original"); 
  if (sx_choose("edit original", 0, 1)) { edit(g); eq(all(c), v, "editing the original leaves the clone alone"); } else { edit(c); eq(all(g), v, "editing the clone leaves the original alone"); }
}
SX_HARNESS(U06_point) { Point p = P(tri("p")), q = p.clone(), r = p, s; s = p; T3 w = tri("w"), v = {p.getX(), p.getY(), p.getZ()}; p.setPoint(w[0], w[1], w[2]); eq(all(MultiPoint({q, r, s})), {v, v, v}, "copies of a point keep its coordinates"); r *= 2.0; eq({{p.getX(), p.getY(), p.getZ()}}, {w}, "editing a copy leaves the point alone");
  Point a = P(v), b = P(w); Point u = a + b; eq({{u.getX(), u.getY(), u.getZ()}}, shift({v}, b, 1), "sum"); u = u - b; eq({{u.getX(), u.getY(), u.getZ()}}, {v}, "moving by a point and back restores it"); sx_assert(u == a && !(u != a), "the restored point compares equal");
  Point mv = std::move(u); eq({{mv.getX(), mv.getY(), mv.getZ()}}, {v}, "a moved point keeps its coordinates"); }
template <class L> static void seqs() { L l = seq<L>(sx_size("n", 2, 3, 9)); if (sx_choose("what", 0, 1)) moved(l); else { int e = sx_choose("edit", 0, 1); int i = sx_choose("i", 0, (int)l.size() - 1); T3 w = tri("w"); cloned(l, [&](L& x) { if (e == 0) x.setGeometry(i, P(w)); else x.addPoint(P(w)); }); } }
SX_HARNESS(U06_line) { seqs<LineString>(); }
SX_HARNESS(U06_ring) { seqs<LinearRing>(); }
SX_HARNESS(U06_multipoint) { seqs<MultiPoint>(); }
SX_HARNESS(U06_multiline) { MultiLineString m; m.addGeometry(line(tri("a"))); m.addGeometry(line(tri("b"))); if (sx_choose("what", 0, 1)) moved(m); else { T3 w = tri("w"); int e = sx_choose("edit", 0, 1); cloned(m, [&](MultiLineString& x) { if (e) x.addGeometry(line(w)); else x.setGeometry(1, line(w)); }); } }
static Cell cell() { T3 a = tri("a"); Cell c; c.addRing(ring(a, 8)); c.addRing(ring({a[0] + 1, a[1] + 1, a[2]}, 2)); return c; }
SX_HARNESS(U06_cell) { Cell m = cell(); if (sx_choose("what", 0, 1)) moved(m); else { T3 w = tri("w"); int e = sx_choose("edit", 0, 1); cloned(m, [&](Cell& x) { if (e) x.addRing(ring(w)); else x.setGeometry(1, ring(w)); }); } }
SX_HARNESS(U06_cells) { Cells m; m.addGeometry(cell()); m.addGeometry(Cell(ring(tri("b")))); if (sx_choose("what", 0, 1)) moved(m); else { T3 w = tri("w"); int e = sx_choose("edit", 0, 2); cloned(m, [&](Cells& x) { if (e == 1) x.addGeometry(Cell(ring(w))); else if (e == 2) x.addRing(1, ring(w)); else x.setGeometry(0, Cell(ring(w))); }); } }
SX_HARNESS(U06_added) { // what is put in a container is a copy
  T3 w = tri("w"), a = tri("a"); int k = sx_choose("kind", 0, 4);
  if (k == 0) { LineString l = line(a); MultiLineString m; m.addGeometry(l); V v = all(m); l.setGeometry(0, P(w)); eq(all(m), v, "a line added is a copy"); LineString g = m.getGeometry(0); g.setGeometry(1, P(w)); eq(all(m), v, "a line read is a copy"); }
  if (k == 1) { LinearRing l = ring(a); Cell m; m.addRing(l); V v = all(m); l.setGeometry(0, P(w)); eq(all(m), v, "a ring added is a copy"); LinearRing g = m.getGeometry(0); g.setGeometry(1, P(w)); eq(all(m), v, "a ring read is a copy"); LinearRing h = m.getExteriorRing(); h.setGeometry(1, P(w)); eq(all(m), v, "a ring read is a copy"); }
  if (k == 2) { Cell l(ring(a)); Cells m; m.addGeometry(l); V v = all(m); l.addRing(ring(w)); eq(all(m), v, "a cell added is a copy"); Cell g = m.getGeometry(0); g.addRing(ring(w)); eq(all(m), v, "a cell read is a copy"); Cell h = m.getCell(0); h.addRing(ring(w)); eq(all(m), v, "a cell read is a copy"); Cells n(l); V u = all(n); l.addRing(ring(w)); eq(all(n), u, "cells made of a cell copy it"); }
  if (k == 3) { LinearRing r = ring(a); LineString l(r); V v = all(l); r.setGeometry(0, P(w)); eq(all(l), v, "a line made of a ring copies it"); Cell c(r); V u = all(c); r.setGeometry(1, P(a)); eq(all(c), u, "a cell made of a ring copies it"); }
  if (k == 4) { MultiPoint m({P(a), P(w)}); V v = all(m); Point q = m.getGeometry(0); q *= 3.0; eq(all(m), v, "a point read is a copy"); MultiPoint b; b.addPoints(m); b.setGeometry(0, P(w)); eq(all(m), v, "points added are copies"); }
}
SX_HARNESS(U06_strip) { using f2c::types::Strip; Strip s; s.setName("n"); s.setCell(cell()); V v = all(s.getCell()); Strip c = s.clone(); sx_assert(c.getName() == "n", "a strip keeps its name"); eq(all(c.getCell()), v, "a cloned strip keeps its cell"); T3 w = tri("w"); if (sx_choose("side", 0, 1)) { s.getCell().addRing(ring(w)); eq(all(c.getCell()), v, "editing the strip leaves the clone alone"); } else { c.getCell().addRing(ring(w)); c.setName("m"); eq(all(s.getCell()), v, "editing the clone leaves the strip alone"); sx_assert(s.getName() == "n", "the name is its own"); } }
SX_HARNESS(U06_angle) { // vectors of points move together
  std::vector<Point> v{P(tri("a")), P(tri("b"))}; Point d = P(tri("d")); auto u = v + d; auto w = u - d; auto n = d - v; sx_assert(u.size() == 2 && w.size() == 2 && n.size() == 2, "moving keeps the number of points"); for (int i = 0; i < 2; i++) { same(w[i], v[i], "moving by a point and back restores it"); same(u[i], v[i] + d, "every point moves"); same(n[i], d - v[i], "point minus points"); } }
SX_HARNESS(U06_values) { // points behave as values in standard containers
  std::vector<Point> v; std::vector<T3> w; v.reserve(8); for (int i = 0; i < 4; i++) { w.push_back(tri(("p" + std::to_string(i)).c_str())); v.push_back(P(w.back())); } Point x = P(tri("x")); T3 xv = {x.getX(), x.getY(), x.getZ()};
  switch (sx_choose("how", 0, 5)) { case 0: std::swap(v[0], v[2]); std::swap(w[0], w[2]); break; case 1: std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end()); break; case 2: v.insert(v.begin() + 1, x); w.insert(w.begin() + 1, xv); break; case 3: v.erase(v.begin() + 1); w.erase(w.begin() + 1); break; case 4: std::rotate(v.begin(), v.begin() + 1, v.end()); std::rotate(w.begin(), w.begin() + 1, w.end()); break; case 5: { Point y = std::move(v[1]); v[1] = x; w[1] = xv; (void)y; } }
  sx_assert(v.size() == w.size(), "points behave as values"); for (size_t i = 0; i < v.size(); i++) { sx_assert_eq(v[i].getX(), w[i][0], "points behave as values"); sx_assert_eq(v[i].getY(), w[i][1], "points behave as values"); sx_assert_eq(v[i].getZ(), w[i][2], "points behave as values"); }
}

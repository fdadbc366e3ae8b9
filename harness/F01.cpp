//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Field.cpp
//@ native: gdal
//@ bound: fields of 0 to 2 polygons, the first with or without a hole, at arbitrary positions (coordinates and heights in [-5000000, 5000000]); any reference point; one edit after the copy; one field of 5 polygons
//@ assume: polygons are triangles anchored at arbitrary points
#include "geo.h"
using f2c::types::Field; using T3 = std::vector<double>; using V = std::vector<T3>;
static T3 tri(const char* n) { std::string s(n); double x = num(s + ".x"), y = num(s + ".y"), z = num(s + ".z"); return {x, y, z}; }
static Point P(const T3& a) { return Point(a[0], a[1], a[2]); }
static LinearRing ring(const T3& a, double w) { return LinearRing({P(a), Point(a[0] + w, a[1], a[2]), Point(a[0], a[1] + w, a[2]), P(a)}); }
static void flat(const Point& p, V& v) { v.push_back({p.getX(), p.getY(), p.getZ()}); }
template <class G> static void flat(const G& g, V& v) { for (size_t i = 0; i < g.size(); i++) flat(g.at(i), v); }
template <class G> static V all(const G& g) { V v; flat(g, v); return v; }
static void eq(const V& a, const V& b, const char* m) { sx_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < 3; k++) sx_assert_eq(a[i][k], b[i][k], m); }
static V shift(V v, const Point& d, double s) { for (auto& p : v) { p[0] += s * d.getX(); p[1] += s * d.getY(); p[2] += s * d.getZ(); } return v; }
static Cells shape(int n) { Cells cs; if (n >= 1) { T3 a = tri("a"); Cell c(ring(a, 8)); if (sx_choose("hole", 0, 1)) c.addRing(ring({a[0] + 1, a[1] + 1, a[2]}, 2)); cs.addGeometry(c); } for (int i = 1; i < n; i++) cs.addGeometry(Cell(ring(tri(("b" + std::to_string(i)).c_str()), 3))); return cs; }
SX_HARNESS(F01_create) {
  Cells cs = shape(sx_size("cells", 0, 2, 5)); V v = all(cs); Field f(cs, "id"); sx_assert(f.getId() == "id", "a field keeps its id"); sx_assert(f.isEmpty() == v.empty(), "empty");
  eq(all(f.getCellsAbsPosition()), v, "reference point plus relative geometry is the absolute geometry"); eq(all(cs), v, "making a field leaves its cells alone");
  if (!v.empty()) { eq({{f.getRefPoint().getX(), f.getRefPoint().getY(), f.getRefPoint().getZ()}}, {v[0]}, "the reference point is the first vertex"); eq(all(f.getField()), shift(v, P(v[0]), -1), "the geometry is stored relative to the reference point"); }
  // store the absolute geometry and take it back
  Field g; g.setRefPoint(P(tri("r"))); g.setField(cs - g.getRefPoint()); eq(all(g.getCellsAbsPosition()), v, "reference point plus relative geometry is the absolute geometry");
}
SX_HARNESS(F01_clone) {
  Cells cs = shape(sx_size("cells", 0, 2, 5)); V v = all(cs); Field f(cs, "id"); f.setCRS("EPSG:4326"); f.setPrevCRS("UTM:5N"); bool moved = sx_choose("moved ref", 0, 1); T3 r = tri("r"); if (moved) { f.setRefPoint(P(r)); v = shift(shift(v, P(v.empty() ? r : v[0]), -1), P(r), 1); }
  Field c = f.clone(); sx_assert(c.getId() == "id", "a copy keeps the id"); sx_assert(c.getCRS() == "EPSG:4326" && c.getPrevCRS() == "UTM:5N", "a copy keeps both coordinate systems"); eq(all(c.getCellsAbsPosition()), v, "a copy keeps the absolute geometry"); 
  Point p = c.getRefPoint(); if (!v.empty() || moved) eq({{p.getX(), p.getY(), p.getZ()}}, {{f.getRefPoint().getX(), f.getRefPoint().getY(), f.getRefPoint().getZ()}}, "a copy keeps the reference point");
  V fv = all(f.getField()); if (sx_choose("edit", 0, 1)) { c.getField().addGeometry(Cell(ring(tri("w"), 2))); c.setId("x"); c.setCRS("UTM:1S"); c.setRefPoint(P(tri("w"))); eq(all(f.getField()), fv, "editing the copy leaves the field alone"); sx_assert(f.getId() == "id" && f.getCRS() == "EPSG:4326", "editing the copy leaves the field alone"); eq(all(f.getCellsAbsPosition()), v, "editing the copy leaves the field alone"); }
  else { f.getField().addGeometry(Cell(ring(tri("w"), 2))); f.setRefPoint(P(tri("w"))); eq(all(c.getCellsAbsPosition()), v, "editing the field leaves the copy alone"); }
}
SX_HARNESS(F01_accessors) {
  Field f; T3 r = tri("r"); f.setRefPoint(P(r)); eq({{f.getRefPoint().getX(), f.getRefPoint().getY(), f.getRefPoint().getZ()}}, {r}, "the reference point is read back"); T3 w = tri("w"); f.getRefPoint().setPoint(w[0], w[1], w[2]); const Field& k = f; eq({{k.getRefPoint().getX(), k.getRefPoint().getY(), k.getRefPoint().getZ()}}, {w}, "the reference point is read back");
  Cells cs = shape(2); V v = all(cs); f.setField(cs); eq(all(k.getField()), v, "the geometry is read back"); f.setId("q"); f.setCRS("c"); f.setPrevCRS("p"); sx_assert(k.getId() == "q" && k.getCRS() == "c" && k.getPrevCRS() == "p", "ids and coordinate systems are read back");
  Field copy = f; sx_assert(copy.getCRS() == "c" && copy.getPrevCRS() == "p" && copy.getId() == "q", "assignment keeps everything"); eq(all(copy.getCellsAbsPosition()), shift(v, P(w), 1), "assignment keeps the position");
  Field mv = std::move(copy); sx_assert(mv.getCRS() == "c" && mv.getPrevCRS() == "p" && mv.getId() == "q", "moving keeps everything"); eq(all(mv.getCellsAbsPosition()), shift(v, P(w), 1), "moving keeps the position");
}

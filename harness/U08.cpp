//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp
//@ native: model
//@ bound: results of up to 3 (or 7 or 9) parts of any kind (points, lines, polygons, alone or mixed in any order) with arbitrary coordinates; every operation on cells and on lines; every triangle with one free corner cut by two parallel lines
//@ assume: the geometry library returns a point, a line, a polygon, a collection of one of these or a mixed collection
#include "geo.h"
#include "ogr_model.h"
#include "swath_common.h"
static OGRGeometry* result; static const OGRGeometry *opA, *opB; static std::string asked; static std::vector<Point> aAt; static double dist; static int count;
static Point mark(const OGRGeometry* g) { // the first corner tells the operands apart
  auto t = wkbFlatten(g->getGeometryType()); if (t == wkbMultiPolygon || t == wkbMultiLineString) return mark(static_cast<const OGRGeometryCollection*>(g)->getGeometryRef(0));
  if (t == wkbPolygon) return mark(static_cast<const OGRPolygon*>(g)->getExteriorRing()); if (t == wkbLineString) { auto* l = static_cast<const OGRLineString*>(g); return Point(l->getX(0), l->getY(0)); } sx_unmodelled("operand"); return Point(); }
static OGRGeometry* two(const char* n, const OGRGeometry* a, const OGRGeometry* b) { asked = n; count++; aAt = {mark(a), mark(b)}; return result->clone(); }
static OGRGeometry* hi(const OGRGeometry* a, const OGRGeometry* b) { return two("intersection", a, b); }
static OGRGeometry* hd(const OGRGeometry* a, const OGRGeometry* b) { return two("difference", a, b); }
static OGRGeometry* hu(const OGRGeometry* a, const OGRGeometry* b) { return two("union", a, b); }
static OGRGeometry* hc(const OGRGeometry* a) { return two("cascaded", a, a); }
static OGRGeometry* hb(const OGRGeometry* a, double d) { dist = d; return two("buffer", a, a); }
static LinearRing tri(double x, double y, double l) { return LinearRing({Point(x, y), Point(x + l, y), Point(x, y + l), Point(x, y)}); }
static LineString line(double x, double y, double l) { return LineString({Point(x, y), Point(x + l, y)}); }
struct Parts { std::vector<Point> poly, lines; };
// a result of up to n parts; kinds: 0 polygon, 1 line, 2 point
static Parts make(int n) {
  Parts p; int mixed = sx_choose("mixed", 0, 1), parts = mixed ? (int)sx_size("parts", 0, n, 7) : (int)sx_size("parts", 0, n, 9), kind = mixed ? -1 : sx_choose("kind", 0, 2); std::vector<OGRGeometry*> g;
  for (int i = 0; i < parts; i++) { std::string s = "part" + std::to_string(i); int k = mixed && parts > 3 ? (i * 2 + 1) % 3 : mixed ? sx_choose((s + ".kind").c_str(), 0, 2) : kind; double x = num(s + ".x"), y = num(s + ".y");
    if (k == 0) { p.poly.push_back(Point(x, y)); g.push_back(Cell(tri(x, y, 1))->clone()); } else if (k == 1) { p.lines.push_back(Point(x, y)); g.push_back(line(x, y, 1)->clone()); } else g.push_back(new OGRPoint(x, y)); }
  if (!mixed && parts == 1) { result = g[0]; return p; }
  OGRGeometryCollection* c = mixed ? new OGRGeometryCollection() : kind == 0 ? new OGRMultiPolygon() : kind == 1 ? static_cast<OGRGeometryCollection*>(new OGRMultiLineString()) : new OGRMultiPoint();
  for (auto* q : g) sx_assert(c->addGeometryDirectly(q) == OGRERR_NONE, "harness: part fits"); result = c; return p;
}
static void hook() { mdl::hooks.intersection = hi; mdl::hooks.difference = hd; mdl::hooks.unionop = hu; mdl::hooks.unioncascaded = hc; mdl::hooks.buffer = hb; count = 0; }
static const Point PA(1000, 1000), PB(2000, 1000);
static void operands(const char* what, const Point& a, const Point& b, bool anyOrder) { sx_assert(count == 1 && asked == what, "the operation asked for is the one done");
  bool straight = aAt[0].getX() == a.getX() && aAt[1].getX() == b.getX(), turned = aAt[0].getX() == b.getX() && aAt[1].getX() == a.getX(); sx_assert(straight || (anyOrder && turned), "both operands are used, in order"); }
SX_HARNESS(U08_cells) {
  hook(); Parts p = make(3); Cell a(tri(1000, 1000, 3)), b(tri(2000, 1000, 3)); Cells as(a), bs(b), r; double d = num("distance", -5, 5);
  switch (sx_choose("operation", 0, 10)) {
    case 0: r = Cells::intersection(a, b); operands("intersection", PA, PB, true); break;
    case 1: r = as.intersection(b); operands("intersection", PA, PB, true); break;
    case 2: r = as.intersection(bs); operands("intersection", PA, PB, true); break;
    case 3: r = as.getCellsInside(bs); operands("intersection", PA, PB, true); break;
    case 4: r = as.difference(b); operands("difference", PA, PB, false); break;
    case 5: r = as.difference(bs); operands("difference", PA, PB, false); break;
    case 6: r = as.unionOp(b); operands("union", PA, PB, true); break;
    case 7: r = as.unionOp(bs); operands("union", PA, PB, true); break;
    case 8: r = as.unionCascaded(); operands("cascaded", PA, PA, true); break;
    case 9: r = as.buffer(d); operands("buffer", PA, PA, true); sx_assert_eq(dist, d, "the distance asked for is the one used"); break;
    default: r = Cells::buffer(line(1000, 1000, 3), d, 0); operands("buffer", PA, PA, true); sx_assert_eq(dist, d, "the distance asked for is the one used");
  }
  sx_assert(r.size() == p.poly.size(), "every polygon of the result is kept and nothing else"); if (r.size() != p.poly.size()) return;
  for (size_t i = 0; i < r.size(); i++) { Cell c = r.getGeometry(i); same(c.getExteriorRing().getGeometry(0), p.poly[i], "every polygon of the result is kept and nothing else"); sx_assert(c.size() == 1 && c.getExteriorRing().size() == 4, "every polygon of the result is kept and nothing else"); } sx_reach("cells");
}
SX_HARNESS(U08_lines) {
  hook(); Parts p = make(3); if (!p.poly.empty()) sx_ignore_path("a line does not cut out polygons"); Cell a(tri(1000, 1000, 3)); Cells as(a); LineString l = line(2000, 1000, 5); MultiLineString ls(l), r;
  switch (sx_choose("operation", 0, 5)) {
    case 0: r = a.getLinesInside(l); break; case 1: r = a.getLinesInside(ls); break; case 2: r = as.getLinesInside(l); break; case 3: r = as.getLinesInside(ls); break; case 4: r = MultiLineString::intersection(l, as); break; default: r = ls.intersection(a);
  }
  operands("intersection", PA, PB, true); sx_assert(r.size() == p.lines.size(), "every line of the result is kept and nothing else"); if (r.size() != p.lines.size()) return;
  for (size_t i = 0; i < r.size(); i++) { LineString q = r.getGeometry(i); sx_assert(q.size() == 2, "every line of the result is kept and nothing else"); same(q.getGeometry(0), p.lines[i], "every line of the result is kept and nothing else"); same(q.getGeometry(1), p.lines[i] + Point(1, 0), "every line of the result is kept and nothing else"); } sx_reach("lines");
}
SX_HARNESS(U08_swaths) { // clipping working lines to cells: one swath per piece, wherever the lines touch the border
  hook(); Parts p = make(3); if (!p.poly.empty()) sx_ignore_path("a line does not cut out polygons"); Cell a(tri(1000, 1000, 3)); Cells as(a); LineString l = line(2000, 1000, 5); MultiLineString ls(l); double w = num("width", 0.5, 9); Swaths ss;
  switch (sx_choose("operation", 0, 3)) { case 0: ss.append(l, a, w, f2c::types::SwathType::HEADLAND); break; case 1: ss.append(l, as, w, f2c::types::SwathType::HEADLAND); break; case 2: ss.append(ls, a, w, f2c::types::SwathType::HEADLAND); break; default: ss.append(ls, as, w, f2c::types::SwathType::HEADLAND); }
  sx_assert(ss.size() == p.lines.size(), "one swath per piece"); if (ss.size() != p.lines.size()) return;
  for (size_t i = 0; i < ss.size(); i++) { same(ss[i].startPoint(), p.lines[i], "one swath per piece"); sx_assert_eq(ss[i].getWidth(), w, "one swath per piece"); sx_assert(ss[i].getType() == f2c::types::SwathType::HEADLAND, "one swath per piece"); } sx_reach("swaths");
}
SX_HARNESS(U08_touch) { // no contract: lines through a notched field, touching or missing the notch
  double h = num("notch", 1.5, 7), x = num("x"), y = num("y"); Cell c(LinearRing({Point(x, y), Point(x + 8, y), Point(x + 8, y + 8), Point(x + 6, y + 8), Point(x + 5, y + 1), Point(x + 4, y + h), Point(x + 3, y + 0.5), Point(x, y)}));
  double v = num("line", 1, 6.5); MultiLineString ls; ls.addGeometry(LineString({Point(x - 20, y + v), Point(x + 20, y + v)})); MultiLineString r = sx_choose("many", 0, 1) ? c.getLinesInside(ls) : c.getLinesInside(ls.getGeometry(0));
  double left = x + 5 + (v - 1) / 7, got = 0; for (auto&& l : r) { sx_assert_le(y + v - sx_tol(1e-9), l.getGeometry(0).getY(), "pieces lie on the line"); for (auto&& p : l) sx_assert(p.getX() >= x - sx_tol(1e-9) && p.getX() <= x + 8 + sx_tol(1e-9), "pieces lie inside"); double len = l.getGeometry(1).getX() - l.getGeometry(0).getX(); got += len < 0 ? -len : len; }
  double want = x + 8 - left; if (v < h) { double lx = x + 3 + (v - 0.5) / (h - 0.5), rx = x + 5 - (v - 1) / (h - 1); want += rx - lx; sx_reach("crossing"); } else sx_reach(v == h ? "touching" : "missing");
  sx_assert_eq(got, want, "the pieces are the part of the line inside");
}

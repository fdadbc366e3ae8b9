//@ src: headland_generator/constant_headland.cpp
//@ native: gdal
//@ bound: arbitrary width, up to 4 passes (6 when thorough, up to 8 in plain rectangles) in either order; a second cell that may be too narrow for the passes; a field of one or two cells: rectangles with arbitrary sides (one side fixed when a corner is cut off, unless thorough), with a rectangular hole or with an arbitrary corner cut off, as long as the innermost offset keeps the rectangle and the hole apart
//@ assume: a buffer moves every edge of a convex border by the distance asked and drops the edges that vanish (mitred joins)
#include "geo.h"
#include "ogr_model.h"
#include "fields2cover/headland_generator/constant_headland.h"
using f2c::hg::ConstHL; using f2c::hg::HeadlandGeneratorBase;
// x0 <= x <= x1, y0 <= y <= y1, 3x + 4y <= c: the corner at (x1, y1) is cut off when it is beyond the last line
struct B { double x0, y0, x1, y1, c; bool cut; };
static LinearRing ring(const B& b) {
  LinearRing r; r.addPoint(b.x0, b.y0); r.addPoint(b.x1, b.y0);
  if (b.cut) { r.addPoint(b.x1, (b.c - 3 * b.x1) / 4); r.addPoint((b.c - 4 * b.y1) / 3, b.y1); } else r.addPoint(b.x1, b.y1);
  r.addPoint(b.x0, b.y1); r.addPoint(b.x0, b.y0); return r;
}
static B parse(const OGRLinearRing* r) { int n = r->getNumPoints(); B b{r->getX(0), r->getY(0), r->getX(1), r->getY(n - 2), 0, n == 6}; if (n != 5 && n != 6) sx_unmodelled("shape"); if (b.cut) b.c = 3 * r->getX(2) + 4 * r->getY(2); return b; }
static bool inset(const B& b, double d, B& o) { // d > 0: inwards
  o = {b.x0 + d, b.y0 + d, b.x1 - d, b.y1 - d, b.c - 5 * d, b.cut}; if (o.x0 >= o.x1 || o.y0 >= o.y1) return false;
  if (o.cut && 3 * o.x1 + 4 * o.y1 <= o.c) o.cut = false; return true;
}
static void add(OGRPolygon* g, LinearRing r) { g->addRing(r.get()); }
static OGRPolygon* cell(const OGRPolygon* p, double d) { // every border moves d towards the inside of the cell
  B o; if (!inset(parse(p->getExteriorRing()), d, o)) return nullptr; auto* g = new OGRPolygon(); add(g, ring(o));
  for (int i = 0; i < p->getNumInteriorRings(); i++) { B h; if (inset(parse(p->getInteriorRing(i)), -d, h)) add(g, ring(h)); }
  return g;
}
#ifndef SX_NATIVE
static OGRGeometry* buffer(const OGRGeometry* g, double d) {
  auto* m = new OGRMultiPolygon(); auto one = [&](const OGRPolygon* p) { if (auto* q = cell(p, -d)) m->addGeometryDirectly(q); };
  if (wkbFlatten(g->getGeometryType()) == wkbPolygon) one(static_cast<const OGRPolygon*>(g)); else { auto* c = static_cast<const OGRMultiPolygon*>(g); for (int i = 0; i < c->getNumGeometries(); i++) one(static_cast<const OGRPolygon*>(c->getGeometryRef(i))); }
  return m;
}
#endif
struct Setup { Cells field; int cells; double w; B b[2], hole[2]; bool hashole[2]; };
static Setup setup(double most, bool plain = false) { // most: the largest offset that will be asked for, in widths
#ifndef SX_NATIVE
  mdl::hooks.buffer = buffer;
#endif
  Setup s; s.w = num("width", 1, 4); double d = s.w * most; int kind = plain ? 0 : sx_choose("kind", 0, 2); s.cells = kind == 2 ? 1 : sx_choose("cells", 1, 2);
  for (int i = 0; i < s.cells; i++) {
    std::string n = "cell" + std::to_string(i); B& b = s.b[i]; b.x0 = 512.0 * i; b.y0 = 16; b.x1 = b.x0 + (kind == 2 && !sx_thorough() ? 64.0 : num(n + ".x", 8, 256)); b.y1 = b.y0 + num(n + ".y", 8, 256); b.cut = kind == 2; b.c = b.cut ? num(n + ".cut", 0, 8192) : 0; s.hashole[i] = kind == 1 && i == s.cells - 1;
    if (b.cut) { // both ends of the cut lie on the sides, also after the offset
      sx_assume(3 * b.x1 + 4 * b.y1 > b.c + 1.0 / 64); for (double e : {0.0, d}) { sx_assume(3 * (b.x0 + e) + 4 * (b.y1 - e) < b.c - 5 * e - 1.0 / 64); sx_assume(3 * (b.x1 - e) + 4 * (b.y0 + e) < b.c - 5 * e - 1.0 / 64); } }
    sx_assume(b.x0 + d + 1.0 / 64 < b.x1 - d); sx_assume(b.y0 + d + 1.0 / 64 < b.y1 - d);
    Cell c(ring(b));
    if (s.hashole[i]) { B& h = s.hole[i]; h = {b.x0 + num(n + ".hx", 0, 128), b.y0 + num(n + ".hy", 0, 128), 0, 0, 0, false}; h.x1 = h.x0 + 2; h.y1 = h.y0 + 3; double e = d + 1.0 / 64;
      sx_assume(b.x0 + e < h.x0 - e); sx_assume(b.y0 + e < h.y0 - e); sx_assume(h.x1 + e < b.x1 - e); sx_assume(h.y1 + e < b.y1 - e); if (b.cut) sx_assume(3 * (h.x1 + e) + 4 * (h.y1 + e) < b.c - 5 * e); c.addRing(ring(h)); }
    s.field.addGeometry(c);
  }
  return s;
}
static double area(const B& b) { double a = (b.x1 - b.x0) * (b.y1 - b.y0); if (b.cut) { double t = 3 * b.x1 + 4 * b.y1 - b.c; a -= t * t / 24; } return a; }
static void in(const LinearRing& r, const B& b, double sign, const char* m) { for (size_t i = 0; i < r.size(); i++) { Point p = r.getGeometry(i); sx_assert_le(sign * b.x0, sign * p.getX(), m); sx_assert_le(sign * p.getX(), sign * b.x1, m); sx_assert_le(sign * b.y0, sign * p.getY(), m); sx_assert_le(sign * p.getY(), sign * b.y1, m); if (b.cut) sx_assert_le(3 * p.getX() + 4 * p.getY(), b.c, m); } }
static void at(const Setup& s, double d, const Cells& got, const char* m) { // got is the field, shrunk by d
  sx_assert((int)got.size() == s.cells, m);
  for (int i = 0; i < s.cells; i++) {
    B o, h; if (!inset(s.b[i], d, o)) sx_fail(m); Cell c; for (size_t k = 0; k < got.size(); k++) { Cell q = got.getGeometry(k); if ((q.getExteriorRing().getGeometry(0).getX() < 400) == (i == 0)) c = q; } sx_assert((int)c.size() == 1 + s.hashole[i], m); in(c.getExteriorRing(), o, 1, m); double a = area(o);
    if (s.hashole[i]) { inset(s.hole[i], -d, h); LinearRing r = c.getInteriorRing(0); a -= area(h); for (size_t k = 0; k < r.size(); k++) { Point p = r.getGeometry(k); sx_assert(std::fabs(p.getX() - h.x0) <= sx_tol(1e-6) || std::fabs(p.getX() - h.x1) <= sx_tol(1e-6), m); sx_assert(std::fabs(p.getY() - h.y0) <= sx_tol(1e-6) || std::fabs(p.getY() - h.y1) <= sx_tol(1e-6), m); } }
    sx_assert_eq(c.area(), a, m);
  }
}
SX_HARNESS(H01_area) {
  Setup s = setup(3); ConstHL hl; HeadlandGeneratorBase& g = hl; double d = num("distance", 0, 12); sx_assume(d <= 3 * s.w); at(s, d, g.generateHeadlands(s.field, d), "the mainland is the field shrunk by the distance asked");
  int n = sx_choose("passes", 0, 3); at(s, s.w * n, g.generateHeadlandArea(s.field, s.w, n), "the mainland is the field shrunk by the passes"); sx_reach("area");
}
SX_HARNESS(H01_passes) {
  int n = sx_choose("passes", -1, 8); Setup s = setup(n < 1 ? 1 : n - 0.5, n > (sx_thorough() ? 6 : 4)); bool in = sx_choose("inwards", 0, 1); ConstHL hl; HeadlandGeneratorBase& g = hl;
  auto r = g.generateHeadlandSwaths(s.field, s.w, n, in); sx_assert((int)r.size() == std::max(n, 0), "as many passes as requested");
  for (int i = 0; i < n; i++) { at(s, s.w * ((in ? i : n - 1 - i) + 0.5), r[i], "every pass lies at half a width more than the passes around it"); sx_reach(in ? "inwards" : "outwards"); }
  if (in) { auto e = g.generateHeadlandSwaths(s.field, s.w, n); sx_assert(e.size() == r.size(), "inwards is the default order"); if (n > 1) { at(s, s.w * 0.5, e[0], "inwards is the default order"); } }
}
SX_HARNESS(H01_narrow) { // a cell too narrow for all the passes leaves the other cell alone
#ifndef SX_NATIVE
  mdl::hooks.buffer = buffer;
#endif
  double w = num("width", 1, 4), x = num("x", 64, 128), y = num("y", 64, 128), h = num("narrow", 1, 32); int n = sx_choose("passes", 1, 4); bool first = sx_choose("narrow first", 0, 1);
  for (int i = 0; i <= 2 * n; i++) sx_assume(h - i * w > 1.0 / 64 || i * w - h > 1.0 / 64); Cells f; auto big = [&] { f.addGeometry(Cell(LinearRing({Point(0, 0), Point(x, 0), Point(x, y), Point(0, y), Point(0, 0)}))); };
  if (!first) big(); f.addGeometry(Cell(LinearRing({Point(512, 0), Point(512 + 64, 0), Point(512 + 64, h), Point(512, h), Point(512, 0)}))); if (first) big();
  auto want = [&](double d, const Cells& c, const char* m) { sx_assert_eq(c.area(), (x - 2 * d) * (y - 2 * d) + (h > 2 * d ? (64 - 2 * d) * (h - 2 * d) : 0), m); };
  ConstHL hl; if (sx_choose("area", 0, 1)) { want(n * w, hl.generateHeadlandArea(f, w, n), "the mainland is the field shrunk by the passes"); return; } bool in = sx_choose("inwards", 0, 1); auto r = hl.generateHeadlandSwaths(f, w, n, in);
  sx_assert((int)r.size() == n, "as many passes as requested"); for (int i = 0; i < n; i++) want(w * ((in ? i : n - 1 - i) + 0.5), r[i], "every pass lies at half a width more than the passes around it"); sx_reach("narrow"); }
SX_HARNESS(H01_inside) { // however wide the passes: nothing leaves the field
  Setup s = setup(0.25, true); int n = sx_choose("passes", 1, 3); double w = s.w; bool inw = sx_choose("inwards", 0, 1); ConstHL hl;
  auto r = hl.generateHeadlandSwaths(s.field, w, n, inw); sx_assert((int)r.size() == n, "as many passes as requested");
  for (auto& c : r) for (size_t k = 0; k < c.size(); k++) { auto ring = c.getGeometry(k).getExteriorRing(); for (size_t i = 0; i < ring.size(); i++) { Point p = ring.getGeometry(i); const B* b = p.getX() < 400 ? &s.b[0] : &s.b[1]; sx_assert(p.getX() < 400 || s.cells == 2, "no pass leaves the field"); sx_assert_le(b->x0, p.getX(), "no pass leaves the field"); sx_assert_le(p.getX(), b->x1, "no pass leaves the field"); sx_assert_le(b->y0, p.getY(), "no pass leaves the field"); sx_assert_le(p.getY(), b->y1, "no pass leaves the field"); } sx_reach("inside"); }
}

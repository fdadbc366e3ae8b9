//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp
//@ native: gdal
//@ bound: rectangles of any size at any place, with or without a rectangular hole, and triangles with one free corner; any query point; up to three cells; rays along twelve directions, long lines along any direction
//@ assume: query points on a slanting border are left out; rays do not graze a corner or run along a border; clipping a ray to a rectangle with a hole or to a triangle is an exact contract, and its pieces come in any order and direction
#include "geo.h"
#ifndef SX_GDAL
#include "ogr_model.h"
#endif
static LinearRing ring(double x0, double y0, double x1, double y1) { return LinearRing({Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x0, y0)}); }
struct Box { double x0, y0, x1, y1; bool in(double x, double y) const { return x0 < x && x < x1 && y0 < y && y < y1; } bool out(double x, double y) const { return x < x0 || x > x1 || y < y0 || y > y1; } };
struct Frame { Box b, h; bool hole; Cell c; bool in(const Point& p) const { return b.in(p.getX(), p.getY()) && (!hole || h.out(p.getX(), p.getY())); } bool out(const Point& p) const { return b.out(p.getX(), p.getY()) || (hole && h.in(p.getX(), p.getY())); } };
static Frame frame(const std::string& n, double x, double y, bool hole) { Frame f; double w = num(n + ".w", 8, 90), l = num(n + ".l", 8, 90); f.b = {x, y, x + w, y + l}; f.h = {x + 2, y + 3, x + 2 + num(n + ".hw", 1, 4), y + 5}; f.hole = hole; f.c.addRing(ring(x, y, x + w, y + l)); if (hole) f.c.addRing(ring(f.h.x0, f.h.y0, f.h.x1, f.h.y1)); return f; }
template <class C> static void where(const C& c, const Point& p, bool in, bool out) { sx_assert(c.isPointIn(p) == in, "a point is inside exactly when it lies strictly within the border and outside the holes"); sx_assert(c.isPointInBorder(p) == (!in && !out), "a point is on the border exactly when it lies on the outer or a hole's border"); }
SX_HARNESS(U09_point) { Frame f = frame("f", num("x"), num("y"), sx_choose("hole", 0, 1)); Point p(f.b.x0 + num("px", -9, 99), f.b.y0 + num("py", -9, 99)); bool in = f.in(p), out = f.out(p); where(f.c, p, in, out); where(Cells(f.c), p, in, out); }
static double cross(const Point& a, const Point& b, const Point& c) { return (b.getX() - a.getX()) * (c.getY() - a.getY()) - (b.getY() - a.getY()) * (c.getX() - a.getX()); }
SX_HARNESS(U09_point_triangle) { Point a(0, 0), b(8, 0), c(num("cx", -20, 20), num("cy", 1, 20)), p = pnt("p", -20, 20); double s[3] = {cross(a, b, p), cross(b, c, p), cross(c, a, p)}; bool in = true; for (double v : s) { sx_assume(v > 0.01 || v < -0.01); if (v < 0) in = false; } bool back = sx_choose("back", 0, 1); where(Cell(back ? LinearRing({a, c, b, a}) : LinearRing({b, c, a, b})), p, in, !in); }
SX_HARNESS(U09_where) { int n = sx_choose("cells", 0, 3); std::vector<Frame> f; Cells cs; double x = num("x"); for (int i = 0; i < n; i++) { f.push_back(frame("f" + std::to_string(i), x, 0, i == 1)); cs.addGeometry(f[i].c); x = f[i].b.x1 + (i ? 3 : 0); } Point p(f.empty() ? 0 : f[0].b.x0 + num("px", -9, 400), num("py", -9, 99));
  Cell c = cs.getCellWherePoint(p); int k = 0; while (k < n && f[k].out(p)) k++; if (k == n) { sx_assert(c.isEmpty(), "a point outside belongs to no cell"); return; }
  sx_reach("found"); sx_assert(c.size() == f[k].c.size(), "the cell where a point is contains it"); sx_assert_eq(c.getDimMinX(), f[k].b.x0, "the cell where a point is contains it"); sx_assert_eq(c.getDimMaxX(), f[k].b.x1, "the cell where a point is contains it"); }
// --- rays
static std::vector<std::vector<Point>> pieces;
#ifndef SX_GDAL
static OGRGeometry* cut(const OGRGeometry* a, const OGRGeometry* b) { auto* m = new OGRMultiLineString(); int n = pieces.size(); bool flip = sx_choose("pieces backwards", 0, 1), turn = sx_choose("pieces turned", 0, 1);
  for (int i = 0; i < n; i++) { auto& q = pieces[flip ? n - 1 - i : i]; OGRLineString l; const Point &s = q[turn], &e = q[!turn]; l.addPoint(s.getX(), s.getY(), 0.0); l.addPoint(e.getX(), e.getY(), 0.0); m->addGeometry(&l); } return m; }
static const OGRGeometry* line(const OGRGeometry* g) { while (wkbFlatten(g->getGeometryType()) == wkbMultiLineString) g = static_cast<const OGRMultiLineString*>(g)->getGeometryRef(0); return g; }
static Point from, dir; static double need = 0;
static OGRGeometry* hook(const OGRGeometry* a, const OGRGeometry* b) { // the ray really starts at the point and leaves the field
  auto* l = static_cast<const OGRLineString*>(line(a)); sx_assert(l->getNumPoints() == 2, "a ray is one straight line"); sx_assert_eq(l->getX(0), from.getX(), "a ray starts at its point"); sx_assert_eq(l->getY(0), from.getY(), "a ray starts at its point");
  double ex = l->getX(1) - from.getX(), ey = l->getY(1) - from.getY(); double off = ex * dir.getY() - ey * dir.getX(); sx_assert_le(off, 1e-6, "a ray has the angle asked for"); sx_assert_le(-1e-6, off, "a ray has the angle asked for"); sx_assert_le(need - 1e-6, ex * dir.getX() + ey * dir.getY(), "a ray reaches beyond the border"); return cut(a, b); }
#endif
static void expect(const Point& p, const Point& d, double far) {
#ifndef SX_GDAL
  from = p; dir = d; need = far; mdl::hooks.intersection = hook;
#endif
}
static void same2(const LineString& l, const Point& p, const Point& e) { sx_assert(l.size() == 2, "a line until the border has two ends"); same(l[0], p, "a line until the border starts at the point"); sx_assert_eq(l[1].getX(), e.getX(), "a line until the border ends where the ray first meets it"); sx_assert_eq(l[1].getY(), e.getY(), "a line until the border ends where the ray first meets it"); }
SX_HARNESS(U09_ray) { int k = sx_choose("direction", -1, 4); bool hole = sx_choose("hole", 0, 1), far = sx_choose("start", 0, 1); double X = num("x", -50, 50); Frame f = frame("f", X, 0, hole); static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1}; int q = ((k % 4) + 4) % 4; Point p(X + num("px", 0, 99), num("py", 0, 99)), d(dx[q], dy[q]); const double e = 0.01;
  sx_assume(p.getX() > f.b.x0 + e); sx_assume(p.getX() < f.b.x1 - e); sx_assume(p.getY() > e); sx_assume(p.getY() < f.b.y1 - e); bool hor = dx[q] != 0, pos = dx[q] + dy[q] > 0; double t = hor ? p.getX() : p.getY(), s = hor ? p.getY() : p.getX(), end = hor ? (pos ? f.b.x1 : f.b.x0) : (pos ? f.b.y1 : f.b.y0), h0 = hor ? f.h.x0 : f.h.y0, h1 = hor ? f.h.x1 : f.h.y1, l0 = hor ? f.h.y0 : f.h.x0, l1 = hor ? f.h.y1 : f.h.x1;
  if (!pos) { t = -t; end = -end; double u = -h0; h0 = -h1; h1 = u; } auto at = [&](double v) { double w = pos ? v : -v; return hor ? Point(w, s) : Point(s, w); }; pieces.clear(); double hit = end;
  if (hole) { bool beside = s < l0 - e || s > l1 + e; if (!beside) { sx_assume(s > l0 + e); sx_assume(s < l1 - e); if (h1 > t) { sx_assume(h0 > t + e); hit = h0; sx_reach("stopped by the hole"); pieces.push_back({at(t), at(h0)}); sx_assume(end > h1 + e); pieces.push_back({at(h1), at(end)}); } else sx_assume(h1 < t - e); } }
  if (pieces.empty()) pieces.push_back({at(t), at(end)}); expect(p, d, end - t); double ang = k * M_PI / 2; LineString l; if (far) { Cells cs(Cell(ring(X - 500, 0, X - 400, 9))); cs.addGeometry(f.c); l = cs.createLineUntilBorder(p, ang); } else l = f.c.createLineUntilBorder(p, ang); same2(l, p, at(hit)); }
// from the border, straight out of the field
SX_HARNESS(U09_ray_out) { Frame f = frame("f", 0, 0, false); int q = sx_choose("direction", 0, 3); static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1}; Point p(q == 0 ? f.b.x1 : q == 2 ? 0 : num("px", 1, 7), q == 1 ? f.b.y1 : q == 3 ? 0 : num("py", 1, 7)); pieces.clear(); expect(p, Point(dx[q], dy[q]), 0); LineString l = f.c.createLineUntilBorder(p, q * M_PI / 2); sx_assert(l.size() == 0, "no line until the border from a point where the ray leaves the field"); }
SX_HARNESS(U09_ray_triangle) { int k = sx_choose("direction", 0, 11); Point d(std::cos(k * M_PI / 6), std::sin(k * M_PI / 6)), t[3] = {Point(0, 0), Point(16, 0), Point(4, 10)}, p(num("px", 0, 16), num("py", 0, 10)); double best = 1e9; for (int i = 0; i < 3; i++) sx_assume(cross(t[i], t[(i + 1) % 3], p) > 0.5);
  for (int i = 0; i < 3; i++) { Point a = t[i], b = t[(i + 1) % 3], n(b.getY() - a.getY(), a.getX() - b.getX()); double v = n.getX() * d.getX() + n.getY() * d.getY(); if (v > 1e-9) { double u = (n.getX() * (a.getX() - p.getX()) + n.getY() * (a.getY() - p.getY())) / v; if (u < best) best = u; } }
  Point e(p.getX() + best * d.getX(), p.getY() + best * d.getY()); pieces = {{p, e}}; expect(p, d, best); Cell c(LinearRing({t[0], t[1], t[2], t[0]})); same2(c.createLineUntilBorder(p, k * M_PI / 6 - (sx_choose("turns", 0, 1) ? 2 * M_PI : 0)), p, e); }
// long lines leave the field whatever the point and the angle
static void reaches(const Point& p, const Point& e, double c, double s, double w, double l) { double ex = e.getX() - p.getX(), ey = e.getY() - p.getY(); sx_assert_eq(ex * s, ey * c, "a long line has the angle asked for"); double r = ex * c + ey * s; sx_assert(r > 0, "a long line has the angle asked for"); sx_assert_le(w * w + l * l, r * r, "a long line is longer than the field"); }
template <class C> static void lines(const C& c, const Box& b, const Point& p, double a) { double k = std::cos(a), s = std::sin(a), w = b.x1 - b.x0, h = b.y1 - b.y0; LineString l = c.createSemiLongLine(p, a), m = c.createStraightLongLine(p, a); sx_assert(l.size() == 2 && m.size() == 2, "a long line has two ends"); same(l[0], p, "a half line starts at its point"); reaches(p, l[1], k, s, w, h); reaches(p, m[1], k, s, w, h); reaches(p, m[0], -k, -s, w, h); }
SX_HARNESS(U09_long) { Frame f = frame("f", num("x"), num("y"), false); Point p(f.b.x0 + num("px", -9, 99), f.b.y0 + num("py", -9, 99)); double a = sx_angle("angle", -7, 7); if (sx_choose("cells", 0, 1)) { Cells cs(f.c); lines(cs, f.b, p, a); } else lines(f.c, f.b, p, a); }

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp decomposition/trapezoidal_decomp.cpp decomposition/boustrophedon_decomp.cpp decomposition/decomposition_base.cpp
//@ native: gdal
//@ bound: cuts: rectangles with one or two holes, L, U and T shapes and pairs of neighbouring cells with arbitrary sides (two of them arbitrary in the quick check), split along either axis in either sense; lines: a quadrangle with one free corner, with a triangular hole across the split direction (without it, or either way when thorough), and the same picture 256 times smaller with two holes, split along two directions (six when thorough); the quick check fixes one coordinate of the corner
//@ budget: D01_trapezoids 60 400
//@ budget: D01_boustrophedon 60 400
//@ assume: the geometry library clips lines and cuts polygons exactly (lines are split where they touch the border); no border is met within 1e-3 of a corner along a cut, and no corner lies within 1e-3 of a cut without touching it
#include "grid.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
using f2c::decomp::TrapezoidalDecomp; using f2c::decomp::BoustrophedonDecomp; using f2c::decomp::DecompositionBase;
static LinearRing ring(const std::vector<std::pair<double, double>>& v) { LinearRing r; for (auto& p : v) r.addPoint(p.first, p.second); r.addPoint(v[0].first, v[0].second); return r; }
static double len(const char* n, double fixed = 0) { return fixed && !sx_thorough() ? fixed : num(n, 1, 50); }
static const double HP = 1.5707963267948966;
// fields with edges along the axes; a quarter turn when turned
struct F { Cells cells; double area = 0, cuts = 0; };
static bool turn, along; static void add(F& f, std::vector<std::vector<std::pair<double, double>>> rings) { Cell c; for (auto r : rings) { if (turn) for (auto& p : r) p = {-p.second, p.first}; c.addRing(ring(r)); } f.cells.addGeometry(c); f.area += c.area(); }
static F field(int kind) {
  F f; double a = len("a", 3), b = len("b"), c = len("c", 5), d = len("d"), e = len("e", 4), h = len("f", 6), x = sx_thorough() ? num("x", -50, 50) : -2, X1 = x + a, X2 = X1 + b, X3 = X2 + c, Y1 = d, Y2 = d + e, Y3 = Y2 + h;
  std::vector<std::pair<double, double>> U = {{x, 0}, {X3, 0}, {X3, Y2}, {X2, Y2}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}};
  switch (kind) {
    case 0: add(f, {{{x, 0}, {X3, 0}, {X3, Y3}, {x, Y3}}, {{X1, Y1}, {X2, Y1}, {X2, Y2}, {X1, Y2}}}); break;                 // a hole
    case 1: add(f, {{{x, 0}, {X2, 0}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}}}); break;                                       // an L
    case 2: add(f, {U}); break;                                                                                              // a U
    case 3: add(f, {{{X1, 0}, {X2, 0}, {X2, Y1}, {X3, Y1}, {X3, Y2}, {x, Y2}, {x, Y1}, {X1, Y1}}}); break;                   // a T
    case 4: add(f, {U}); add(f, {{{X1 + 0.25, Y1 + 0.25}, {X2 - 0.25, Y1 + 0.25}, {X2 - 0.25, Y3}, {X1 + 0.25, Y3}}}); break; // a block in the opening of a U
    case 8: add(f, {{{x, 0}, {X3 + 9, 0}, {X3 + 9, Y3 + 9}, {x, Y3 + 9}}, {{X1, Y1}, {X2, Y1}, {X2, Y2}, {X1, Y2}}, {{X3, Y3}, {X3 + 8.5, Y3}, {X3 + 8.5, Y3 + 8}, {X3, Y3 + 8}}}); break; // two holes, one of them close to the border
    case 5: add(f, {{{X1 + 0.25, Y1 + 0.25}, {X2 + 3, Y1 + 0.25}, {X2 + 3, Y2 + 0.25}, {X1 + 0.25, Y2 + 0.25}}}); add(f, {{{x, 0}, {X2, 0}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}}}); break; // a block in the notch of an L
    case 6: add(f, {{{x, 0}, {X2, 0}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}}}); add(f, {{{X3 + 1, 0}, {X3 + a + 1, 0}, {X3 + a + 1, Y3}, {X3 + 1, Y3}}}); break; // an L and a block apart
    default: add(f, {{{x, 0}, {X3, 0}, {X3, Y2}, {X2, Y2}, {X2, Y3}, {X1, Y3}, {X1, Y1}, {x, Y1}}});                         // steps on either side
  }
  return f;
}
static void pieces(const F& f, const Cells& r, bool trapezoids) {
  double sum = 0; Cells parts; for (size_t i = 0; i < r.size(); i++) { Cell c = r.getGeometry(i); double a = c.area(); sx_assert(a > 1e-3, "every piece has an area"); sum += a; parts.addGeometry(c);
    if (trapezoids) sx_assert(std::fabs(a - c.getWidth() * c.getHeight()) <= 1e-3, "every piece is a trapezoid along the split direction");
    // seen across the split direction, a piece has no gaps
    grid::Axis X, Y; grid::Multi m; grid::load(c.get(), X, Y, m); X.number(); Y.number(); grid::Cover g = grid::cover(m, X, Y); int n = along ? g.w : g.h, k = along ? g.h : g.w;
    for (int u = 0; u < n; u++) { int runs = 0; for (int v = 0; v < k; v++) { bool now = along ? g.get(u, v) : g.get(v, u), was = v > 0 && (along ? g.get(u, v - 1) : g.get(v - 1, u)); runs += now && !was; } sx_assert(runs <= 1, "every line in the split direction runs through a piece in one go"); }
  }
  sx_assert_le(sum, f.area + sx_tol(1e-6), "the pieces do not overlap"); sx_assert_le(f.area - 1e-3, sum, "the pieces cover the field");
  OGRGeometry* o = grid::difference(parts.get(), f.cells.get()); double out = Cells(o).area(); sx_assert_le(out, 1e-3, "the pieces lie in the field"); delete o;
}
static void decompose(bool trapezoids) {
  static const int T[2][9] = {{4, 2, 3, 3, 4, 3, 3, 3, 7}, {4, 2, 3, 2, 4, 3, 3, 3, 7}}, B[2][9] = {{4, 1, 1, 1, 2, 2, 2, 1, 7}, {4, 1, 3, 1, 4, 2, 2, 1, 7}}; // pieces when split upwards and sideways
  grid::install(); int kind = sx_choose("field", 0, 8), sideways = sx_choose("sideways", 0, 1), sense = sx_thorough() ? sx_choose("sense", 0, 1) : kind % 2; turn = sx_thorough() ? sx_choose("turned", 0, 1) : (kind + sideways) / 2 % 2;
  TrapezoidalDecomp td; BoustrophedonDecomp bd; TrapezoidalDecomp& d = trapezoids ? td : bd; F f = field(kind); int q = (1 + turn + sideways) % 2; along = q == 1; double a = (q + (sense ? 2 : 0)) * HP; d.setSplitAngle(a); sx_assert_eq(d.getSplitAngle(), a, "the split angle is the one set");
  Cells r = d.decompose(f.cells); pieces(f, r, trapezoids); sx_assert((int)r.size() == (trapezoids ? T : B)[sideways][kind], trapezoids ? "cells are cut at their own inward corners and nowhere else" : "cells are cut at critical corners and nowhere else"); sx_reach(kind < 4 ? "one" : "two"); }
SX_HARNESS(D01_trapezoids) { decompose(true); }
SX_HARNESS(D01_boustrophedon) { decompose(false); }
// the lines of a split in any direction
struct Poly { std::vector<std::vector<Point>> rings; };
static double cr(double ax, double ay, double bx, double by) { return ax * by - ay * bx; }
static int side(const Poly& f, double x, double y) { // 1 inside, 0 on the border, -1 outside
  bool in = false; for (auto& r : f.rings) for (size_t i = 0, n = r.size(); i < n; i++) { Point a = r[i], b = r[(i + 1) % n]; double c = cr(b.getX() - a.getX(), b.getY() - a.getY(), x - a.getX(), y - a.getY()), t = sx_tol(1e-7);
    if (c <= t && c >= -t && x >= std::fmin(a.getX(), b.getX()) - t && x <= std::fmax(a.getX(), b.getX()) + t && y >= std::fmin(a.getY(), b.getY()) - t && y <= std::fmax(a.getY(), b.getY()) + t) return 0;
    bool ua = a.getY() > y, ub = b.getY() > y; if (ua != ub && (ub ? c > 0 : c < 0)) in = !in; }
  return in ? 1 : -1; }
// where the ray first meets the border: -1 outside, 0 along the border, 1 inside on the way there
static double least = 1e-3;
static int ray(const Poly& f, const Point& p, double c, double s, Point& end) {
  double best = 0; bool any = false; auto hit = [&](double t) { sx_assume(t <= sx_tol(1e-9) || t > least); if (t > least && (!any || t < best)) { best = t; any = true; } };
  for (auto& r : f.rings) for (size_t i = 0, n = r.size(); i < n; i++) { double ax = r[i].getX() - p.getX(), ay = r[i].getY() - p.getY(), bx = r[(i + 1) % n].getX() - p.getX(), by = r[(i + 1) % n].getY() - p.getY(), ha = cr(c, s, ax, ay), hb = cr(c, s, bx, by), t = sx_tol(1e-9); sx_assume((ha <= t && ha >= -t) || ha > least || ha < -least);
    if (ha <= t && ha >= -t) hit(ax * c + ay * s); if (hb <= t && hb >= -t) hit(bx * c + by * s); if ((ha > t && hb < -t) || (ha < -t && hb > t)) { double w = ha / (ha - hb); hit((ax + (bx - ax) * w) * c + (ay + (by - ay) * w) * s); } }
  if (!any) return -1; end = Point(p.getX() + best * c, p.getY() + best * s); return side(f, p.getX() + best * c / 2, p.getY() + best * s / 2); }
struct Seg { Point a, b; bool must; int seen; };
static void lines(bool boustrophedon) {
  static const int C5[] = {0, 4, 5, -3, -5, 3}, S5[] = {5, 3, 0, 4, 0, -4}; int k = sx_choose("direction", 0, sx_thorough() ? 5 : 1); double c = C5[k] / 5.0, s = S5[k] / 5.0, a, tol = sx_tol(1e-9);
  if (C5[k] * S5[k] == 0) a = C5[k] == 5 ? 0 : S5[k] == 5 ? HP : 2 * HP;
  else { a = sx_angle("angle", 0, 8); double dc = 5 * std::cos(a) - C5[k], ds = 5 * std::sin(a) - S5[k]; sx_assume(dc <= tol && dc >= -tol && ds <= tol && ds >= -tol); } c = std::cos(a); s = std::sin(a);
  bool small = sx_choose("small", 0, 1); least = small ? 1e-4 : 1e-3;
  double qx = sx_thorough() ? num("q.x", 8, 14) : 11, qy = !small ? num("q.y", 8.5, 13) : sx_thorough() ? num("q.y", 9.5, 10.5) : 10; Poly f; f.rings = {{Point(0, 0), Point(20, 12), Point(qx, qy), Point(2, 20)}}; if (sx_thorough() ? sx_choose("hole", 0, 1) : small || k == 0) f.rings.push_back({Point(6, 5), Point(7, 7), Point(9, 6)});
  if (small) { f.rings.push_back({Point(3.25, 12), Point(4.5, 12.5), Point(3.75, 14)}); for (auto& r : f.rings) for (auto& p : r) p = Point(p.getX() / 256, p.getY() / 256); }
  Cell cell; for (auto& r : f.rings) { LinearRing g; for (size_t i = 0; i <= r.size(); i++) g.addPoint(r[i % r.size()]); cell.addRing(g); } Cells cells(cell);
  std::vector<Seg> want; for (auto& r : f.rings) for (auto& p : r) { Point b[2], v[2] = {p, p}; int w[2]; for (int d : {0, 1}) { double sg = d ? -1 : 1; w[d] = ray(f, p, sg * c, sg * s, b[d]); if (boustrophedon) while (w[d] == 0) { v[d] = b[d]; w[d] = ray(f, v[d], sg * c, sg * s, b[d]); } }
    bool both = w[0] == 1 && w[1] == 1; for (int d : {0, 1}) if (boustrophedon ? both : w[d] >= 0) want.push_back({v[d], b[d], w[d] == 1, 0}); }
  TrapezoidalDecomp t; BoustrophedonDecomp bo; TrapezoidalDecomp& d = boustrophedon ? bo : t; d.setSplitAngle(a); auto got = boustrophedon ? bo.genSplitLines(cells) : t.genSplitLines(cells); size_t n = got.size();
  for (size_t i = 0; i < n; i++) { LineString l = got.getGeometry(i); if (l.size() == 0) continue; sx_assert(l.size() == 2, "a cut is a straight line"); Point p = l.getGeometry(0), q = l.getGeometry(1); double len = (q.getX() - p.getX()) * c + (q.getY() - p.getY()) * s; double off = (q.getY() - p.getY()) * c - (q.getX() - p.getX()) * s; sx_assert(off <= 1e-6 && off >= -1e-6, "cuts run along the split direction");
    bool found = false; for (auto& w : want) { double e = 1e-6; auto at = [&](const Point& x, const Point& y) { double dx = x.getX() - y.getX(), dy = x.getY() - y.getY(); return dx <= e && dx >= -e && dy <= e && dy >= -e; }; if (((w.b.getX() - w.a.getX()) * c + (w.b.getY() - w.a.getY()) * s > 0) == (len > 0) && at(p, w.a)) { if (at(q, w.b)) { w.seen++; found = true; } } } sx_assert(found, "a cut goes from a corner, through the inside, to the first border met"); if (small) sx_reach("small"); sx_reach(boustrophedon ? "boustrophedon" : "trapezoids"); }
  for (auto& w : want) if (w.must) sx_assert(w.seen > 0, boustrophedon ? "there is a cut at every corner with room on both sides" : "there is a cut at every corner the inside can be seen from");
}
SX_HARNESS(D01_lines) { lines(false); }
SX_HARNESS(D01_critical) { lines(true); }

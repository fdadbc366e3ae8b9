//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp
//@ native: gdal
//@ bound: every triangle, quadrangle and pentagon with one free corner on an axis-parallel frame, started at any corner, written either way; up to two cells
//@ assume: no three neighbouring corners are in line (within an area of 1/16)
#include "geo.h"
static double cross(const Point& a, const Point& b, const Point& c) { return (b.getX() - a.getX()) * (c.getY() - b.getY()) - (b.getY() - a.getY()) * (c.getX() - b.getX()); }
static LinearRing ring(const std::vector<Point>& ps, int start, bool back) { LinearRing r; int n = ps.size(); for (int i = 0; i <= n; i++) r.addPoint(ps[((start + (back ? -i : i)) % n + n) % n]); return r; }
// a polygon on an axis-parallel frame with one free corner; returns how often it turns left
static int corners(int n, std::vector<Point>& p) { std::vector<Point> f = {Point(0, 0), Point(8, 0), Point(8, 8), Point(0, 8)}; for (int i = 0; i < n - 1; i++) p.push_back(f[i]); p.push_back(pnt("p", -32, 32)); int left = 0;
  for (int i = 0; i < n; i++) { double c = cross(p[i], p[(i + 1) % n], p[(i + 2) % n]); bool l = c > 0; sx_assume(l ? c > 0.125 : c < -0.125); left += l; } return left; }
static void check(int n) { sx_option("pairlemmas", 2); std::vector<Point> p; int start = sx_choose("start", 0, n - 1), back = sx_choose("back", 0, 1), left = corners(n, p); Cell c(ring(p, start, back)); bool convex = left == 0 || left == n; if (n == 5 && !convex && left != 4) sx_ignore_path("a border that may cross itself"); if (convex) sx_reach("convex"); else sx_reach("not convex"); sx_assert(c.isConvex() == convex, convex ? "a convex polygon is reported convex" : "a polygon that turns both ways is not reported convex"); }
SX_HARNESS(U07_triangle) { check(3); }
SX_HARNESS(U07_quad) { check(4); }
SX_HARNESS(U07_pentagon) { check(5); }
static LinearRing tri(double x, double y, double l) { return LinearRing({Point(x, y), Point(x + l, y), Point(x, y + l), Point(x, y)}); }
SX_HARNESS(U07_others) { Cell e; sx_assert(!e.isConvex(), "an empty polygon is not convex"); double x = num("x"), y = num("y"), l = num("l", 1, 50); Cell c(tri(x, y, l)); sx_assert(c.isConvex(), "a convex polygon is reported convex"); c.addRing(tri(x + 0.125, y + 0.125, 0.25)); sx_assert(!c.isConvex(), "a polygon with a hole is not convex");
  Cells cs; sx_assert(!cs.isConvex(), "no polygon is not convex"); cs.addGeometry(Cell(tri(x, y, l))); sx_assert(cs.isConvex(), "a single convex polygon is convex"); cs.addGeometry(Cell(tri(x + 60, y, l))); sx_assert(!cs.isConvex(), "two polygons are not convex"); }

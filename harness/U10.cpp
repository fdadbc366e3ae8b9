//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/Field.cpp
//@ native: gdal
//@ bound: lines of 2 to 4 (or 9) points along chosen directions at any place and scale; rings with one free corner, started anywhere and written either way; fields of up to 3 (or 6) cells with up to 2 holes; headings of lines of 2 to 4 (or 9) arbitrary points; upright swaths of any width, length and direction on rectangles of any size
//@ assume: a swath covers its length times its width (flat ends); the clipping library returns the common part of rectangles
#include "swath_common.h"
#ifndef SX_GDAL
#include "rects.h"
#else // the real library
namespace rects { inline void install() {} inline LinearRing ring(double x0, double y0, double x1, double y1) { return LinearRing({Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1), Point(x0, y0)}); } inline Cell cell(double x0, double y0, double x1, double y1) { return Cell(ring(x0, y0, x1, y1)); } }
#endif
#include "fields2cover/types/Field.h"
// points along 3-4-5 directions: lengths are exact
static const int step[9][3] = {{3, 4, 5}, {5, -12, 13}, {-8, 6, 10}, {0, 7, 7}, {-9, 0, 9}, {8, 15, 17}, {-4, -3, 5}, {6, -8, 10}, {1, 0, 1}};
struct Way { std::vector<Point> p; double len; };
static Way way(const std::string& s, int n, int first, bool close = false) { Way w; double k = num(s + ".scale", 0.01, 900), x = num(s + ".x"), y = num(s + ".y"); w.len = 0; for (int i = 0; i < n; i++) { w.p.push_back(Point(x, y)); if (i + 1 < n) { auto& d = step[(i + first) % 9]; x += k * d[0]; y += k * d[1]; w.len += k * d[2]; } } return w; }
static LineString line(const Way& w) { LineString l; for (auto& p : w.p) l.addPoint(p); return l; }
SX_HARNESS(U10_length) { int n = sx_size("points", 1, 4, 9), f = sx_choose("first", 0, 8); Way w = way("l", n, f); LineString l = line(w); sx_assert_eq(l.length(), w.len, "the length of a line is the sum of its pieces"); if (n > 1) sx_assert_eq(Swath(l, 2.0).length(), w.len, "a swath is as long as its line"); l.reversePoints(); sx_assert_eq(l.length(), w.len, "a line keeps its length when reversed"); }
SX_HARNESS(U10_multi) { int n = sx_size("lines", 0, 3, 7); MultiLineString m; double t = 0; for (int i = 0; i < n; i++) { Way w = way("l" + std::to_string(i), 2 + i % 2, i); m.addGeometry(line(w)); t += w.len; } sx_assert_eq(m.length(), t, "the length of lines is the sum of their lengths"); }
SX_HARNESS(U10_ring_length) { int back = sx_choose("back", 0, 1), kind = sx_choose("kind", 0, 1), start = sx_choose("start", 0, 2); double k = num("scale", 0.01, 900), x = num("x"), y = num("y"); Point p[3] = {Point(x, y), Point(x + 3 * k, y), kind ? Point(x + 3 * k, y + 4 * k) : Point(x, y - 4 * k)}; LinearRing r; for (int i = 0; i < 4; i++) r.addPoint(p[((start + (back ? -i : i)) % 3 + 3) % 3]); sx_assert_eq(r.length(), 12 * k, "the length of a ring is the way around"); sx_assert_eq(r.area(), 6 * k * k, "the area of a ring is that within it"); r.reversePoints(); sx_assert_eq(r.length(), 12 * k, "a ring keeps its length when reversed"); sx_assert_eq(r.area(), 6 * k * k, "a ring keeps its area when reversed"); }
// rings with a free corner
SX_HARNESS(U10_ring) { int n = sx_choose("corners", 3, 4), start = sx_choose("start", 0, n - 1), back = sx_choose("back", 0, 1); std::vector<Point> p{Point(0, 0), Point(8, 0), Point(8, 8)}; p.resize(n - 1); Point q = pnt("q", -32, 32); p.push_back(q); double a = 0; for (int i = 0; i < n; i++) a += p[i].getX() * p[(i + 1) % n].getY() - p[(i + 1) % n].getX() * p[i].getY(); a /= 2; if (back) a = -a;
  if (n == 4) { double x = q.getX(), y = q.getY(); sx_assume(x < y - 0.125); sx_assume(!(y < 0) || x < 0); sx_assume(!(x > 8) || y > 8); sx_assume(y > 0.125 || y < -0.125); sx_assume(x > 8.125 || x < 7.875); } // a simple border
  sx_assume(a > 0.125 || a < -0.125); LinearRing r; for (int i = 0; i <= n; i++) r.addPoint(p[((start + (back ? -i : i)) % n + n) % n]); bool cw = a < 0; sx_assert(r.isClockwise() == cw, "a ring is clockwise exactly when its signed area is negative"); sx_assert_eq(r.area(), cw ? -a : a, "the area of a ring is that within it"); sx_assert_eq(Cell(r).area(), cw ? -a : a, "the area of a cell is that within its border"); 
  LinearRing s = r.clone(); s.reversePoints(); sx_assert(s.isClockwise() != cw, "reversing a ring turns it around"); sx_assert(s.size() == r.size(), "reversing keeps the points"); for (int i = 0; i <= n; i++) same(s[i], r[n - i], "reversing keeps the points"); }
SX_HARNESS(U10_field) { int n = sx_size("cells", 0, 3, 6); Cells cs; double t = 0, x = num("x"); for (int i = 0; i < n; i++) { std::string s = "c" + std::to_string(i); double w = num(s + ".w", 10, 500), h = num(s + ".h", 10, 500), a = num(s + ".hole", 0.5, 3); int holes = i % 3; Cell c(rects::ring(x, 0, x + w, h)); t += w * h; if (holes) { c.addRing(rects::ring(x + 1, 1, x + 1 + a, 2)); t -= a; } if (holes > 1) { c.addRing(LinearRing({Point(x + 6, 1), Point(x + 6, 1 + a), Point(x + 8, 1), Point(x + 6, 1)})); t -= a; } sx_assert_le(0, c.area(), "areas are not negative"); cs.addGeometry(c); x += w + (i == 1 ? 0 : 1); }
  sx_assert_eq(cs.area(), t, "the area of cells is the sum of theirs"); f2c::types::Field f(cs, "f"); sx_assert_eq(f.area(), t, "the area of a field is that of its cells"); sx_assert(f.isEmpty() == (n == 0), "a field is empty exactly when it has no cells"); }
static void heads(double a, const Point& s, const Point& e, const char* m) { double dx = e.getX() - s.getX(), dy = e.getY() - s.getY(), c = std::cos(a), k = std::sin(a); sx_assert_eq(c * dy, k * dx, m); sx_assert_le(0, c * dx + k * dy, m); sx_assert(a >= 0 && a <= 2 * PI, m); }
SX_HARNESS(U10_heading) { int n = sx_size("points", 2, 4, 9); LineString l; std::vector<Point> v; for (int i = 0; i < n; i++) { v.push_back(pnt("p" + std::to_string(i), -100, 100)); l.addPoint(v[i]); } sx_assume(d2(v[0], v[1]) > 0.01); sx_assume(d2(v[n - 1], v[n - 2]) > 0.01); Swath s(l, 2.0);
  if (sx_choose("end", 0, 1)) { heads(l.endAngle(), v[n - 2], v[n - 1], "the last heading is that of the last piece"); heads(s.getOutAngle(), v[n - 2], v[n - 1], "the last heading is that of the last piece"); } else { heads(l.startAngle(), v[0], v[1], "the first heading is that of the first piece"); heads(s.getInAngle(), v[0], v[1], "the first heading is that of the first piece"); } }
SX_HARNESS(U10_swath) { rects::install(); double x = num("x", -500, 500), y = num("y", -500, 500), L = num("l", 1, 300), w = num("w", 0.5, 9); bool down = sx_choose("down", 0, 1); LineString l; l.addPoint(x, down ? y + L : y); l.addPoint(x, down ? y : y + L); Swath s(l, w); sx_assert_eq(s.area(), L * w, "the area of a swath is its length times its width"); s.setWidth(w / 2); sx_assert_eq(s.area() * 2, L * w, "the area of a swath is its length times its width");
  double fx = num("fx", -500, 500), fy = num("fy", -500, 500), W = num("W", 10, 500), H = num("H", 10, 500), d = w / 4, x0 = std::fmax(x - d, fx), x1 = std::fmin(x + d, fx + W), y0 = std::fmax(y, fy), y1 = std::fmin(y + L, fy + H); Cells cs(rects::cell(fx, fy, fx + W, fy + H)); sx_assert_eq(s.area(cs), x1 > x0 && y1 > y0 ? (x1 - x0) * (y1 - y0) : 0, "the part inside a field is counted"); }

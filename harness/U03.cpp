//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp
//@ native: gdal
//@ bound: all query points and segments with coordinates in [-20, 20] in the plane; line strings of 1 to 4 points and triangular rings on a chosen shape placed under an arbitrary query point; borders of a polygon with a hole and of two polygons
//@ assume: points in the plane z = 0; polygons are not empty
#include "geo.h"
// c is on segment ab and no point of ab is nearer to p
static bool on(const Point& c, const Point& a, const Point& b) {
  double cr = (b.getX() - a.getX()) * (c.getY() - a.getY()) - (b.getY() - a.getY()) * (c.getX() - a.getX());
  double dt = (c.getX() - a.getX()) * (c.getX() - b.getX()) + (c.getY() - a.getY()) * (c.getY() - b.getY());
  return std::fabs(cr) <= sx_tol(1e-6) && dt <= sx_tol(1e-6);
}
// squared distance of p to segment ab (oracle, by cases)
static double seg2(const Point& p, const Point& a, const Point& b) {
  double vx = b.getX() - a.getX(), vy = b.getY() - a.getY(), l = vx * vx + vy * vy, t = (p.getX() - a.getX()) * vx + (p.getY() - a.getY()) * vy;
  if (l == 0 || t <= 0) return d2(p, a); if (t >= l) return d2(p, b);
  double cr = vx * (p.getY() - a.getY()) - vy * (p.getX() - a.getX()); return cr * cr / l;
}
SX_HARNESS(U03_segment) {
  Point p = pnt("p", -20, 20), a = pnt("a", -20, 20), b = pnt("b", -20, 20); double vx = b.getX() - a.getX(), vy = b.getY() - a.getY(), l = vx * vx + vy * vy;
  if (sx_is_replay()) sx_assume(l == 0 || l > 1e-6);
  Point c = p.closestPointInSegment(a, b);
  if (l == 0) { sx_reach("point segment"); same(c, a, "closest point of a degenerate segment is its point"); return; }
  double t = (p.getX() - a.getX()) * vx + (p.getY() - a.getY()) * vy;
  if (t <= 0) { sx_reach("before"); same(c, a, "beyond the start the closest point is the start"); }
  else if (t >= l) { sx_reach("after"); same(c, b, "beyond the end the closest point is the end"); }
  else { sx_reach("inside"); sx_assert_eq((c.getX() - p.getX()) * vx + (c.getY() - p.getY()) * vy, 0, "inside, the closest point is the foot of the perpendicular");
    sx_assert_eq((c.getX() - a.getX()) * vy, (c.getY() - a.getY()) * vx, "the closest point lies on the segment's line"); 
    sx_assert_eq((c.getX() - a.getX()) * vx + (c.getY() - a.getY()) * vy, t, "the foot is at the projected offset"); }
}
SX_HARNESS(U03_segment_distance) {
  Point p = pnt("p", -20, 20); static const double q[4][4] = {{0, 0, 7, 0}, {-2, 3, -2, -5}, {1, 2, 5, -1}, {4, 4, -3, 5}}; auto& s = q[sx_choose("segment", 0, 3)];
  LineString l({Point(s[0], s[1]), Point(s[2], s[3])}); double d = l.distance(p); sx_assert(d >= 0, "a distance is never negative");
  sx_assert_eq(d * d, seg2(p, l[0], l[1]), "distance to a line is the distance to its closest point"); bool z = d <= sx_tol(1e-9);
  if (!sx_is_replay()) sx_assert(z == on(p, l[0], l[1]), "the distance is zero exactly on the line");
}
static const double shapes[3][4][2] = {{{0, 0}, {6, 0}, {6, 4}, {0, 4}}, {{-3, 1}, {5, 2}, {1, -4}, {1, 6}}, {{0, 0}, {4, 4}, {8, 0}, {4, 0}}};
// also as a picture a few hundred times smaller
template <class L> static void polyline(const L& k, const Point& p, size_t n, bool small = false) {
  double sc = small ? 1.0 / 256 : 1; L l; for (size_t i = 0; i < n; i++) l.addPoint(k[i] * sc); Point c = l.closestPointTo(p * sc) * (1 / sc); bool any = false; double best = -1;
  for (size_t i = 0; i + 1 < n; i++) { if (on(c, k[i], k[i + 1])) any = true; }
  sx_assert(any, "the closest point lies on the line");
  for (size_t i = 0; i + 1 < n; i++) sx_assert_le(d2(c, p), seg2(p, k[i], k[i + 1]), "no point of the line is nearer");
}
SX_HARNESS(U03_line) { auto& s = shapes[sx_choose("shape", 0, 2)]; int n = sx_choose("n", 2, 4); Point p = pnt("p", -20, 20); LineString l; for (int i = 0; i < n; i++) l.addPoint(s[i][0], s[i][1]); polyline(l, p, n, sx_choose("small", 0, 1)); }
// a long line (a zigzag or a spiral of axis-parallel pieces) with the query point in a unit square
SX_HARNESS(U03_long_line) { int n = sx_choose("points", 9, 10), kind = sx_choose("kind", 0, 1); Point p = pnt("p", 3, 4); LineString l; double x = 0, y = 0, len = 1; static const int dx[] = {1, 0, -1, 0}; for (int i = 0; i < n; i++) { if (kind) l.addPoint(i * 1.5, i % 2 ? 5 : 2); else { l.addPoint(x + 5, y + 2); x += dx[i % 4] * len; y += dx[(i + 3) % 4] * len; len += 1; } } polyline(l, p, n); }
SX_HARNESS(U03_ring) { auto& s = shapes[sx_choose("shape", 0, 2)]; Point p = pnt("p", -20, 20); LinearRing l; for (int i = 0; i < 4; i++) l.addPoint(s[i][0], s[i][1]); l.addPoint(s[0][0], s[0][1]); polyline(l, p, 5); }
SX_HARNESS(U03_free_line) { Point p(0, 0); LineString l; l.addPoint(pnt("a", -20, 20)); l.addPoint(Point(num("b.x", -20, 20), 3)); l.addPoint(Point(5, num("c.y", -20, 20))); 
  Point c = l.closestPointTo(p); for (int i = 0; i < 2; i++) sx_assert_le(d2(c, p), seg2(p, l[i], l[i + 1]), "no point of the line is nearer"); }
SX_HARNESS(U03_single) { Point p = pnt("p", -20, 20), a = pnt("a", -20, 20); if (sx_choose("ring", 0, 1)) { LinearRing l; l.addPoint(a); same(l.closestPointTo(p), a, "closest point of a one-point ring is its point"); } else { LineString l; l.addPoint(a); same(l.closestPointTo(p), a, "closest point of a one-point line is its point"); } }
static LinearRing ringAt(double x, double y, double w) { return LinearRing({Point(x, y), Point(x + w, y), Point(x + w, y + w), Point(x, y + w), Point(x, y)}); }
static void border(const Cells& cs, const Point& p, const Point& c) {
  bool any = false;
  for (size_t i = 0; i < cs.size(); i++) for (size_t r = 0; r < cs.getGeometry(i).size(); r++) { auto l = cs.getGeometry(i).getGeometry(r);
    for (size_t k = 0; k + 1 < l.size(); k++) { if (on(c, l[k], l[k + 1])) any = true; sx_assert_le(d2(c, p), seg2(p, l[k], l[k + 1]), "no border point is nearer"); } }
  sx_assert(any, "the closest border point lies on a border");
}
SX_HARNESS(U03_cell_border) { Cell c; c.addRing(ringAt(0, 0, 8)); c.addRing(ringAt(2, 3, 3)); if (sx_choose("second hole", 0, 1)) c.addRing(LinearRing({Point(6, 1), Point(7, 1), Point(7, 2), Point(6, 1)})); Point p = pnt("p", -20, 20); Cells cs; cs.addGeometry(c); border(cs, p, c.closestPointOnBorderTo(p)); }
SX_HARNESS(U03_cells_border) { Cells cs; cs.addGeometry(Cell(ringAt(0, 0, 4))); cs.addGeometry(Cell(ringAt(6, 2, 5))); Point p = pnt("p", -20, 20); border(cs, p, cs.closestPointOnBorderTo(p)); }

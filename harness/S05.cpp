//@ src: types/Swath.cpp types/Swaths.cpp types/LineString.cpp types/Point.cpp
//@ native: gdal
//@ bound: swaths of 2 to 4 points with arbitrary coordinates in [-5000000, 5000000] (z included); arbitrary widths, ids, both types, both creation directions; comparisons between two arbitrary two- or three-point swaths; one large size (9 points)
//@ assume: consecutive points of a swath differ where angles are asked for
#include "swath_common.h"
static Swath any(const std::string& n, int pts, double lo = -100, double hi = 100, bool z = true) {
  LineString l; for (int i = 0; i < pts; i++) l.addPoint(z ? pnt3(n + std::to_string(i), lo, hi) : pnt(n + std::to_string(i), lo, hi));
  Swath s(l, num(n + ".width", 0.5, 20), (int)sx_int((n + ".id").c_str(), -5, 5), sx_bool((n + ".headland").c_str()) ? SwathType::HEADLAND : SwathType::MAINLAND); s.setCreationDir(sx_bool((n + ".created").c_str())); return s;
}
static void attributes(const Swath& a, const Swath& b, const char* m) { sx_assert_eq(a.getWidth(), b.getWidth(), m); sx_assert(a.getId() == b.getId(), m); sx_assert(a.getType() == b.getType(), m); sx_assert(a.numPoints() == b.numPoints(), m); }
SX_HARNESS(S05_reverse) {
  int n = sx_size("points", 2, 4, 9); Swath s = any("p", n), r = s.clone(); r.reverse(); attributes(r, s, "reversing keeps id, width, type and size");
  for (int i = 0; i < n; i++) same(r.getPoint(i), s.getPoint(n - 1 - i), "reversing mirrors the line"); same(r.startPoint(), s.endPoint(), "reversing swaps the ends"); same(r.endPoint(), s.startPoint(), "reversing swaps the ends");
  sx_assert(r.getCreationDir() != s.getCreationDir(), "reversing flips the direction flag"); r.reverse(); attributes(r, s, "reversing twice restores the swath"); for (int i = 0; i < n; i++) same(r.getPoint(i), s.getPoint(i), "reversing twice restores the swath"); sx_assert(r.getCreationDir() == s.getCreationDir(), "reversing twice restores the swath");
}
SX_HARNESS(S05_length) { int n = sx_size("points", 2, 3, 9); LineString l; static const int c[3][2] = {{0, 0}, {3, 4}, {8, -8}}; double k = num("scale", 0.1, 9), x = num("x", -50, 50); for (int i = 0; i < n; i++) n > 3 ? l.addPoint(x + k * 3 * i, k * (i % 2) * 4) : l.addPoint(x + k * c[i][0], k * c[i][1]); Swath s(l, 1.0), r = s.clone(); r.reverse(); sx_assert_eq(s.length(), n == 3 ? 18 * k : 5 * k * (n - 1), "the length of a swath is the length of its line"); sx_assert_eq(r.length(), s.length(), "reversing keeps the length"); }
SX_HARNESS(S05_angles) {
  int n = sx_size("points", 2, 3, 9); Swath s = any("p", n, -10, 10, false), r = s.clone(); r.reverse();
  for (int i = 1; i < n; i++) sx_assume(d2(s.getPoint(i), s.getPoint(i - 1)) >= 1e-4);
  sx_assert_angle_eq(r.getInAngle(), s.getOutAngle() + PI, "the entry direction of a reversed swath is opposite to the exit direction"); sx_assert_angle_eq(r.getOutAngle(), s.getInAngle() + PI, "the exit direction of a reversed swath is opposite to the entry direction");
  double a = s.getInAngle(), b = s.getOutAngle(); Point d = s.getPoint(1) - s.getPoint(0), e = s.getPoint(n - 1) - s.getPoint(n - 2);
  sx_assert_eq(d.getX() * std::sin(a), d.getY() * std::cos(a), "the entry direction is that of the first piece"); sx_assert_le(0, d.getX() * std::cos(a) + d.getY() * std::sin(a), "the entry direction is that of the first piece");
  sx_assert_eq(e.getX() * std::sin(b), e.getY() * std::cos(b), "the exit direction is that of the last piece"); sx_assert_le(0, e.getX() * std::cos(b) + e.getY() * std::sin(b), "the exit direction is that of the last piece");
}
SX_HARNESS(S05_clone) {
  int n = sx_size("points", 2, 3, 9); Swath s = any("p", n), c = s.clone(); attributes(c, s, "a copy equals the original"); for (int i = 0; i < n; i++) same(c.getPoint(i), s.getPoint(i), "a copy equals the original"); sx_assert(c.getCreationDir() == s.getCreationDir(), "a copy equals the original");
  if (!sx_is_replay()) { sx_assert(c == s && s == c && !(c != s), "a copy compares equal"); }
  Point p0 = s.getPoint(0).clone(), q0 = s.endPoint().clone(); double w = s.getWidth(); c.reverse(); c.moveTo(Point(7, 8)); c.setWidth(33); c.setId(99); same(s.startPoint(), p0, "editing a copy leaves the original alone"); same(s.endPoint(), q0, "editing a copy leaves the original alone"); sx_assert_eq(s.getWidth(), w, "editing a copy leaves the original alone");
}
SX_HARNESS(S05_reflexive) { int n = sx_size("points", 2, 3, 9); Swath s = any("p", n), r = s.clone(); sx_assert(s == s && !(s != s) && s >= s && s <= s && !(s < s) && !(s > s), "equality is reflexive"); r.reverse(); if (!sx_is_replay()) { sx_assert(r == s && s == r, "a reversed swath equals the original"); sx_assert(r >= s && r <= s, "a reversed swath equals the original"); } }
SX_HARNESS(S05_symmetric) {
  sx_option("timeout_ms", 4000); Swath a = any("a", 2, -20, 20, false), b = any("b", 2, -20, 20, false); bool e = a == b; sx_assert(e == (b == a), "equality is symmetric"); sx_assert(e == !(a != b), "inequality is the negation of equality");
  if (e) { sx_reach("equal"); sx_assert_eq(a.getWidth(), b.getWidth(), "equal swaths have equal widths"); bool d = a.getCreationDir() == b.getCreationDir(); Point s = d ? b.startPoint() : b.endPoint(), t = d ? b.endPoint() : b.startPoint(); sx_assert_eq(a.startPoint().getX(), s.getX(), "equal swaths have equal ends"); sx_assert_eq(a.startPoint().getY(), s.getY(), "equal swaths have equal ends"); sx_assert_eq(a.endPoint().getX(), t.getX(), "equal swaths have equal ends"); sx_assert_eq(a.endPoint().getY(), t.getY(), "equal swaths have equal ends"); } else sx_reach("different");
}
SX_HARNESS(S05_order) { Swath a = any("a", 2, -20, 20, false), b = any("b", 2, -20, 20, false); int i = a.getId(), j = b.getId(); sx_assert((a < b) == (i < j) && (a > b) == (i > j), "swaths are ordered by id"); if (i != j) sx_assert((a <= b) == (i < j) && (a >= b) == (i > j), "swaths are ordered by id"); else { bool e = a == b; sx_assert((a <= b) == e && (a >= b) == e, "with equal ids the order agrees with equality"); } }
SX_HARNESS(S05_direction) {
  Swath a = any("a", 2, -20, 20, false), b = any("b", 2, -20, 20, false); Point u = a.endPoint() - a.startPoint(), v = b.endPoint() - b.startPoint(); double dot = u.getX() * v.getX() + u.getY() * v.getY();
  sx_assume(std::fabs(dot) >= 1e-6); sx_assert(a.hasSameDir(b) == (dot > 0), "two swaths have the same direction when they are driven to the same side"); Swath c = a.clone(); c.targetSameDirAs(b); sx_assert(c.hasSameDir(b), "targetSameDirAs gives the same direction"); c.targetOppositeDirAs(b); sx_assert(!c.hasSameDir(b), "targetOppositeDirAs gives the opposite direction");
  attributes(c, a, "changing the direction keeps id, width, type and size");
}
SX_HARNESS(S05_width) { double w = num("w", -10, 10); Swath s; bool threw = false; try { s.setWidth(w); } catch (const std::invalid_argument&) { threw = true; } sx_assert(threw == (w <= 0), "exactly the positive widths are accepted"); if (!threw) sx_assert_eq(s.getWidth(), w, "the width is what was set"); threw = false; try { Swath t(LineString(), w, 3); } catch (const std::invalid_argument&) { threw = true; } sx_assert(threw == (w <= 0), "exactly the positive widths are accepted"); }
SX_HARNESS(S05_move) { int n = sx_size("points", 2, 3, 9); Swath s = any("p", n); Point d = pnt3("by", -50, 50); sx_assume(std::fabs(d.getX()) > 1e-3); Swath m = s.clone(); m.moveTo(d); for (int i = 0; i < n; i++) same(m.getPoint(i), s.getPoint(i) + d, "moving translates every point"); attributes(m, s, "moving keeps id, width and type"); }

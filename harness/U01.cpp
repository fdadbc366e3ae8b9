//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp
//@ native: gdal
//@ bound: every pair of angles in [-60, 60] rad (about +-9.5 turns); sequences of up to 3 angles; lines of 2 or 3 points
#include "geo.h"
typedef Point G;
static double fold(double a) { return a - 2 * PI * std::floor(a / (2 * PI)); }   // oracle: representative in [0, 2pi)
SX_HARNESS(U01_normalise) {
  double a = num("a", -60, 60), r = G::mod_2pi(a);
  sx_assert(r >= 0 || sx_tol(1) != 0 && r > -1e-12, "a normalised angle is not negative");
  sx_assert(r < 2 * PI + sx_tol(1e-12), "a normalised angle is below a full turn");
  double k = (a - r) / (2 * PI); sx_assert_eq(k, std::floor(k + 0.5), "normalising changes an angle by whole turns only");
}
SX_HARNESS(U01_modulo) {
  double a = num("a", -60, 60); static const double ms[] = {1.0, 2.5, 7.0}; double m = ms[sx_choose("m", 0, 2)], r = G::mod(a, m);
  sx_assert(r > -1e-9 && r < m + sx_tol(1e-9), "the remainder lies in [0, modulus)"); double k = (a - r) / m; sx_assert_eq(k, std::floor(k + 0.5), "the remainder differs by whole multiples of the modulus");
}
SX_HARNESS(U01_diff) {
  double a = num("a", -60, 60), b = num("b", -60, 60); double d = G::getAngleDiffAbs(a, b), e = G::getAngleDiffAbs(b, a);
  sx_assert(d > -1e-9 - sx_tol(1e-9) && d < PI + 1e-9, "the difference of two angles lies in [0, pi]");
  sx_assert_eq(d, e, "the difference of two angles is symmetric");
  double f = fold(b - a); double want = f <= PI ? f : 2 * PI - f;
  sx_assert_eq(d, want, "the difference is the length of the smaller arc");
}
SX_HARNESS(U01_diff_turns) {
  double a = num("a", -30, 30), b = num("b", -30, 30); int k = sx_choose("turns", -2, 2);
  sx_assert_eq(G::getAngleDiffAbs(a, b), G::getAngleDiffAbs(a + 2 * PI * k, b), "adding full turns does not change the difference");
  sx_assert_eq(G::getAngleDiffAbs(a, b), G::getAngleDiffAbs(a, b + 2 * PI * k), "adding full turns does not change the difference");
}
SX_HARNESS(U01_average) {
  double a = num("a", -20, 20), b = num("b", -20, 20), m = G::getAngleAvg(a, b);
  double f = fold(b - a); double arc = f <= PI ? f : 2 * PI - f;
  double fa = fold(m - a), fb = fold(m - b);
  if (sx_is_replay()) sx_assume(std::fabs(arc - PI) > 1e-6);
  double da = fa <= PI ? fa : 2 * PI - fa, db = fb <= PI ? fb : 2 * PI - fb;
  sx_assert_eq(da, arc / 2, "the average is half the smaller arc away from the first angle");
  sx_assert_eq(db, arc / 2, "the average is half the smaller arc away from the second angle");
}
SX_HARNESS(U01_continue) {
  double p = num("prev", -40, 40), v = num("val", -40, 40), r = G::getAngContinuity(p, v);
  double k = (r - v) / (2 * PI); sx_assert_eq(k, std::floor(k + 0.5), "continuing an angle changes it by whole turns only");
  sx_assert_le(std::fabs(r - p), PI, "a continued angle is within half a turn of the previous one");
}
SX_HARNESS(U01_continue_list) {
  int n = sx_choose("n", 1, 3); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(num("v" + std::to_string(i), -8, 8));
  auto r = G::getAngContinuity(v); sx_assert(r.size() == v.size(), "continuing a list keeps its length"); sx_assert_eq(r[0], v[0], "the first angle of a list is kept");
  for (int i = 1; i < n; i++) { double k = (r[i] - v[i]) / (2 * PI); sx_assert_eq(k, std::floor(k + 0.5), "list: whole turns only"); sx_assert_le(std::fabs(r[i] - r[i - 1]), PI, "list: within half a turn of the previous one"); }
}
// the heading at a point of a line: out of the first, into the last, and half way between the two elsewhere
SX_HARNESS(U01_headings) {
  int n = sx_choose("points", 2, 3); MultiPoint m; std::vector<Point> p; for (int i = 0; i < n; i++) { p.push_back(Point(num("x" + std::to_string(i), -9, 9), num("y" + std::to_string(i), -9, 9))); m.addPoint(p[i]); }
  for (int i = 0; i + 1 < n; i++) { double dx = p[i + 1].getX() - p[i].getX(), dy = p[i + 1].getY() - p[i].getY(); sx_assume(dx * dx + dy * dy > 0.01); }
  auto dir = [&](int i) { return (p[i + 1] - p[i]).getAngleFromPoint(); };
  for (int i = 0; i < n; i++) {
    if (i > 0) sx_assert_angle_eq(m.getInAngle(i), dir(i - 1), "the heading into a point comes from the point before");
    if (i + 1 < n) sx_assert_angle_eq(m.getOutAngle(i), dir(i), "the heading out of a point goes to the point after");
    double want = i == 0 ? dir(0) : i + 1 == n ? dir(i - 1) : Point::getAngleAvg(dir(i - 1), dir(i)); sx_assert_angle_eq(m.getPointAngle(i), want, "the heading at a point lies half way between the headings into and out of it");
  }
  bool in = false, out = false; try { m.getInAngle(0); } catch (const std::invalid_argument&) { in = true; } try { m.getOutAngle(n - 1); } catch (const std::invalid_argument&) { out = true; } sx_assert(in && out, "there is no heading into the first point or out of the last");
  MultiPoint one; one.addPoint(p[0]); bool none = false; try { one.getPointAngle(0); } catch (const std::invalid_argument&) { none = true; } sx_assert(none, "a lone point has no heading");
}

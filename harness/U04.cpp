//@ src: utils/spline.cpp
//@ native: gdal
//@ bound: all splines of 2 knots and of 3 knots with arbitrary spacing 0.5..9 and arbitrary heights; 4 to 6 and 12 knots with irregular chosen spacings and arbitrary heights; arbitrary query points inside the knots; all knot lists of 1 to 4 arbitrary abscissae for rejection; both constructors, plain and monotonic (monotonic: 3 and 4 knots)
//@ assume: knots are at least 0.5 apart where slopes are compared
#include <stdexcept>
#include "sx.h"
#include <cmath>
#include <string>
#include <vector>
#include "fields2cover/utils/spline.h"
using f2c::CubicSpline; typedef std::vector<double> V;
static double num(const std::string& n, double lo = -50, double hi = 50) { return sx_double(n.c_str(), lo, hi); }
static const double gaps[3][11] = {{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {0.5, 2, 1, 4, 0.75, 1, 0.5, 2, 3, 0.25, 1}, {3, 0.5, 0.5, 5, 2, 4, 1, 1, 0.5, 2, 8}};
static CubicSpline mk(const V& x, const V& y, bool mono = false) { if (sx_choose("set", 0, 1)) { CubicSpline c(V{0, 1}, V{5, 6}, !mono); c.SetPoints(x, y, mono); return c; } return CubicSpline(x, y, mono); }
static V heights(int n) { V y; for (int i = 0; i < n; i++) y.push_back(num("y" + std::to_string(i))); return y; }
// each piece is a cubic: recover its values and slopes at both ends from four inner samples
static void smooth(const CubicSpline& c, const V& x, const V& y) {
  int n = x.size(); double endv = 0, ends = 0;
  for (int i = 0; i < n; i++) sx_assert_eq(c(x[i]), y[i], "the spline passes through every knot");
  for (int i = 0; i + 1 < n; i++) { double d = (x[i + 1] - x[i]) / 4, f1 = c(x[i] + 0.5 * d), f2 = c(x[i] + 1.5 * d), f3 = c(x[i] + 2.5 * d), f4 = c(x[i] + 3.5 * d); // binary fractions: exact
    sx_assert_eq(35 * f1 - 35 * f2 + 21 * f3 - 5 * f4, 16 * y[i], "a piece starts at its knot"); sx_assert_eq(35 * f4 - 35 * f3 + 21 * f2 - 5 * f1, 16 * y[i + 1], "a piece ends at the next knot");
    double s = -71 * f1 + 141 * f2 - 93 * f3 + 23 * f4, e = 71 * f4 - 141 * f3 + 93 * f2 - 23 * f1; // slopes at the ends times 24 d
    if (i) sx_assert_eq(s * endv, ends * d, "the slope is continuous at the knots"); endv = d; ends = e; 
    double m = c(x[i] + 2 * d); sx_assert_eq(16 * m, 9 * f2 + 9 * f3 - f1 - f4, "every piece is a cubic"); }
}
SX_HARNESS(U04_knots) { int n = sx_size("n", 2, 6, 12), g = sx_choose("gaps", 0, 2); V x{num("x0")}, y = heights(n); for (int i = 1; i < n; i++) x.push_back(x.back() + gaps[g][i - 1]); smooth(mk(x, y), x, y); }
SX_HARNESS(U04_free_knots) { int n = sx_choose("n", 2, 3); V x{num("x0", -9, 9)}, y = heights(n); for (int i = 1; i < n; i++) x.push_back(x.back() + num("gap" + std::to_string(i), 0.5, 9)); smooth(mk(x, y), x, y); }
SX_HARNESS(U04_line) { int n = sx_size("n", 2, 6, 12), g = sx_choose("gaps", 0, 2); double m = num("slope", -5, 5), k = num("offset"); V x{0}, y; for (int i = 1; i < n; i++) x.push_back(x.back() + gaps[g][i - 1]); for (double v : x) y.push_back(m * v + k); double q = num("q", 0, 15); sx_assume(q <= x.back()); CubicSpline c = mk(x, y); sx_assert_eq(c(q), m * q + k, "straight lines are reproduced"); }
SX_HARNESS(U04_line_free) { double m = num("slope", -5, 5), k = num("offset"), a = num("gap1", 0.5, 9), b = num("gap2", 0.5, 9); V x{0, a, a + b}, y; for (double v : x) y.push_back(m * v + k); double q = num("q", 0, 18); sx_assume(q <= a + b); sx_assert_eq(CubicSpline(x, y)(q), m * q + k, "straight lines are reproduced"); }
SX_HARNESS(U04_rejects) {
  int n = sx_choose("n", 0, 4), m = sx_choose("m", 0, 4); V x, y = heights(m); for (int i = 0; i < n; i++) x.push_back(num("x" + std::to_string(i), -9, 9)); bool ok = n == m && n > 1; for (int i = 1; i < n; i++) if (ok && !(x[i] > x[i - 1])) ok = false;
  if (ok && sx_is_replay()) for (int i = 1; i < n; i++) sx_assume(x[i] - x[i - 1] > 1e-6);
  bool threw = false; try { if (sx_choose("set", 0, 1)) { CubicSpline c; c.SetPoints(x, y); } else CubicSpline c(x, y); } catch (const std::out_of_range&) { threw = true; } sx_assert(threw == !ok, "exactly the strictly increasing knot lists of equal length are accepted");
}
SX_HARNESS(U04_monotonic) { // the corrected spline still interpolates with continuous slope
  sx_option("timeout_ms", 2000); int n = 3; V x{0, 1, 3, 4}, y = heights(n); x.resize(n); for (int i = 1; i < n; i++) sx_assume(y[i] != y[i - 1]); smooth(mk(x, y, true), x, y); }
SX_HARNESS(U04_monotonic_flat) { V x{0, 1, 3, 4}, y{num("y0"), 2, 2, num("y3")}; CubicSpline c(x, y, true); for (int i = 0; i < 4; i++) sx_assert_eq(c(x[i]), y[i], "the spline passes through every knot"); double q = num("q", 1, 3); sx_assert_eq(c(q), 2, "a flat stretch stays flat"); }

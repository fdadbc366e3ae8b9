//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp objectives/sg_obj/sg_objective.cpp objectives/sg_obj/n_swath.cpp objectives/sg_obj/swath_length.cpp objectives/sg_obj/field_coverage.cpp objectives/sg_obj/overlaps.cpp objectives/hg_obj/hg_objective.cpp objectives/hg_obj/rem_area.cpp
//@ native: model
//@ bound: up to 4 swaths in up to 2 groups; areas on rectangular fields crossed by up to 2 (thorough: 3) parallel swaths of equal width at arbitrary positions, widths and field sizes, 3 inside the field in one order, and a row of 5, 6 or 12
//@ assume: polygon buffer, intersection and difference (GEOS) are exact on rectangles; swaths run the whole field from border to border
#include "swath_common.h"
#include "rects.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/hg_obj/hg_objective.h"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/pp_obj/path_length.h"
#include "fields2cover/objectives/decomp_obj/decomp_objective.h"
using namespace f2c::obj;
// swath k: axis-parallel pieces, so that its length is plain arithmetic
static Swath made(int k, double& len) { std::string n = "s" + std::to_string(k); double x = num(n + ".x"), y = num(n + ".y"), a = num(n + ".a", 0, 50), b = num(n + ".b", 0, 50); LineString l; l.addPoint(x, y); l.addPoint(x + a, y); l.addPoint(x + a, y + b); len = a + b; return Swath(l, num(n + ".w", 1, 9), k); }
SX_HARNESS(O01_counts) {
  int n = sx_choose("n", 0, 4), cut = sx_choose("cut", 0, n); Swaths all, g0, g1; double total = 0, t0 = 0; for (int i = 0; i < n; i++) { double l; Swath s = made(i, l); total += l; if (i < cut) t0 += l; all.emplace_back(s); (i < cut ? g0 : g1).emplace_back(s); }
  SwathsByCells by; by.emplace_back(g0); by.emplace_back(g1); NSwath ns; SwathLength sl; SGObjective &a = ns, &b = sl; Cell c = rects::cell(0, 0, 5, 5); Cells cs(c);
  sx_assert_eq(a.computeCost(all), n, "the count is the number of swaths"); sx_assert_eq(a.computeCost(g0), cut, "the count is the number of swaths"); sx_assert_eq(a.computeCost(by), n, "the count adds up over cells"); sx_assert_eq(a.computeCost(c, all), n, "the count is the number of swaths of a cell"); sx_assert_eq(a.computeCost(cs, all), n, "the count is the number of swaths of a field"); sx_assert_eq(a.computeCost(c, by), n, "the count adds up over cells"); sx_assert_eq(a.computeCost(cs, by), n, "the count adds up over cells");
  sx_assert_eq(b.computeCost(all), total, "the length is the total length"); sx_assert_eq(b.computeCost(g0), t0, "the length is the total length"); sx_assert_eq(b.computeCost(by), total, "the length adds up over cells"); sx_assert_eq(b.computeCost(c, all), total, "the length is the total length in a cell"); sx_assert_eq(b.computeCost(cs, all), total, "the length is the total length in a field"); sx_assert_eq(b.computeCost(c, by), total, "the length adds up over cells"); sx_assert_eq(b.computeCost(cs, by), total, "the length adds up over cells");
  for (auto&& s : all) { sx_assert_eq(a.computeCost(s), 1, "one swath counts one"); sx_assert_eq(b.computeCost(s), s.length(), "one swath counts its length"); sx_assert_eq(a.computeCost(c, s), 1, "one swath counts one"); }
  sx_assert_eq(a.computeCostWithMinimizingSign(all), n, "a minimised objective keeps its sign"); sx_assert_eq(b.computeCostWithMinimizingSign(c, all), total, "a minimised objective keeps its sign");
}
struct Strips { double W, H, w; int n; std::vector<double> x; Cell c; Cells cs; Swaths s; };
static Strips strips(int most) {
  rects::install(); Strips t; t.W = num("field.width", 10, 100); t.H = num("field.height", 5, 50); t.w = num("swath.width", 1, 9); t.n = sx_choose("n", 0, most); double ox = num("field.x"), oy = num("field.y");
  for (int i = 0; i < t.n; i++) { double x = num("s" + std::to_string(i) + ".x", -20, 120); t.x.push_back(x); LineString l; bool down = i == 1; l.addPoint(ox + x, down ? oy + t.H : oy); l.addPoint(ox + x, down ? oy : oy + t.H); t.s.emplace_back(l, t.w, i); }
  t.c = rects::cell(ox, oy, ox + t.W, oy + t.H); t.cs = Cells(t.c); return t;
}
static double lap(double a0, double a1, double b0, double b1) { double d = std::fmin(a1, b1) - std::fmax(a0, b0); return std::fmax(d, 0.0); }
// length of the part of [0, W] inside strip i / both i and k / all of i, k, m
static double lo(const Strips& t, int i) { return std::fmax(t.x[i] - t.w / 2, 0.0); }
static double hi(const Strips& t, int i) { return std::fmin(t.x[i] + t.w / 2, t.W); }
static double in1(const Strips& t, int i) { return std::fmax(hi(t, i) - lo(t, i), 0.0); }
static double in2(const Strips& t, int i, int k) { return lap(lo(t, i), hi(t, i), lo(t, k), hi(t, k)); }
static double in3(const Strips& t, int i, int k, int m) { double a = std::fmax(lo(t, i), std::fmax(lo(t, k), lo(t, m))), b = std::fmin(hi(t, i), std::fmin(hi(t, k), hi(t, m))); return std::fmax(b - a, 0.0); }
SX_HARNESS(O01_coverage) {
  Strips t = strips(sx_thorough() ? 3 : 2); FieldCoverage fc; SGObjective& o = fc; double u = 0; for (int i = 0; i < t.n; i++) { u += in1(t, i); for (int k = 0; k < i; k++) u -= in2(t, i, k); } if (t.n == 3) u += in3(t, 0, 1, 2);
  double a = o.computeCost(t.c, t.s); sx_assert_eq(a * t.W, u, "the coverage is the share of the field under swaths"); sx_assert_le(0, a, "the coverage is a share"); sx_assert_le(a, 1, "the coverage is a share"); if (sx_choose("field", 0, 1)) sx_assert_eq(o.computeCost(t.cs, t.s), a, "a field of one cell has the coverage of the cell"); else sx_assert_eq(o.computeCostWithMinimizingSign(t.cs, t.s), -a, "a maximised objective changes sign");
}
SX_HARNESS(O01_overlaps) {
  Strips t = strips(3); if (t.n == 3 && !sx_thorough()) { sx_assume(t.x[0] <= t.x[2]); sx_assume(t.x[2] <= t.x[1]); sx_assume(t.x[0] >= t.w / 2); sx_assume(t.x[1] <= t.W - t.w / 2); } Overlaps ov; SGObjective& o = ov; double u = 0; for (int i = 0; i < t.n; i++) for (int k = 0; k < i; k++) u += in2(t, i, k);
  double a = sx_choose("field", 0, 1) ? o.computeCost(t.cs, t.s) : o.computeCost(t.c, t.s); sx_assert_eq(a * t.W, u, "the overlap is the share covered by two swaths, over every pair"); 
}
// with swaths in a row that overlap their neighbours only, in several orders
SX_HARNESS(O01_overlaps_row) {
  rects::install(); int n = sx_choose("many", 0, 1) ? 12 : sx_thorough() ? 6 : 5; double g = num("gap", 0.5, 1), w = num("w", 1, 2), H = num("h", 1, 9); Swaths s; sx_assume(w < 2 * g); sx_assume(g < w); static const int at[4][12] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {0, 3, 1, 4, 2, 5, 11, 9, 7, 10, 8, 6}, {0, 2, 3, 4, 1, 5, 6, 11, 7, 10, 8, 9}, {1, 4, 3, 2, 0, 5, 7, 6, 10, 11, 9, 8}}; auto& k = at[sx_choose("order", 0, 3)];
  for (int i = 0; i < n; i++) { LineString l; l.addPoint(5 + g * k[i], 0); l.addPoint(5 + g * k[i], H); s.emplace_back(l, w, i); } Overlaps o; double a = o.computeCost(rects::cell(0, 0, 20, H), s); sx_assert_eq(a * 20, (n - 1) * (w - g), "the overlap is the share covered by two swaths, over every pair");
}
SX_HARNESS(O01_remaining_area) {
  rects::install(); double W = num("W", 10, 100), H = num("H", 10, 100), w = num("w", 0.1, 4.9), W2 = num("W2", 10, 100); int n = sx_choose("cells", 1, 2); Cells total(rects::cell(0, 0, W, H)), rem(rects::cell(w, w, W - w, H - w)); double tot = W * H, left = (W - 2 * w) * (H - 2 * w); if (n == 2) { total.addGeometry(rects::cell(200, 0, 200 + W2, H)); rem.addGeometry(rects::cell(200 + w, w, 200 + W2 - w, H - w)); tot += W2 * H; left += (W2 - 2 * w) * (H - 2 * w); }
  HGObjective hg; RemArea ra; double a = hg.computeCost(total, rem); sx_assert_eq(a * tot, left, "the remaining share of the field"); sx_assert_eq(ra.computeCost(total, rem), a, "the remaining share of the field"); sx_assert_eq(ra.computeCostWithMinimizingSign(total, rem), -a, "a maximised objective changes sign"); if (n == 1) { sx_assert_eq(hg.computeCost(total.getGeometry(0), rem.getGeometry(0)), a, "a cell counts like a field of one cell"); sx_assert_eq(hg.computeCost(total, rem.getGeometry(0)), a, "a cell counts like a field of one cell"); sx_assert_eq(hg.computeCost(total.getGeometry(0), rem), a, "a cell counts like a field of one cell"); }
}
// any objective, minimised or maximised: signed cost never inverts the preference
struct Any : SGObjective { bool mini; Any(bool m) : mini(m) {} using SGObjective::computeCost; double computeCost(const F2CSwath& s) override { return s.getWidth(); } double computeCost(double a, double w, const F2CCell&) override { return a * w; } bool isMinimizing() const override { return mini; } };
SX_HARNESS(O01_sign) {
  Any o(sx_choose("minimizing", 0, 1)); SGObjective& g = o; double l; Swath a = made(0, l), b = made(1, l); double ca = g.computeCostWithMinimizingSign(a), cb = g.computeCostWithMinimizingSign(b), wa = a.getWidth(), wb = b.getWidth(); sx_assert(g.isMinimizing() != g.isMaximizing(), "an objective is either minimised or maximised");
  sx_assert_eq(ca, o.mini ? wa : -wa, "the signed cost is the cost up to sign"); bool better = o.mini ? wa < wb : wa > wb; sx_assert(better == (ca < cb), "the better plan has the lower signed cost"); double k = num("k"), w = num("w"); Cell c = rects::cell(0, 0, 1, 1); sx_assert_eq(g.computeCostWithMinimizingSign(k, w, c), o.mini ? k * w : -(k * w), "the signed cost is the cost up to sign");
  NSwath m1; NSwathModified m2; SwathLength m3; Overlaps m4; DirectDistPathObj m5; PathLength m6; HGObjective m7; FieldCoverage x1; RemArea x2; sx_assert(m1.isMinimizing() && m2.isMinimizing() && m3.isMinimizing() && m4.isMinimizing() && m5.isMinimizing() && m6.isMinimizing(), "costs are minimised"); sx_assert(x1.isMaximizing() && x2.isMaximizing(), "coverage and remaining area are maximised");
}

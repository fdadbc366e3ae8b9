//@ src: types/Robot.cpp
//@ native: gdal
//@ bound: all constructor arguments and set values; every sequence of two setters after construction or default construction; copies, moves and assignments
#include "geo.h"
#include "fields2cover/types/Robot.h"
using f2c::types::Robot;
struct Spec { double w = 0, cov = 0, curv = 1, dcurv = 0.3, cruise = 1, turn = 1; bool turnSet = false; std::string name; };
static void is(const Robot& r, const Spec& s) {
  sx_assert_eq(r.getWidth(), s.w, "the width is stored"); sx_assert_eq(r.getCovWidth(), s.cov, "the covered width is stored");
  sx_assert_eq(r.getMaxCurv(), s.curv, "the curvature is stored as a magnitude"); sx_assert_eq(r.getMaxDiffCurv(), s.dcurv, "the curvature change is stored as a magnitude");
  sx_assert_eq(r.getCruiseVel(), s.cruise, "the cruise velocity is stored"); sx_assert_eq(r.getTurnVel(), s.turnSet ? s.turn : s.cruise, "the turning velocity is the one set, or the cruise velocity"); sx_assert(r.getName() == s.name, "the name is stored");
  double rad = r.getMinTurningRadius(); sx_assert(rad > 0, "the turning radius is positive"); sx_assert_le(rad * s.curv, 1.0, "radius and curvature are reciprocal"); sx_assert_le(1.0, rad * (s.curv + 1.0e-6), "radius and curvature are reciprocal"); }
SX_HARNESS(M01_construct) { int n = sx_choose("arguments", 1, 4); double w = num("width", -9, 9), c = num("covered", -9, 9), k = num("curvature", -4, 4), d = num("rate", -4, 4); bool bad = w <= 0 || (n > 1 && c < 0);
  try { Robot r = n == 1 ? Robot(w) : n == 2 ? Robot(w, c) : n == 3 ? Robot(w, c, k) : Robot(w, c, k, d); sx_assert(!bad, "a width that is not positive, or a negative covered width, is rejected"); if (bad) return; sx_reach("accepted"); Spec s; s.w = w; s.cov = n > 1 && c > 0 ? c : w; if (n > 2) s.curv = k < 0 ? -k : k; if (n > 3) s.dcurv = d < 0 ? -d : d; is(r, s); }
  catch (const std::out_of_range&) { sx_reach("rejected"); sx_assert(bad, "valid widths are accepted"); } }
static void set(Robot& r, Spec& s, const std::string& n) { int what = sx_choose((n + ".what").c_str(), 0, 7); double v = num(n, -9, 9), m = v < 0 ? -v : v; switch (what) {
  case 0: sx_assume(v > 0); r.setWidth(v); s.w = v; break; case 1: sx_assume(v > 0); r.setCovWidth(v); s.cov = v; break; case 2: r.setMaxCurv(v); s.curv = m; break; case 3: r.setMaxDiffCurv(v); s.dcurv = m; break;
  case 4: sx_assume(v > 0); r.setCruiseVel(v); s.cruise = v; break; case 5: sx_assume(v > 0); r.setTurnVel(v); s.turn = v; s.turnSet = true; break; case 6: r.setName("tractor"); s.name = "tractor"; break;
  default: sx_assume(m > 0.01); r.setMinTurningRadius(v); s.curv = r.getMaxCurv(); sx_assert_le(s.curv * m, 1, "the curvature is the reciprocal of the radius"); sx_assert_le(1, s.curv * (m + 1e-6), "the curvature is the reciprocal of the radius"); } }
SX_HARNESS(M01_set) { Spec s; Robot r; if (sx_choose("constructed", 0, 1)) { s.w = num("w", 1, 9); s.cov = num("c", 1, 9); r = Robot(s.w, s.cov); } set(r, s, "a"); is(r, s); set(r, s, "b"); is(r, s); }
SX_HARNESS(M01_copy) { Spec s; Robot r(2); s.w = s.cov = 2; set(r, s, "a"); Robot c(r); is(c, s); Robot d; d.setTurnVel(num("other", 1, 9)); d = r; is(d, s); Spec t = s; set(c, t, "b"); is(r, s); is(c, t); Robot m(std::move(c)); is(m, t); d = std::move(m); is(d, t); }

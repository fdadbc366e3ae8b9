//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp types/Robot.cpp path_planning/turning_base.cpp path_planning/dubins_curves.cpp path_planning/reeds_shepp_curves.cpp path_planning/dubins_curves_cc.cpp path_planning/reeds_shepp_curves_hc.cpp
//@ native: model
//@ bound: every curve family; arbitrary robots and end poses; curves of up to 3 segments of arbitrary length and curvature, looping in any of the first 22 relaxations
//@ assume: the curve solvers of steering_functions are stubs; that they respect the curvature they are given is theirs to keep
#include "path_common.h"
#include "steering_functions/steering_functions.hpp"
#include "fields2cover/path_planning/turning_base.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
#include "fields2cover/path_planning/steer_to_path.hpp"
using f2c::pp::TurningBase; using f2c::pp::loop_detected;
static std::vector<steer::Setup> asked, solved; static int loops;
static std::vector<steer::State> path(const steer::Setup& s, const steer::State& a, const steer::State& b) { solved.push_back(s); return {a, b}; }
static std::vector<steer::Control> controls(const steer::Setup& s, const steer::State&, const steer::State&) { asked.push_back(s); double k = loops-- > 0 ? 7 : 1; return {{1.0, 0.5 * k, 0}, {1.0, 0.0, 0}, {1.0, 0.5 * k, 0}}; }
static F2CRobot robot() { F2CRobot r(2, 4); r.setMaxCurv(num("curvature", -1, 1)); r.setMaxDiffCurv(num("curvature.rate", -1, 1)); return r; }
SX_HARNESS(M05_limits) {
  steer::path_hook = path; steer::control_hook = controls; int n = sx_choose("looping", 0, 3); static const int N[] = {0, 1, 20, 40}; loops = N[n]; F2CRobot r = robot(); int which = sx_choose("planner", 0, 5); f2c::pp::DubinsCurves p0; f2c::pp::ReedsSheppCurves p1; f2c::pp::DubinsCurvesCC p2; f2c::pp::ReedsSheppCurvesHC p3; TurningBase* all[] = {&p0, &p1, &p2, &p3}; double d = num("dist", 0.1, 30), a = num("a", 0, 3), b = num("b", 0, 6); bool fix = which == 4; Path p = which < 4 ? all[which]->createSimpleTurn(r, d, a, b) : p2.createConstrainedTurn(r, pnt("s"), a, num("k0", -1, 1), pnt("e"), b, num("k1", -1, 1), fix);
  sx_assert(solved.size() == 1, "one curve is made"); for (auto* v : {&asked, &solved}) for (auto& s : *v) { sx_assert_le(s.kappa, r.getMaxCurv(), "no curve is requested sharper than the robot can drive"); sx_assert_le(0, s.kappa, "no curve is requested sharper than the robot can drive"); if (s.kind >= 2) { sx_assert_le(s.sigma, r.getMaxDiffCurv(), "no curve is requested changing faster than the robot can"); sx_assert_le(0, s.sigma, "no curve is requested changing faster than the robot can"); } }
  if (which != 2 && which != 4) { sx_assert_eq(solved[0].kappa, r.getMaxCurv(), "without looking for loops, the robot's own limit is used"); if (which >= 2) sx_assert_eq(solved[0].sigma, r.getMaxDiffCurv(), "without looking for loops, the robot's own limit is used"); }
  if (which == 2 || which == 4) { int tries = (int)asked.size(); sx_assert(tries == std::min(N[n], 21) + 1, "loops are relaxed away, up to a limit"); sx_assert_eq(asked.back().kappa, solved[0].kappa, "the curve made is the one found free of loops"); sx_assert_eq(asked.back().sigma, solved[0].sigma, "the curve made is the one found free of loops"); sx_assert_eq(asked[0].kappa, r.getMaxCurv(), "the robot's own limit is tried first"); for (int i = 1; i < tries; i++) { sx_assert_le(asked[i].kappa, asked[i - 1].kappa, "relaxing only lowers the curvature"); sx_assert_le(asked[i].sigma, asked[i - 1].sigma, "relaxing only lowers the curvature"); } }
}
SX_HARNESS(M05_loops) { // a loop: a segment turning by more than nine tenths of a turn, or all of them together
  std::vector<steer::Control> c; int n = sx_choose("segments", 0, 3); double sum = 0, abs = 0; bool one = false; for (int i = 0; i < n; i++) { double k = sx_choose("straight", 0, 1) ? 0 : num("k" + std::to_string(i), -2, 2), s = num("s" + std::to_string(i), -9, 9); c.push_back({s, k, 0}); double t = k * s / (2 * PI); sum += t; abs += std::fabs(t); if (std::fabs(t) > 0.9) one = true; } bool l = loop_detected(c); if (l) sx_assert(one || std::fabs(sum) > 0.9 || abs > 1.5, "a curve without a loop is accepted"); else { sx_assert(!one, "a segment that closes a loop is found"); sx_assert_le(std::fabs(sum), 0.9, "a curve that turns round is found"); sx_assert_le(abs, 1.5, "a curve that winds is found"); }
}

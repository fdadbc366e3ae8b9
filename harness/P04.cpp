//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp types/Robot.cpp path_planning/turning_base.cpp path_planning/dubins_curves.cpp path_planning/reeds_shepp_curves.cpp path_planning/dubins_curves_cc.cpp path_planning/reeds_shepp_curves_hc.cpp
//@ native: model
//@ bound: arbitrary start and end poses up to 100 km from the origin (headings over several turns), canonical turns of up to 4 states with arbitrary inner poses and ends up to 4 cm off; arbitrary robots; up to 3 curve segments with up to 22 relaxations of the continuous-curvature planner
//@ assume: the curve solvers of steering_functions are stubs that return an arbitrary curve between the two poses they are asked for; start and end are at least 1 cm apart
#include "path_common.h"
#include "steering_functions/steering_functions.hpp"
#include "fields2cover/path_planning/turning_base.h"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
using f2c::pp::TurningBase;
struct Mid { double u, v, h, len, vel; int dir; };
// canonical turn from (0,0) to (d,0) with arbitrary inner states and ends slightly off
struct Turn : TurningBase { std::vector<Mid> mid; double eps = 0, eps2 = 0, d = -1, a = -1, b = -1; int calls = 0;
  F2CPath createSimpleTurn(const F2CRobot& r, double dist, double sa, double ea) override { calls++; d = dist; a = sa; b = ea; Path p; auto add = [&](double x, double y, double h, double len, double vel, int dir) { PathState s; s.point = Point(x, y); s.angle = h; s.len = len; s.velocity = vel; s.dir = (PathDirection)dir; s.type = PathSectionType::TURN; p.addState(s); }; add(eps, 0, sa, 1, r.getTurnVel(), 1); for (auto& m : mid) add(m.u, m.v, m.h, m.len, m.vel, m.dir); add(dist + eps2, eps2, ea, 0, r.getTurnVel(), 1); return p; } };
static F2CRobot robot() { F2CRobot r(2, 4); r.setMaxCurv(num("curvature", 0.1, 1)); r.setMaxDiffCurv(num("curvature.rate", 0.1, 1)); r.setCruiseVel(num("cruise", 0.5, 5)); if (sx_choose("turn velocity", 0, 1)) r.setTurnVel(num("turn", 0.5, 5)); return r; }
static void addMid(Turn& t, int n) { for (int i = 0; i < n; i++) { std::string m = "m" + std::to_string(i); t.mid.push_back({num(m + ".x", -20, 20), num(m + ".y", -20, 20), sx_angle((m + ".ang").c_str(), 0, 2 * PI), num(m + ".len", 0, 9), num(m + ".vel", 1, 9), sx_bool((m + ".back").c_str()) ? -1 : 1}); } }
SX_HARNESS(P04_turn) { // arbitrary positions; headings
  Turn t; t.setUsingCache(sx_choose("memory", 0, 1)); addMid(t, 1); F2CRobot r(2, 4); Point s = pnt("start", -1e5, 1e5), e = pnt("end", -1e5, 1e5); double sa = sx_angle("start.ang", -PI, 3 * PI), ea = sx_angle("end.ang", -PI, 3 * PI); sx_assume(d2(s, e) > 0.0001); Path p = t.createTurn(r, s, sa, e, ea);
  sx_assert(t.calls == 1, "one canonical turn is made"); sx_assert(p.size() == 3, "every state of the turn is kept"); same(p[0].point, s, "the turn starts at the start position"); sx_assert_angle_eq(p[0].angle, sa, "the turn starts with the start heading"); same(p.back().point, e, "the turn ends at the end position"); sx_assert_angle_eq(p.back().angle, ea, "the turn ends with the end heading"); sx_assert_le(t.a, PI, "canonical turns start to the left"); sx_assert_le(0, t.a, "canonical turns start to the left"); sx_assert_eq(t.d * t.d, d2(s, e), "canonical turns are as wide as requested"); sx_assert_le(0, t.d, "canonical turns are as wide as requested"); sx_assert_eq(p[0].len, 1, "lengths and velocities are kept"); sx_assert_eq(p[1].len, t.mid[0].len, "lengths and velocities are kept"); sx_assert_eq(p[1].velocity, t.mid[0].vel, "lengths and velocities are kept"); sx_assert((int)p[1].dir == t.mid[0].dir && p[1].type == PathSectionType::TURN, "directions and types are kept");
}
// where the inner states go: the canonical turn, mirrored exactly when its headings are, turned and moved
SX_HARNESS(P04_rigid) {
  Turn t; t.setUsingCache(sx_choose("memory", 0, 1)); for (int i = 0; i < 2; i++) { std::string m = "m" + std::to_string(i); t.mid.push_back({num(m + ".x", -20, 20), num(m + ".y", -20, 20), sx_angle((m + ".ang").c_str(), 0, 2 * PI), 1, 1, 1}); } F2CRobot r(2, 4); double phi = sx_angle("line.ang", 0, 2 * PI), d = num("dist", 0.1, 30), cs = std::cos(phi), sn = std::sin(phi); Point s = pnt("start"), e(s.getX() + d * cs, s.getY() + d * sn); int q = sx_choose("start heading", 0, sx_thorough() ? 3 : 2); double rel = (q == 2 ? 3 : q) * PI / 2 + PI / 4; double sa = phi + rel, ea = phi + PI / 6; Path p = t.createTurn(r, s, sa, e, ea); sx_assert(p.size() == 4, "every state of the turn is kept"); double st = std::sin(t.a), sr = std::sin(sa - phi);
  for (int i = 0; i < 2; i++) { auto& m = t.mid[i]; double x = p[i + 1].point.getX() - s.getX(), y = p[i + 1].point.getY() - s.getY(), w = y * cs - x * sn; sx_assert_eq(x * cs + y * sn, m.u, "inner states are those of the canonical turn, moved rigidly"); sx_assert_eq(w * w, m.v * m.v, "inner states are those of the canonical turn, moved rigidly"); sx_assert_eq(w * st, m.v * sr, "inner states are mirrored with the start heading"); double h = p[i + 1].angle - phi; sx_assert_eq(std::cos(h), std::cos(m.h), "inner headings turn with them"); sx_assert_eq(std::sin(h) * st, std::sin(m.h) * sr, "inner headings are mirrored with the start heading"); }
  same(p[0].point, s, "the turn starts at the start position"); same(p[3].point, e, "the turn ends at the end position");
}
SX_HARNESS(P04_snap) { // the solver's ends are off by a little: the turn still meets the poses exactly
  Turn t; t.setUsingCache(false); t.eps = num("eps", -0.04, 0.04); t.eps2 = num("eps2", -0.03, 0.03); F2CRobot r(2, 4); Point s = pnt3("start"), e(s.getX() + num("dx", -9, 9), s.getY(), num("end.z")); sx_assume(e.getX() - s.getX() > 0.1 || e.getX() - s.getX() < -0.1); Path p = t.createTurn(r, s, PI / 2, e, 3 * PI / 2); same(p[0].point, s, "the turn starts at the start position"); same(p.back().point, e, "the turn ends at the end position"); sx_assert(p.size() == 2, "every state of the turn is kept");
}
SX_HARNESS(P04_normal_form) {
  Point s = pnt("start"), e = pnt("end"); double sa = sx_angle("start.ang", 0, 2 * PI), ea = sx_angle("end.ang", 0, 2 * PI); sx_assume(d2(s, e) > 0.0001); auto v = TurningBase::transformToNormalTurn(s, sa, e, ea); sx_assert(v.size() == 5, "distance, direction, both headings and the mirror flag"); sx_assert_eq(v[0] * v[0], d2(s, e), "the distance between the poses"); sx_assert_eq(v[0] * std::cos(v[1]), e.getX() - s.getX(), "the direction to the end"); sx_assert_eq(v[0] * std::sin(v[1]), e.getY() - s.getY(), "the direction to the end"); double f = v[4] != 0 ? -1 : 1; sx_assert(v[4] == 0 || v[4] == 1, "the mirror flag"); sx_assert_angle_eq(f * v[2] + v[1], sa, "the normal form stands for the start heading"); sx_assert_angle_eq(f * v[3] + v[1], ea, "the normal form stands for the end heading"); sx_assert_le(0, v[2], "canonical turns start to the left"); sx_assert_le(v[2], PI, "canonical turns start to the left");
}
SX_HARNESS(P04_nothing) { struct None : TurningBase { int k; F2CPath createSimpleTurn(const F2CRobot&, double, double, double) override { Path p; if (k) p.addState(Point(0, 0), 0, 0); return p; } } t; t.k = sx_choose("states", 0, 1); t.setUsingCache(sx_choose("memory", 0, 1)); Path p = t.createTurn(F2CRobot(2), pnt("s", -1e5, 1e5), 1, pnt("e", -1e5, 1e5), 2); sx_assert(p.size() == 0, "a turn that does not exist is an empty path"); }
// curve planners ask the solver for the canonical poses with the robot's limits, and return its curve
static std::vector<steer::State> curve; static std::vector<steer::Setup> asked; static steer::State from, to;
static std::vector<steer::State> path(const steer::Setup& s, const steer::State& a, const steer::State& b) { asked.push_back(s); from = a; to = b; return curve; }
static int loops; static std::vector<steer::Control> controls(const steer::Setup& s, const steer::State&, const steer::State&) { asked.push_back(s); double k = loops-- > 0 ? 2 * PI : 1; return {{1.0, 0.5 * k, 0}, {1.0, 0.0, 0}, {1.0, 0.5 * k, 0}}; }
static std::vector<steer::State> makeCurve(int n) { std::vector<steer::State> c; for (int i = 0; i < n; i++) { std::string m = "c" + std::to_string(i); c.push_back({num(m + ".x"), num(m + ".y"), sx_angle((m + ".ang").c_str(), 0, 2 * PI), num(m + ".k", -1, 1), sx_bool((m + ".back").c_str()) ? -1.0 : 1.0}); } return c; }
static void isCurve(const Path& p, double vel) { sx_assert(p.size() == curve.size(), "every state of the curve is kept"); for (size_t i = 0; i < curve.size(); i++) { auto& c = curve[i]; auto& s = p[i]; sx_assert_eq(s.point.getX(), c.x, "states follow the curve"); sx_assert_eq(s.point.getY(), c.y, "states follow the curve"); sx_assert_eq(s.angle, c.theta, "states follow the curve"); sx_assert_eq(s.velocity, vel, "turns are driven at the turning velocity"); sx_assert((int)s.dir == (int)c.d && s.type == PathSectionType::TURN, "driving directions follow the curve"); double l = 0; if (i + 1 < curve.size()) { auto& z = curve[i + 1]; l = (z.x - c.x) * (z.x - c.x) + (z.y - c.y) * (z.y - c.y); } sx_assert_eq(s.len * s.len, l, "a state is as long as the way to the next"); sx_assert_le(0, s.len, "a state is as long as the way to the next"); } }
SX_HARNESS(P04_planners) {
  steer::path_hook = path; steer::control_hook = controls; loops = 0; curve = makeCurve(sx_choose("states", 0, 3)); F2CRobot r = robot(); double d = num("dist", 0.1, 30), a = num("a", 0, 3), b = num("b", 0, 6), disc = num("discretization", 0.01, 1); int which = sx_choose("planner", 0, 3); f2c::pp::DubinsCurves p0; f2c::pp::ReedsSheppCurves p1; f2c::pp::DubinsCurvesCC p2; f2c::pp::ReedsSheppCurvesHC p3; TurningBase* all[] = {&p0, &p1, &p2, &p3}; TurningBase& t = *all[which]; t.setDiscretization(disc); Path p = t.createSimpleTurn(r, d, a, b); isCurve(p, r.getTurnVel());
  auto& s = asked.back(); static const int kinds[] = {0, 1, 2, 4}; sx_assert(s.kind == kinds[which], "each planner uses its family of curves"); sx_assert_eq(s.kappa, r.getMaxCurv(), "curves are made for the robot's curvature"); if (which >= 2) sx_assert_eq(s.sigma, r.getMaxDiffCurv(), "curves are made for the robot's change of curvature"); sx_assert_eq(s.discretization, disc, "curves are sampled at the discretization"); if (which == 0 || which == 2) sx_assert(s.forwards, "Dubins curves are driven forwards"); sx_assert_eq(from.x, 0, "canonical turns start at the origin"); sx_assert_eq(from.y, 0, "canonical turns start at the origin"); sx_assert_eq(from.theta, a, "canonical turns start at the origin"); sx_assert_eq(to.x, d, "canonical turns end on the axis"); sx_assert_eq(to.y, 0, "canonical turns end on the axis"); sx_assert_eq(to.theta, b, "canonical turns end on the axis"); sx_assert_eq(from.kappa, 0, "canonical turns start and end straight"); sx_assert_eq(to.kappa, 0, "canonical turns start and end straight");
}
SX_HARNESS(P04_constrained) { steer::path_hook = path; steer::control_hook = controls; loops = 0; curve = makeCurve(2); F2CRobot r = robot(); Point s = pnt("s"), e = pnt("e"); double a = num("a", 0, 6), b = num("b", 0, 6), k0 = num("k0", -1, 1), k1 = num("k1", -1, 1); f2c::pp::DubinsCurvesCC t; Path p = t.createConstrainedTurn(r, s, a, k0, e, b, k1, sx_choose("fix", 0, 1)); isCurve(p, r.getTurnVel()); sx_assert_eq(from.x, s.getX(), "the constrained turn starts at its pose"); sx_assert_eq(from.y, s.getY(), "the constrained turn starts at its pose"); sx_assert_eq(from.theta, a, "the constrained turn starts at its pose"); sx_assert_eq(from.kappa, k0, "the constrained turn starts with its curvature"); sx_assert_eq(to.x, e.getX(), "the constrained turn ends at its pose"); sx_assert_eq(to.y, e.getY(), "the constrained turn ends at its pose"); sx_assert_eq(to.theta, b, "the constrained turn ends at its pose"); sx_assert_eq(to.kappa, k1, "the constrained turn ends with its curvature"); }
SX_HARNESS(P04_valid) { // accepted turns stay above the line between the poses and end at the end pose
  Path p; int n = sx_choose("n", 1, 3); bool above = true; double m = num("max.dist", 0.01, 1), rot = num("max.rot", 0.01, 0.5), d = num("dist", 1, 20), ea = sx_angle("end.ang", 0, 2 * PI); for (int i = 0; i < n; i++) { p.addState(state("s" + std::to_string(i))); if (i + 1 == n) p[i].len = 0; if (p[i].point.getY() < -m) above = false; } Point e = p.back().point; bool near = std::fabs(e.getX() - d) < m && std::fabs(e.getY()) < m; double c = std::cos(p.back().angle - ea); bool head = c >= 1 - rot; bool v = TurningBase::isTurnValid(p, d, ea, m, rot); if (v) { sx_assert(above, "a valid turn stays on its side"); sx_assert(near, "a valid turn ends at the end position"); sx_assert(head, "a valid turn ends with the end heading"); } else sx_assert(!(above && near && head), "a good turn is accepted"); }

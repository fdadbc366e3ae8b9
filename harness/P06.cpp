//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Swaths.cpp types/Route.cpp types/Path.cpp types/PathState.cpp types/Robot.cpp path_planning/turning_base.cpp path_planning/path_planning.cpp
//@ native: model
//@ bound: lists of 0 to 3 swaths (straight across the field at arbitrary places and lengths, or one bent swath), routes of one to two groups of up to two swaths with connections of 0 to 6 points (one arbitrary), arbitrary speeds and smooth turning radii
//@ assume: the turn planner returns two states, the requested poses (its own correctness is P04), and does not reuse remembered turns (P05); no swath group of the route is empty; consecutive poses are farther apart than 10 cm
#include "path_common.h"
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
#include "fields2cover/path_planning/path_planning.h"
#include "fields2cover/types/Route.h"
using f2c::pp::TurningBase; using f2c::pp::PathPlanning; using f2c::types::Route;
struct Turn : TurningBase { F2CPath createSimpleTurn(const F2CRobot& r, double d, double a, double b) override { Path p; auto add = [&](double x, double h, double l) { PathState s; s.point = Point(x, 0); s.angle = h; s.len = l; s.velocity = r.getTurnVel(); s.dir = PathDirection::FORWARD; s.type = PathSectionType::TURN; p.addState(s); }; add(0, a, d); add(d, b, 0); return p; } };
struct Pose { Point p; double a; };
static double radius = 0.25;
static void clothoid(double, double, double, double, double, double, double, double* x, double* y, double* a, double* k) { *x = radius; *y = -2; *a = 0; *k = 0.5; }  // with a curvature of 1/2
static F2CRobot robot() { F2CRobot r(2, 4); r.setMaxCurv(0.5); r.setMaxDiffCurv(0.5); r.setCruiseVel(num("cruise", 1, 5)); if (sx_choose("turning velocity", 0, 1)) r.setTurnVel(num("turn", 0.25, 5)); steer::clothoid_hook = clothoid; return r; }
static Swath vert(const std::string& n, int k, bool down) { double y = num(n + ".y", 0, 50), e = num(n + ".end", 60, 100); LineString l; l.addPoint(10.0 * k, down ? e : y); l.addPoint(10.0 * k, down ? y : e); return Swath(l, 2.0, k); }
static LineString bentLine() { LineString l; l.addPoint(0, 0); l.addPoint(num("bend.x", 1, 5), 0); l.addPoint(l.getGeometry(1).getX(), num("bend.y", 3, 50)); return l; }
static void at(const PathState& s, const Pose& e, const char* m) { same(s.point, e.p, m); sx_assert_angle_eq(s.angle, e.a, m); }
// reads the path from state i on: the swath's pieces, each whole
static bool drivesSwath(const Path& p, size_t& i, const Swath& s, const F2CRobot& r) {
  size_t n = s.numPoints() - 1; if (p.size() < i + n) { sx_fail("a swath is left out"); return false; }
  for (size_t j = 0; j < n; j++, i++) { const PathState& t = p[i]; sx_assert(t.type == PathSectionType::SWATH, "swaths are driven in order"); same(t.point, s.getPoint(j), "swaths are driven from their start"); same(t.atEnd(), s.getPoint(j + 1), "swaths are driven to their end"); sx_assert_eq(t.velocity, r.getCruiseVel(), "swaths are driven at cruise speed"); sx_assert(t.dir == PathDirection::FORWARD, "swaths are driven forwards"); }
  return true; }
// one or more turns from pose a to pose b, each starting where the one before ends; pts: poses in between lie on these points
static bool turns(const Path& p, size_t& i, const Pose& a, const Pose& b, const F2CRobot& r, int most) {
  int n = 0; Pose cur = a; const char* m = "turns start at the pose where the piece before ends";
  while (i + 1 < p.size() && p[i].type == PathSectionType::TURN && n < most) { at(p[i], cur, m); for (int k = 0; k < 2; k++) { sx_assert(p[i + k].type == PathSectionType::TURN, "turns are marked as turns"); sx_assert_eq(p[i + k].velocity, r.getTurnVel(), "turns are driven at turning speed"); } cur = {p[i + 1].point, p[i + 1].angle}; i += 2; n++; }
  sx_assert(n > 0, "a turn joins consecutive pieces"); if (!n) return false; same(cur.p, b.p, "turns end at the pose where the next piece starts"); sx_assert_angle_eq(cur.a, b.a, "turns end at the pose where the next piece starts"); return true; }
static Pose startOf(const Swath& s) { return {s.startPoint(), s.getInAngle()}; }
static Pose endOf(const Swath& s) { return {s.endPoint(), s.getOutAngle()}; }
static bool drivesList(const Path& p, size_t& i, const Swaths& ss, const F2CRobot& r) { for (size_t k = 0; k < ss.size(); k++) { if (k && !turns(p, i, endOf(ss[k - 1]), startOf(ss[k]), r, 1)) return false; if (!drivesSwath(p, i, ss[k], r)) return false; } return true; }
SX_HARNESS(P06_swaths) { F2CRobot r = robot(); Turn t; t.setUsingCache(false); int n = sx_choose("n", 0, 3); Swaths ss; for (int k = 0; k < n; k++) ss.push_back(vert("s" + std::to_string(k), k, sx_choose(("down" + std::to_string(k)).c_str(), 0, 1))); Path p = PathPlanning::planPath(r, ss, t); size_t i = 0; if (drivesList(p, i, ss, r)) sx_assert(i == p.size(), "nothing else is driven"); }
SX_HARNESS(P06_bent) { F2CRobot r = robot(); Turn t; t.setUsingCache(false); Swaths ss; bool first = sx_choose("bent first", 0, 1); Swath b(bentLine(), 2.0, 7); Swath v = vert("s", 3, sx_choose("down", 0, 1)); ss.push_back(first ? b : v); ss.push_back(first ? v : b); Path p = PathPlanning::planPath(r, ss, t); size_t i = 0; if (drivesList(p, i, ss, r)) sx_assert(i == p.size(), "nothing else is driven"); }
static Swaths group(const std::string& n, int k0, int size) { Swaths ss; for (int k = 0; k < size; k++) ss.push_back(vert(n + std::to_string(k), k0 + k, (k0 + k) % 2)); return ss; }
static MultiPoint conn(const std::string& n, int size, double y) { MultiPoint mp; double xs[] = {-40, -40, 60, 60, 0, 0}; double ys[] = {0, 40, 40, 80, 80, 120}; for (int k = 0; k < size; k++) mp.addPoint(Point(k == 1 ? num(n + ".x", -60, -20) : xs[k], y + ys[k])); return mp; }
static double dir(const Point& a, const Point& b) { return (b - a).getAngleFromPoint(); }
static Pose before(const MultiPoint& c, const Swath& s) { return {c.getFirstPoint(), c.size() > 1 ? dir(c.getGeometry(0), c.getGeometry(1)) : dir(c.getGeometry(0), s.startPoint())}; }
static Pose after(const MultiPoint& c, const Swath& s) { size_t n = c.size(); return {c.getLastPoint(), n > 1 ? dir(c.getGeometry(n - 2), c.getGeometry(n - 1)) : dir(s.endPoint(), c.getGeometry(0))}; }
static void route(int g, int c0, int c1, int c2, int n) {
  F2CRobot r = robot(); Turn t; t.setUsingCache(false); radius = sx_choose("wide turns", 0, 1) ? 20 : 0.25; Route rt; std::vector<Swaths> gs; std::vector<MultiPoint> cs; int cn[] = {c0, c1};
  for (int k = 0; k < g; k++) { cs.push_back(conn("c" + std::to_string(k), cn[k], 200.0 * (k + 1))); gs.push_back(group("g" + std::to_string(k), 3 * k, n)); rt.addConnectedSwaths(cs[k], gs[k]); }
  if (c2 >= 0) { cs.push_back(conn("end", c2, -300)); rt.addConnection(cs.back()); }
  Path p = PathPlanning::planPath(r, rt, t); size_t i = 0;
  for (int k = 0; k < g; k++) { if (k) { if (!turns(p, i, endOf(gs[k - 1].back()), startOf(gs[k][0]), r, 9)) return; } else if (cs[0].size() > 0) { if (!turns(p, i, before(cs[0], gs[0][0]), startOf(gs[0][0]), r, 9)) return; } if (!drivesList(p, i, gs[k], r)) return; }
  if (c2 > 0 && !turns(p, i, endOf(gs.back().back()), after(cs.back(), gs.back().back()), r, 9)) return; sx_assert(i == p.size(), "nothing else is driven"); }
SX_HARNESS(P06_route_start) { int c0 = sx_choose("first", 0, 4); route(1, c0, 0, -1, 1); }
SX_HARNESS(P06_route_end) { int c2 = sx_choose("last", 0, 4); route(1, 0, 0, c2, 1); }
SX_HARNESS(P06_route_middle) { int c1 = sx_choose("middle", 0, 4); route(2, 0, c1, -1, 1); }
SX_HARNESS(P06_route_long) { int c = sx_choose("points", 5, 6); int at = sx_choose("at", 0, 2); if (at == 0) route(1, c, 0, -1, 1); if (at == 1) route(1, 0, 0, c, 1); if (at == 2) route(2, 0, c, -1, 1); }
SX_HARNESS(P06_route_groups) { int n = sx_choose("swaths", 1, 2); route(2, 2, 3, 2, n); }

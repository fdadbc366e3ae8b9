//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp types/Robot.cpp path_planning/turning_base.cpp
//@ native: model
//@ bound: sequences of two (thorough: three) requests to one planner followed by the first again, with arbitrary robots, distances, headings and discretizations
//@ assume: a planner's turn is a function of robot, distance, headings and discretization; remembered turns are shared up to a thousandth of each parameter (a millionth of the discretization), as the memory documents
#include "path_common.h"
#include "fields2cover/path_planning/turning_base.h"
using f2c::pp::TurningBase;
// the turn reports every parameter it was made for
struct Turn : TurningBase { int calls = 0; F2CPath createSimpleTurn(const F2CRobot& r, double d, double a, double b) override { calls++; double v[] = {d, a, b, r.getMaxCurv(), r.getMaxDiffCurv(), r.getTurnVel(), discretization}; Path p; for (double x : v) { PathState s; s.point = Point(3, 4); s.len = x; p.addState(s); } return p; } };
struct Req { F2CRobot r; double d, a, b, disc; };
static const char* names[] = {"the same distance", "the same start heading", "the same end heading", "the same curvature", "the same change of curvature", "the same turning velocity", "the same discretization"};
static F2CRobot robot(const std::string& n) { F2CRobot r(2, 4); r.setMaxCurv(num(n + ".curvature", 0.25, 0.5)); r.setMaxDiffCurv(num(n + ".rate", 0.25, 0.5)); r.setCruiseVel(num(n + ".cruise", 1, 2)); if (sx_choose((n + " has a turning velocity").c_str(), 0, 1)) r.setTurnVel(num(n + ".turn", 1, 2)); return r; }
static Req req(const std::string& n) { return {robot(n), num(n + ".dist", 1, 8), num(n + ".a", 0.25, 3), num(n + ".b", 0.25, 6), num(n + ".disc", 0.0625, 0.125)}; }
static double val(const Req& q, int i) { double v[] = {q.d, q.a, q.b, q.r.getMaxCurv(), q.r.getMaxDiffCurv(), q.r.getTurnVel(), q.disc}; return v[i]; }
static Path ask(Turn& t, const Req& q) { t.setDiscretization(q.disc); return t.createTurnIfNotCached(q.r, q.d, q.a, q.b); }
static void answers(const Path& p, const Req& q) { sx_assert(p.size() == 7, "the turn is whole"); for (int i = 0; i < 7; i++) { double tol = i == 6 ? 1e-6 : 1e-3; std::string m = std::string("a remembered turn is reused only for ") + names[i]; sx_assert_le(p[i].len - val(q, i), tol, m.c_str()); sx_assert_le(val(q, i) - p[i].len, tol, m.c_str()); } }
static void identical(const Path& p, const Path& q) { sx_assert(p.size() == q.size(), "the same request has the same answer"); for (size_t i = 0; i < p.size(); i++) sx_assert_eq(p[i].len, q[i].len, "the same request has the same answer"); }
SX_HARNESS(P05_reuse) { Turn t; Req a = req("a"), b = req("b"); Path p = ask(t, a); answers(p, a); Path q = ask(t, b); answers(q, b); int c = t.calls; Path r = ask(t, a); identical(p, r); identical(ask(t, b), q); sx_assert(t.calls == c, "remembered turns are not made again"); }
// requests that differ in one parameter only, by more than the resolution
SX_HARNESS(P05_one_differs) { Turn t; Req a = req("a"), b = a; int k = sx_choose("parameter", 0, 6); double x = num("other", 0.0625, 8); if (k == 0) b.d = x; if (k == 1) b.a = x; if (k == 2) b.b = x; if (k == 3) b.r.setMaxCurv(x); if (k == 4) b.r.setMaxDiffCurv(x); if (k == 5) b.r.setTurnVel(x); if (k == 6) b.disc = x; Path p = ask(t, a); answers(ask(t, b), b); identical(ask(t, a), p); if (sx_thorough()) { Req c = b; c.d = num("third", 1, 8); answers(ask(t, c), c); identical(ask(t, a), p); } }
// with the memory off every turn is fresh, and what is remembered is left alone by what callers do with it
SX_HARNESS(P05_off) { Turn t; Req a = req("a"); bool on = sx_choose("memory", 0, 1); sx_assert(t.getUsingCache(), "turns are remembered unless told otherwise"); t.setUsingCache(on); sx_assert(t.getUsingCache() == on, "the memory is switched"); Point s(0, 0), e(a.d, 0); t.setDiscretization(a.disc); sx_assert_eq(t.getDiscretization(), a.disc, "the discretization is kept"); Path p = t.createTurn(a.r, s, a.a, e, a.b); Path keep = p; p.moveTo(pnt("move")); p.setBackwardDir(); for (auto& x : p) x.len += 1; Path q = t.createTurn(a.r, s, a.a, e, a.b); identical(q, keep); sx_assert(q.size() == 7 && q[0].dir == PathDirection::FORWARD, "changing an answer does not change what is remembered"); for (int i = 0; i < 7; i++) same(q[i].point, keep[i].point, "changing an answer does not change what is remembered"); sx_assert(t.calls == (on ? 1 : 2), "the memory is used when it is on and only then"); t.setUsingCache(!on); identical(t.createTurn(a.r, s, a.a, e, a.b), keep); }
// the same turn asked from elsewhere, turned or mirrored, reuses the remembered one
SX_HARNESS(P05_elsewhere) { struct Fixed : TurningBase { int calls = 0; double u, v; F2CPath createSimpleTurn(const F2CRobot&, double d, double a, double b) override { calls++; Path p; p.addState(Point(0, 0), a, 1); p.addState(Point(u, v), 1, 1); p.addState(Point(d, 0), b, 0); return p; } } t; t.u = num("u", -9, 9); t.v = num("v", -9, 9); F2CRobot r(2, 4); double d = num("d", 0.5, 9), a = PI / 3, b = 3 * PI / 2; int k = sx_choose("quarter", 0, 3); bool mir = sx_choose("mirrored", 0, 1); Point s = pnt("s"); static const int C[] = {1, 0, -1, 0}, S[] = {0, 1, 0, -1}; Path p = t.createTurn(r, Point(0, 0), a, Point(d, 0), b); Path q = t.createTurn(r, s, k * PI / 2 + (mir ? -a : a), Point(s.getX() + d * C[k], s.getY() + d * S[k]), k * PI / 2 + (mir ? -b : b)); sx_assert(t.calls == 1, "a moved, turned or mirrored request is the same turn"); double x = q[1].point.getX() - s.getX(), y = q[1].point.getY() - s.getY(); sx_assert_eq(x * C[k] + y * S[k], t.u, "the remembered turn is moved to the request"); sx_assert_eq(y * C[k] - x * S[k], mir ? -t.v : t.v, "the remembered turn is moved to the request"); same(p[1].point, Point(t.u, t.v), "the first answer is left alone"); }

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Route.cpp objectives/rp_obj/rp_objective.cpp objectives/rp_obj/direct_dist_path_obj.cpp
//@ native: model
//@ bound: up to 3 swaths in either direction per list, the first straight or with a bend, routes of up to 3 connections of up to 2 points and 2 groups of up to 2 swaths with any piece empty; arbitrary positions; a transition cost that weighs both ends and both headings, or straight-line distance; one list of 9 swaths
#include "route_common.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/rp_obj/complete_turn_path_obj.h"
using f2c::obj::RPObjective; using f2c::obj::DirectDistPathObj;
// linear in the coordinates, different in every argument and overload
static double F(const Point& a, const Point& b) { return 3 * a.getX() - a.getY() + 7 * b.getX() + 11 * b.getY(); }
struct Lin : RPObjective { using RPObjective::computeCost; double computeCost(const Point& a, const Point& b) override { return F(a, b); } double computeCost(const Point& a, double u, const Point& b) override { return F(a, b) + u + 1; } double computeCost(const Point& a, const Point& b, double v) override { return F(a, b) + 3 * v + 2; } double computeCost(const Point& a, double u, const Point& b, double v) override { return F(a, b) + u + 3 * v + 4; } };
static double pp(const Point& a, const Point& b) { return F(a, b); }
static double ap(const Point& a, double u, const Point& b) { return F(a, b) + u + 1; }
static double pa(const Point& a, const Point& b, double v) { return F(a, b) + 3 * v + 2; }
static double aa(const Point& a, double u, const Point& b, double v) { return F(a, b) + u + 3 * v + 4; }
struct S { Point a, b; double in, out; Swath s; bool bent = false; Point mid{0, 0}; }; // a bent swath starts along x
static S swath(const std::string& n, int id) { double x = num(n + ".x"), y = num(n + ".y", 0, 50), e = num(n + ".end", 60, 100); bool down = (id + sx_choose("down", 0, 1)) % 2; Point a(x, down ? e : y), b(x, down ? y : e); double o = down ? 1.5 * PI : 0.5 * PI;
  if (id == 0 && sx_choose("bent", 0, 1)) { Point c(x - 3, a.getY()); return {c, b, 0, o, Swath(LineString({c, a, b}), 2, id), true, a}; } return {a, b, o, o, mk(a, b, 2, id)}; }
static double own(const S& s) { return s.bent ? pp(s.a, s.mid) + pp(s.mid, s.b) : pp(s.a, s.b); }
static double ss(const S& p, const S& q) { return aa(p.b, p.out, q.a, q.in); }
SX_HARNESS(O04_swaths) {
  Lin o; RPObjective& r = o; int n = sx_size("n", 0, 3, 9); std::vector<S> v; Swaths w; double t = 0; for (int i = 0; i < n; i++) { v.push_back(swath("s" + std::to_string(i), i)); w.emplace_back(v[i].s); t += own(v[i]); if (i) t += ss(v[i - 1], v[i]); } sx_assert_eq(r.computeCost(w), t, "a list of swaths costs its swaths and the transitions between them");
  Point p = pnt("p"); MultiPoint m; int k = sx_choose("points", 0, 2); std::vector<Point> ps; for (int i = 0; i < k; i++) { ps.push_back(pnt("m" + std::to_string(i))); m.addPoint(ps[i]); } sx_assert_eq(r.computeCost(m), k == 2 ? pp(ps[0], ps[1]) : 0, "points cost the way between them"); sx_assert_eq(r.computeCost(ps), k == 2 ? pp(ps[0], ps[1]) : 0, "points cost the way between them");
  if (n) { const S &a = v[0], &z = v[n - 1]; sx_assert_eq(r.computeCost(a.s), own(a), "a swath costs the way along it"); sx_assert_eq(r.computeCost(a.s, p), ap(a.b, a.out, p), "leaving a swath starts at its end with its heading"); sx_assert_eq(r.computeCost(a.s, p, 0.5), aa(a.b, a.out, p, 0.5), "leaving a swath starts at its end with its heading"); sx_assert_eq(r.computeCost(p, a.s), pa(p, a.a, a.in), "entering a swath ends at its start with its heading"); sx_assert_eq(r.computeCost(p, 0.5, a.s), aa(p, 0.5, a.a, a.in), "entering a swath ends at its start with its heading"); sx_assert_eq(r.computeCost(a.s, z.s), ss(a, z), "between swaths from end to start");
    sx_assert_eq(r.computeCost(a.s, m), k ? ap(a.b, a.out, ps[0]) : 0, "from a swath to the first point"); sx_assert_eq(r.computeCost(m, a.s), k ? pa(ps[k - 1], a.a, a.in) : 0, "from the last point to a swath"); }
  sx_assert_eq(r.computeCost(w, m), n && k ? ap(v[n - 1].b, v[n - 1].out, ps[0]) : 0, "from the last swath to the first point"); sx_assert_eq(r.computeCost(m, w), n && k ? pa(ps[k - 1], v[0].a, v[0].in) : 0, "from the last point to the first swath");
}
struct Piece { std::vector<Point> ps; std::vector<S> ss; };
static Route build(int conns, std::vector<Piece>& seq, bool most) {
  Route r; int groups = conns - sx_choose("open end", 0, 1); int id = 0; for (int i = 0; i < conns; i++) { int k = sx_choose("points", 0, most ? 2 : 1); MultiPoint m; Piece c; for (int j = 0; j < k; j++) { c.ps.push_back(pnt("c" + std::to_string(i) + std::to_string(j))); m.addPoint(c.ps[j]); } r.addConnection(m); if (k) seq.push_back(c);
    if (i < groups) { int n = sx_choose("swaths", 0, i == 0 && most ? 2 : 1); Piece g; Swaths s; for (int j = 0; j < n; j++) { std::string nm = "s" + std::to_string(id); double x = num(nm + ".x"), y = num(nm + ".y", 0, 50), e = num(nm + ".end", 60, 100); bool down = id++ % 2; Point a(x, down ? e : y), b(x, down ? y : e); g.ss.push_back({a, b, down ? 1.5 * PI : 0.5 * PI, down ? 1.5 * PI : 0.5 * PI, mk(a, b, 2, id)}); s.emplace_back(g.ss[j].s); } r.addSwaths(s); if (n) seq.push_back(g); } }
  return r;
}
SX_HARNESS(O04_route) {
  std::vector<Piece> q; Route r = build(sx_choose("connections", 1, 3), q, true); Lin o; double t = 0; for (size_t i = 0; i < q.size(); i++) { auto& p = q[i]; for (size_t k = 1; k < p.ps.size(); k++) t += pp(p.ps[k - 1], p.ps[k]); for (size_t k = 0; k < p.ss.size(); k++) { t += own(p.ss[k]); if (k) t += ss(p.ss[k - 1], p.ss[k]); }
    if (i) { auto& z = q[i - 1]; if (p.ss.empty()) t += z.ss.empty() ? pp(z.ps.back(), p.ps[0]) : ap(z.ss.back().b, z.ss.back().out, p.ps[0]); else t += z.ss.empty() ? pa(z.ps.back(), p.ss[0].a, p.ss[0].in) : ss(z.ss.back(), p.ss[0]); } }
  sx_assert_eq(static_cast<RPObjective&>(o).computeCost(r), t, "a route costs its pieces and the links between them"); sx_assert_eq(o.computeCostWithMinimizingSign(r), t, "a cost keeps its sign");
}
SX_HARNESS(O04_length) { // straight-line distance: the cost is the travelled length
  std::vector<Piece> q; Route r = build(sx_choose("connections", 1, 2), q, false); DirectDistPathObj o; RPObjective& b = o; std::vector<Point> line; for (auto& p : q) { for (auto& x : p.ps) line.push_back(x); for (auto& s : p.ss) { line.push_back(s.a); line.push_back(s.b); } } double t = 0; for (size_t i = 1; i < line.size(); i++) t += line[i - 1].distance(line[i]); double c = b.computeCost(r); sx_assert_eq(c, t, "with straight-line distance a route costs its travelled length"); sx_assert_eq(c, r.length(), "with straight-line distance a route costs its travelled length");
}
SX_HARNESS(O04_turns) { // transition cost: length of the turn a planner makes
  struct T : f2c::pp::TurningBase { F2CPath createSimpleTurn(const F2CRobot& r, double d, double a, double b) override { F2CPath p; F2CPathState s; s.point = F2CPoint(0, 0); s.angle = a; s.len = d + r.getMinTurningRadius(); p.addState(s); F2CPathState e; e.point = F2CPoint(d, 0); e.angle = b; p.addState(e); return p; } }; F2CRobot rob(2, 4); rob.setMinTurningRadius(num("radius", 2.5, 4)); T tp; tp.setUsingCache(false); f2c::obj::CompleteTurnPathObj<T> o(rob, tp), o2(rob); RPObjective& r = sx_choose("ctor", 0, 1) ? o : o2; Point a(0, 0), b(num("b.x", 3, 9), 0); double want = b.getX() + rob.getMinTurningRadius(); sx_assert_eq(r.computeCost(a, 0.5 * PI, b, 1.5 * PI), want, "a transition costs the length of its turn"); Swaths s; s.emplace_back(mk(Point(0, -9), a, 2, 0)); s.emplace_back(mk(b, Point(b.getX(), -5), 2, 1)); sx_assert_eq(r.computeCost(s), 14 + want, "a list of swaths costs its swaths and the turns between them"); rob.setMinTurningRadius(2); (&r == &o ? o : o2).setRobot(rob); sx_assert_eq(r.computeCost(a, 0.5 * PI, b, 1.5 * PI), b.getX() + rob.getMinTurningRadius(), "turns are made for the robot set last");
}

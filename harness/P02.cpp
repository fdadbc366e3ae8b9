//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp
//@ native: model
//@ bound: paths of up to 4 (thorough: 6) states with arbitrary positions, headings, lengths, velocities and directions; arbitrary travelled distances, also before the start and beyond the end; one larger path of 8 states
//@ assume: state lengths are not negative and velocities are positive
#include "path_common.h"
static Path make(std::vector<St>& r, int most, const std::string& pre = "s", int least = 0) { Path p; int n = sx_choose(pre.c_str(), least, most); for (int i = 0; i < n; i++) p.addState(state(pre + std::to_string(i), &r)); return p; }
static double total(const std::vector<St>& r) { double l = 0; for (auto& s : r) l += s.len; return l; }
static double duration(const std::vector<St>& r) { double l = 0; for (auto& s : r) l += s.len / s.vel; return l; }
static void holds(const Path& p, const std::vector<St>& r, const char* m) { sx_assert(p.size() == r.size(), m); for (size_t i = 0; i < r.size(); i++) sameState(p[i], r[i], m); }
SX_HARNESS(P02_sums) { std::vector<St> a, b; Path p = make(a, 3, "s"), q = make(b, 2, "t"); sx_assert_eq(p.length(), total(a), "the length is the sum of the state lengths"); sx_assert_eq(p.getTaskTime(), duration(a), "the duration is the sum of length over velocity"); double lp = p.length(), lq = q.length(); Path s = p; s += q; std::vector<St> ab = a; ab.insert(ab.end(), b.begin(), b.end()); holds(s, ab, "appending a path keeps the states of both in order"); sx_assert_eq(s.length(), lp + lq, "lengths add up"); sx_assert_eq(s.getTaskTime(), duration(a) + duration(b), "durations add up"); holds(p, a, "copies are independent"); holds(q, b, "the appended path is left alone"); }
SX_HARNESS(P02_append_self) { std::vector<St> a; Path p = make(a, 4); p += p; std::vector<St> t = a; t.insert(t.end(), a.begin(), a.end()); holds(p, t, "a path appended to itself is driven twice"); }
SX_HARNESS(P02_at) {
  std::vector<St> r; Path p; int n = sx_size("n", 1, sx_thorough() ? 6 : 4, 8); for (int i = 0; i < n; i++) p.addState(state("s" + std::to_string(i), &r)); double L = total(r), d = num("distance", -10, 130); PathState q = p.at(d); double t = d < 0 ? 0 : d > L ? L : d; size_t i = 0; double before = 0; while (i + 1 < r.size() && before + r[i].len < t) before += r[i++].len; double off = (t - before) * r[i].dir;
  sx_assert_eq(q.point.getX(), r[i].x + off * std::cos(r[i].ang), "the position lies on the piece reached, at the distance left"); sx_assert_eq(q.point.getY(), r[i].y + off * std::sin(r[i].ang), "the position lies on the piece reached, at the distance left"); sx_assert_eq(q.velocity, r[i].vel, "velocity, direction and type are those of the piece"); sx_assert((int)q.dir == r[i].dir && (int)q.type == r[i].type, "velocity, direction and type are those of the piece"); sx_assert_eq(q.angle, r[i].ang, "velocity, direction and type are those of the piece");
}
SX_HARNESS(P02_ends) { std::vector<St> r; Path p = make(r, 3, "s", 1); Point a = p.atStart(), e = p.atEnd(); samePos(p[0], r[0], "the path starts at its first state"); sx_assert_eq(a.getX(), r[0].x, "the path starts at its first state"); sx_assert_eq(a.getY(), r[0].y, "the path starts at its first state"); const St& z = r.back(); sx_assert_eq(e.getX(), z.x + z.dir * z.len * std::cos(z.ang), "the path ends where its last piece ends"); sx_assert_eq(e.getY(), z.y + z.dir * z.len * std::sin(z.ang), "the path ends where its last piece ends"); auto l = p.toLineString(); sx_assert(l.size() == r.size() + 1, "the line of a path has its states and its end"); same(l.getGeometry(r.size()), Point(e.getX(), e.getY(), e.getZ()), "the line of a path has its states and its end"); for (size_t i = 0; i < r.size(); i++) { sx_assert_eq(l.getX(i), r[i].x, "the line of a path has its states"); sx_assert_eq(l.getY(i), r[i].y, "the line of a path has its states"); }
  double x0 = p.getDimMinX(), x1 = p.getDimMaxX(), y0 = p.getDimMinY(), y1 = p.getDimMaxY(); bool h[4] = {}; for (auto& s : r) { sx_assert_le(x0, s.x, "the bounds hold every state"); sx_assert_le(s.x, x1, "the bounds hold every state"); sx_assert_le(y0, s.y, "the bounds hold every state"); sx_assert_le(s.y, y1, "the bounds hold every state"); h[0] |= x0 == s.x; h[1] |= x1 == s.x; h[2] |= y0 == s.y; h[3] |= y1 == s.y; } sx_assert(h[0] && h[1] && h[2] && h[3], "the bounds are reached"); }
SX_HARNESS(P02_end_by_rounding) { // doubles whose sum is rounded: the end of the path is still its end
  Path p; int k = sx_choose("case", 0, 3); static const double L[4][4] = {{0.1, 0.2, 0.3, 0.7}, {0.7, 0.1, 0.3, 0.1}, {1.1, 2.2, 3.3, 0.1}, {0.3, 0.6, 0.9, 0.2}}; double x = 0; for (int i = 0; i < 4; i++) { p.addState(Point(5 + x, 7), 0.0, L[k][i]); x += L[k][i]; } PathState e = p.at(p.length()), f = p.at(1e6); sx_assert(std::fabs(e.point.getX() - 5 - x) < 1e-9 && e.point.getY() == 7, "the end of the path is its last point"); sx_assert(std::fabs(f.point.getX() - 5 - x) < 1e-9 && f.point.getY() == 7, "beyond the end the path stays at its last point"); }
SX_HARNESS(P02_empty) { Path p; sx_assert_eq(p.length(), 0, "an empty path has no length"); sx_assert_eq(p.getTaskTime(), 0, "an empty path takes no time"); sx_assert(p.toLineString().size() == 0, "an empty path has no line"); Path q = p; q += p; sx_assert(q.size() == 0, "nothing appended to nothing"); q.discretize(num("step", 0.1, 5)); sx_assert(q.size() == 0 && p.discretizeSwath(num("step2", 0.1, 5)).size() == 0, "an empty path stays empty"); PathState s = p.at(num("d")); sx_assert_eq(s.len, 0, "an empty path has no pieces"); }
SX_HARNESS(P02_access) { std::vector<St> r; Path p = make(r, 3, "s", 1); int k = sx_choose("index", 0, (int)r.size() - 1); std::vector<St> x; PathState s = state("new", &x); Path a = p, b = p, c; a.setState(k, s); auto w = r; w[k] = x[0]; holds(a, w, "a state is replaced in place"); b[k] = s; holds(b, w, "a state is replaced in place"); c.setStates(p.getStates()); holds(c, r, "states are copied"); c.addState(s.point, s.angle, s.len, s.dir, s.type, s.velocity); w = r; w.push_back(x[0]); holds(c, w, "a state is added at the end"); sameState(c.back(), x[0], "the last state is the last one added"); sameState(c.getState(k), r[k], "states are found by index"); int cnt = 0; for (auto&& q : p) { sameState(q, r[cnt], "states are visited in order"); cnt++; } sx_assert(cnt == (int)r.size(), "states are visited in order"); c.setTurnType(); c.setForwardDir(); holds(p, r, "copies are independent"); }

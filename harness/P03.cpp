//@ src: types/Point.cpp types/LineString.cpp types/MultiPoint.cpp types/Swath.cpp types/Path.cpp types/PathState.cpp utils/spline.cpp
//@ native: model
//@ bound: swaths of up to 4 points, paths of up to 3 states, up to 6 pieces per swath state; resampling of straight paths of up to 3 states into up to 6 samples and merging of up to 4 states; arbitrary positions, lengths, velocities and steps
//@ assume: resampled paths are straight lines (elsewhere the spline of U04 decides the shape), their states meet end to start, and lengths are positive
#include "path_common.h"
SX_HARNESS(P03_append_swath) {
  std::vector<St> r; Path p; int pre = sx_choose("before", 0, 1); if (pre) p.addState(state("s", &r)); int n = sx_choose("points", 0, sx_thorough() ? 4 : 3); std::vector<Point> v; LineString l; for (int i = 0; i < n; i++) { v.push_back(pnt("p" + std::to_string(i))); l.addPoint(v[i]); if (i) sx_assume(d2(v[i], v[i - 1]) > 0.01); } double vel = num("speed", 0.5, 9); Swath s(l, 2, 7); p.appendSwath(s, vel);
  size_t add = n > 1 ? n - 1 : 0; sx_assert(p.size() == pre + add, "one state per segment of the swath"); if (pre) sameState(p[0], r[0], "the states before are left alone"); double sum = 0;
  for (size_t i = 0; i < add; i++) { auto& q = p[pre + i]; double dx = v[i + 1].getX() - v[i].getX(), dy = v[i + 1].getY() - v[i].getY(); same(q.point, v[i], "states start at the points of the swath"); sx_assert_eq(q.len * q.len, dx * dx + dy * dy, "a state is as long as its segment"); sx_assert_le(0, q.len, "a state is as long as its segment"); sx_assert_eq(q.len * std::cos(q.angle), dx, "states head along the swath"); sx_assert_eq(q.len * std::sin(q.angle), dy, "states head along the swath"); sx_assert_eq(q.velocity, vel, "swaths are driven at the requested velocity"); sx_assert(q.dir == PathDirection::FORWARD && q.type == PathSectionType::SWATH, "swaths are driven forwards and marked as swaths"); sum += q.len; same(q.atEnd(), v[i + 1], "states end where the next begins"); }
  if (add) { sx_assert_eq(sum, s.length(), "the states add up to the length of the swath"); same(p.atEnd(), v[n - 1], "the path ends at the end of the swath"); }
}
SX_HARNESS(P03_discretize_swath) {
  std::vector<St> r; Path p; int n = sx_choose("n", 0, 2); for (int i = 0; i < n; i++) { p.addState(state("s" + std::to_string(i), &r)); sx_assume(r[i].len <= 12); } double step = num("step", 2, 8); Path q = p.discretizeSwath(step); size_t k = 0;
  for (auto& s : r) { if (s.type != 1) { sx_assert(k < q.size(), "other sections are kept"); sameState(q[k++], s, "other sections are kept"); continue; } double m = std::fmax(1.0, std::round(s.len / step)), piece = s.len / m; for (int j = 0; j < (int)m; j++) { sx_assert(k < q.size(), "a swath is cut in the nearest number of equal pieces"); auto& t = q[k++]; double d = piece * j * s.dir; sx_assert_eq(t.len, piece, "a swath is cut in the nearest number of equal pieces"); sx_assert_eq(t.point.getX(), s.x + d * std::cos(s.ang), "pieces lie on the swath in order"); sx_assert_eq(t.point.getY(), s.y + d * std::sin(s.ang), "pieces lie on the swath in order"); sx_assert_eq(t.angle, s.ang, "pieces keep heading, velocity, direction and type"); sx_assert_eq(t.velocity, s.vel, "pieces keep heading, velocity, direction and type"); sx_assert((int)t.dir == s.dir && (int)t.type == s.type, "pieces keep heading, velocity, direction and type"); } if (m > 1) sx_assert_le(piece, 1.5 * step, "pieces are about as long as requested"); }
  sx_assert(k == q.size(), "nothing else is added"); double a = 0; for (auto& s : r) a += s.len; sx_assert_eq(q.length(), a, "the length is kept"); sx_assert_eq(q.getTaskTime(), p.getTaskTime(), "the duration is kept");
}
// states along a straight line in x, each ending where the next begins; the last may have no length
static Path straight(std::vector<St>& r, int n, bool closing, bool sameKind) { Path p; double x = num("x0"), y = num("y0"); int kind = sx_choose("back", 0, 1) ? -1 : 1; for (int i = 0; i < n; i++) { PathState s; std::string nm = "s" + std::to_string(i); s.point = Point(x, y); s.angle = 0; s.len = closing && i + 1 == n ? 0 : num(nm + ".len", 0.5, 4); s.velocity = num(nm + ".vel", 0.5, 9); s.dir = kind > 0 ? PathDirection::FORWARD : PathDirection::BACKWARD; s.type = sameKind ? PathSectionType::TURN : (PathSectionType)sx_choose("type", 1, 2); r.push_back({x, y, 0, 0, s.len, s.velocity, kind, (int)s.type}); x += kind * s.len; p.addState(s); } return p; }
static double total(const std::vector<St>& r) { double l = 0; for (auto& s : r) l += s.len; return l; }
SX_HARNESS(P03_populate) {
  std::vector<St> r; bool closing = sx_choose("closing", 0, 1); int n = sx_choose("n", 1, closing ? 4 : 3); Path p = straight(r, n, closing, true); int k = sx_choose("samples", 2, sx_thorough() ? 6 : 4); p.populate(k); if (n < 3) { sx_assert((int)p.size() == n, "a path of less than three states is left alone"); for (int i = 0; i < n; i++) sameState(p[i], r[i], "a path of less than three states is left alone"); return; }
  double L = total(r); sx_assert((int)p.size() == k, "as many samples as requested"); for (int i = 0; i < k; i++) { double t = L / k * i; sx_assert_eq(p[i].len, L / k, "samples are evenly spaced"); sx_assert_eq(p[i].point.getX(), r[0].x + r[0].dir * t, "samples of a straight path lie on it"); sx_assert_eq(p[i].point.getY(), r[0].y, "samples of a straight path lie on it"); sx_assert_eq(p[i].angle, 0, "samples of a straight path keep its heading"); }
  sx_assert_eq(p.length(), L, "the length is kept"); same(p.atEnd(), Point(r[0].x + r[0].dir * L, r[0].y), "the last point is kept");
}
// velocity, direction and type of every sample are those of the state it falls on
SX_HARNESS(P03_populate_kinds) { Path p; double e = 0; std::vector<double> at; int n = 3; for (int i = 0; i < n; i++) { PathState s; s.point = Point(e, 0); s.angle = 0; s.len = num("len" + std::to_string(i), 0.5, 4); s.velocity = 1 + i; s.dir = PathDirection::FORWARD; s.type = (PathSectionType)(1 + i); p.addState(s); e += s.len; at.push_back(e); } int k = sx_choose("samples", 2, sx_thorough() ? 8 : 5); p.populate(k); for (int i = 0; i < k; i++) { double t = e / k * i; int b = 0; while (b < 2 && at[b] <= t - 1e-9) b++; int c = 0; while (c < 2 && at[c] <= t + 1e-9) c++; int got = (int)p[i].type - 1; sx_assert(got == b || got == c, "a sample takes the section type of the state it falls on"); sx_assert_eq(p[i].velocity, 1 + got, "a sample takes the velocity of the state it falls on"); } }
SX_HARNESS(P03_reduce) {
  Path p; std::vector<St> r; int n = sx_choose("n", 0, 4); double x = 0; for (int i = 0; i < n; i++) { PathState s; std::string nm = "s" + std::to_string(i); s.point = Point(x, 3); s.angle = num(nm + ".ang", 0, 6); s.len = num(nm + ".len", 0, 2); s.velocity = num(nm + ".vel", 0.5, 9); s.dir = sx_choose("back", 0, 1) ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = i < 2 ? PathSectionType::TURN : PathSectionType::SWATH; p.addState(s); r.push_back({x, 3, 0, s.angle, s.len, s.velocity, (int)s.dir, (int)s.type}); x += num(nm + ".gap", 0, 2); } double m = num("distance", 0.1, 3); p.reduce(m);
  size_t i = 0, k = 0; while (i < r.size()) { St s = r[i]; size_t j = i + 1; while (j < r.size() && r[j].dir == s.dir && r[j].type == s.type && r[j].x - s.x < m) s.len += r[j++].len; sx_assert(k < p.size(), "states nearer than the distance are merged"); sameState(p[k++], s, "a merged state starts at the first and is as long as all"); i = j; } sx_assert(k == p.size(), "states nearer than the distance are merged"); double L = total(r); sx_assert_eq(p.length(), L, "the length is kept"); for (size_t a = 1; a < p.size(); a++) if (p[a].dir == p[a - 1].dir && p[a].type == p[a - 1].type) sx_assert_le(m, p[a].point.getX() - p[a - 1].point.getX(), "remaining states of a section are apart"); 
}
SX_HARNESS(P03_discretize) { // a straight path resampled and merged: nothing is lost
  std::vector<St> r; int n = sx_choose("n", 1, 3); Path p = straight(r, n, false, true); double L = total(r), step = L * (sx_choose("ratio", 1, sx_thorough() ? 4 : 2) * 4 + 1); p.discretize(step); sx_assert(p.size() >= 1, "a path is never erased"); same(p[0].point, Point(r[0].x, r[0].y), "the first point is kept"); sx_assert_eq(p.length(), L, "the length is kept"); same(p.atEnd(), Point(r[0].x + r[0].dir * L, r[0].y), "the last point is kept"); for (auto& s : p) sx_assert((int)s.dir == r[0].dir && s.type == PathSectionType::TURN, "direction and type are kept");
}

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Field.cpp types/Strip.cpp types/Route.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Path.cpp types/PathState.cpp utils/transformation.cpp
//@ native: model
//@ bound: swaths of 2 or 3 points, groups of 2, routes of 2 groups and 2 or 3 connections, paths of up to 3 states, fields of up to 2 polygons; arbitrary coordinates, reference points and attributes
//@ assume: the coordinate transformation itself (PROJ) is a stub: an uninterpreted function of the coordinates and the two systems, for routes a quadratic one, or an invertible affine map for the round trips; path states are distinct points
#include "swath_common.h"
#include "fields2cover/utils/transformation.h"
#include "ogr_model.h"
using f2c::types::Field; using f2c::Transform; using f2c::types::Route; using f2c::types::Path; using f2c::types::PathState; using f2c::types::Strip; using f2c::types::PathDirection; using f2c::types::PathSectionType;
using T3 = std::vector<double>; using V = std::vector<T3>;
static const char *A = "EPSG:25831", *B = "EPSG:4326";
static bool affine = false, quadratic = false;
static void mapd(const std::string& a, const std::string& b, double* x, double* y) {
  double u = *x, v = *y;
  if (quadratic) { double k = a == A && b == B ? 2 : a == B && b == A ? 5 : 7; *x = k * u - 3 * v + u * v; *y = u * u + k * v; return; }
  if (affine) { if (a == A && b == B) { *x = -v + 10; *y = u + 3; } else if (a == B && b == A) { *x = v - 3; *y = 10 - u; } else if (a != b) { *x = u + 1000; } }
  else if (a == A && b == B) { *x = sx_ufun("fx", 2, u, v); *y = sx_ufun("fy", 2, u, v); } else if (a == B && b == A) { *x = sx_ufun("gx", 2, u, v); *y = sx_ufun("gy", 2, u, v); } else { *x = sx_ufun("hx", 2, u, v); *y = sx_ufun("hy", 2, u, v); }
}
static void ct(const std::string& a, const std::string& b, double* x, double* y, double*) { mapd(a, b, x, y); }
static Point mp(const Point& p, const char* a = A, const char* b = B) { double x = p.getX(), y = p.getY(); mapd(a, b, &x, &y); return Point(x, y, p.getZ()); }
static void flat(const Point& p, V& v) { v.push_back({p.getX(), p.getY(), p.getZ()}); }
template <class G> static void flat(const G& g, V& v) { for (size_t i = 0; i < g.size(); i++) flat(g.at(i), v); }
template <class G> static V all(const G& g) { V v; flat(g, v); return v; }
static void eq(const V& a, const V& b, const char* m) { sx_assert(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); i++) for (int k = 0; k < 3; k++) sx_assert_eq(a[i][k], b[i][k], m); }
static V mapped(const V& v, const Point& r, const char* a = A, const char* b = B) { V o; for (auto& p : v) { Point q = mp(Point(p[0] + r.getX(), p[1] + r.getY(), p[2] + r.getZ()), a, b); o.push_back({q.getX(), q.getY(), q.getZ()}); } return o; }
static const Point O(0, 0, 0);
static Field field() { Field f; f.setRefPoint(pnt("ref")); f.setCRS(A); f.setPrevCRS(B); return f; }
static Swath fixedSwath(const std::string& n) { LineString l; for (int i = 0; i < 2; i++) l.addPoint(pnt(n + ".p" + std::to_string(i))); Swath s(l, num(n + ".w", 0.5, 9), n[1] - '0' + 3, n[0] == 'a' ? SwathType::HEADLAND : SwathType::MAINLAND); s.setCreationDir(n[0] == 'b'); return s; }
static Swath swath(const std::string& n, int pts = 2) { LineString l; for (int i = 0; i < pts; i++) l.addPoint(pnt(n + ".p" + std::to_string(i))); Swath s(l, num(n + ".w", 0.5, 9), sx_int((n + ".id").c_str(), 0, 50), sx_bool((n + ".headland").c_str()) ? SwathType::HEADLAND : SwathType::MAINLAND); s.setCreationDir(sx_bool((n + ".dir").c_str())); return s; }
static void swathEq(const Swath& a, const Swath& b, const Point& r, const char* x = A, const char* y = B) { eq(all(b.getPath()), mapped(all(a.getPath()), r, x, y), "every point of a swath goes through the transformation"); sx_assert(a.getId() == b.getId(), "a transformed swath keeps its id"); sx_assert_eq(a.getWidth(), b.getWidth(), "a transformed swath keeps its width"); sx_assert(a.getType() == b.getType(), "a transformed swath keeps its type"); sx_assert(a.getCreationDir() == b.getCreationDir(), "a transformed swath keeps its creation direction"); }
SX_HARNESS(T01_swath) { mdl::hooks.ctmap = ct; Swath s = swath("s", sx_choose("points", 2, 3)); Swath k = s.clone(); int how = sx_choose("how", 0, 2); Field f = field(); if (how == 0) swathEq(k, Transform::transformSwath(s, A, B), O); else if (how == 1) swathEq(k, Transform::transformSwathWithFieldRef(s, f, B), f.getRefPoint()); else swathEq(k, Transform::transformToPrevCRS(s, f), f.getRefPoint()); eq(all(s.getPath()), all(k.getPath()), "the source swath is left alone"); }
SX_HARNESS(T01_swaths) { mdl::hooks.ctmap = ct; Swaths s; int n = sx_choose("n", 0, 2); for (int i = 0; i < n; i++) s.emplace_back(swath("s" + std::to_string(i))); int how = sx_choose("how", 0, 2); Field f = field(); Swaths o = how == 0 ? Transform::transformSwaths(s, A, B) : how == 1 ? Transform::transformSwathsWithFieldRef(s, f, B) : Transform::transformToPrevCRS(s, f); sx_assert(o.size() == s.size(), "the number of swaths is kept"); for (int i = 0; i < n; i++) swathEq(s[i], o[i], how == 0 ? O : f.getRefPoint()); }
static Route route(int conns, bool grp) { Route r; Swaths a, b; a.emplace_back(fixedSwath("a0")); if (grp) a.emplace_back(fixedSwath("a1")); b.emplace_back(fixedSwath("b0")); r.addConnection(); r.addSwaths(a); r.addConnection(std::vector<Point>{pnt("c1")}); r.addSwaths(b); if (conns > 2) r.addConnection(std::vector<Point>{pnt("c2"), pnt("c3")}); return r; }
SX_HARNESS(T01_route) { mdl::hooks.ctmap = ct; quadratic = true; int conns = sx_choose("connections", 2, 3); Route r = route(conns, sx_choose("pair", 0, 1)); Field f = field(); Route o = sx_choose("prev", 0, 1) ? Transform::transformToPrevCRS(r, f) : Transform::transformRouteWithFieldRef(r, f, B); 
  sx_assert(o.sizeVectorSwaths() == r.sizeVectorSwaths() && o.sizeConnections() == r.sizeConnections(), "the pieces of a route are kept"); for (size_t i = 0; i < r.sizeVectorSwaths(); i++) { sx_assert(o.getSwaths(i).size() == r.getSwaths(i).size(), "the groups of a route are kept"); for (size_t k = 0; k < r.getSwaths(i).size(); k++) swathEq(r.getSwaths(i).at(k), o.getSwaths(i).at(k), f.getRefPoint()); } for (size_t i = 0; i < r.sizeConnections(); i++) eq(all(o.getConnection(i)), mapped(all(r.getConnection(i)), f.getRefPoint()), "every point of a connection goes through the transformation"); }
SX_HARNESS(T01_multipoint) { mdl::hooks.ctmap = ct; MultiPoint m; int n = sx_choose("n", 0, 3); for (int i = 0; i < n; i++) m.addPoint(pnt3("p" + std::to_string(i))); Field f = field(); eq(all(Transform::transformMultiPointWithFieldRef(m, f, B)), mapped(all(m), f.getRefPoint()), "every point goes through the transformation"); eq(all(Transform::transform(m, A, B)), mapped(all(m), O), "every point goes through the transformation"); eq(all(Transform::transform(m, f.getRefPoint(), A, B)), mapped(all(m), f.getRefPoint()), "every point goes through the transformation"); }
static PathState state(const std::string& n, bool ends) { PathState s; s.point = pnt(n); s.angle = sx_angle((n + ".ang").c_str(), 0, 2 * PI); s.len = ends ? 0 : num(n + ".len", 0, 9); s.velocity = num(n + ".vel", 0.1, 9); s.dir = sx_bool((n + ".back").c_str()) ? PathDirection::BACKWARD : PathDirection::FORWARD; s.type = (PathSectionType)sx_int((n + ".type").c_str(), 1, 3); return s; }
SX_HARNESS(T01_path) { mdl::hooks.ctmap = ct; Path p; int n = sx_choose("n", 0, 2); for (int i = 0; i < n; i++) p.addState(state("s" + std::to_string(i), false)); Path o = Transform::transformPath(p, A, B); sx_assert(o.size() == p.size(), "the number of states is kept"); for (int i = 0; i < n; i++) { same(o[i].point, mp(p[i].point), "every state goes through the transformation"); sx_assert_eq(o[i].velocity, p[i].velocity, "velocities are kept"); sx_assert(o[i].dir == p[i].dir && o[i].type == p[i].type, "directions and types are kept"); } }
SX_HARNESS(T01_path_ref) { mdl::hooks.ctmap = ct; affine = true; Path p; int n = sx_choose("n", 0, sx_thorough() ? 3 : 2); for (int i = 0; i < n; i++) p.addState(state("s" + std::to_string(i), i + 1 == n)); for (int i = 0; i + 1 < n; i++) sx_assume(d2(p[i].point, p[i + 1].point) > 0.01); Field f = field(); Path o = sx_choose("prev", 0, 1) ? Transform::transformToPrevCRS(p, f) : Transform::transformPathWithFieldRef(p, f, B); sx_assert(o.size() == p.size(), "the number of states is kept");
  for (int i = 0; i < n; i++) { same(o[i].point, mp(p[i].point + f.getRefPoint()), "every state goes through the transformation"); sx_assert_eq(o[i].velocity, p[i].velocity, "velocities are kept"); sx_assert(o[i].dir == p[i].dir && o[i].type == p[i].type, "directions and types are kept"); }
  for (int i = 0; i + 1 < n; i++) { sx_assert_eq(o[i].len * o[i].len, d2(o[i].point, o[i + 1].point), "a state's length is the distance to the next"); sx_assert(o[i].len >= 0, "lengths are not negative"); 
    double dx = o[i + 1].point.getX() - o[i].point.getX(), dy = o[i + 1].point.getY() - o[i].point.getY(), s = o[i].dir == PathDirection::BACKWARD ? -1 : 1; sx_assert_eq(std::cos(o[i].angle) * o[i].len, s * dx, "the heading points along the motion, or against it backwards"); sx_assert_eq(std::sin(o[i].angle) * o[i].len, s * dy, "the heading points along the motion, or against it backwards"); } }
SX_HARNESS(T01_path_end) { mdl::hooks.ctmap = ct; affine = true; Path p; PathState s; s.point = pnt("p"); s.angle = 0; s.len = num("len", 0.1, 9); s.dir = sx_choose("back", 0, 1) ? PathDirection::BACKWARD : PathDirection::FORWARD; s.velocity = num("vel", 0.1, 9); p.addState(s); Field f = field(); Path o = Transform::transformPathWithFieldRef(p, f, B); sx_assert(o.size() == 2, "an open last piece is closed by one state"); Point e(s.point.getX() + (s.dir == PathDirection::BACKWARD ? -s.len : s.len), s.point.getY()); same(o[1].point, mp(e + f.getRefPoint()), "the closing state is the end of the path"); sx_assert_eq(o[0].len, s.len, "the piece keeps its length under a rigid map"); sx_assert_eq(o[1].len, 0, "nothing follows the end"); sx_assert_eq(o[1].velocity, s.velocity, "velocities are kept"); sx_assert(o[0].dir == s.dir, "directions are kept"); }
static LinearRing ring(const Point& a, double w) { return LinearRing({a, a + Point(w, 0), a + Point(0, w), a}); }
static Cells shape(int n) { Cells cs; if (n >= 1) { Point a = pnt("a"); Cell c(ring(a, 8)); if (sx_choose("hole", 0, 1)) c.addRing(ring(a + Point(1, 1), 2)); cs.addGeometry(c); } if (n >= 2) cs.addGeometry(Cell(ring(pnt("b"), 3))); return cs; }
SX_HARNESS(T01_field) { mdl::hooks.ctmap = ct; int n = sx_choose("cells", 0, 2); Cells cs = shape(n); Field f(cs, "id"); if (n == 0) f.setRefPoint(pnt("r")); Point r = f.getRefPoint(); f.setCRS(A); f.setPrevCRS("none"); V v = all(cs); Transform::transform(f, B); sx_assert(f.getCRS() == B && f.getPrevCRS() == A, "the field remembers both systems"); sx_assert(f.getId() == "id", "the id is kept"); eq(all(f.getCellsAbsPosition()), mapped(v, O), "every vertex of a field goes through the transformation"); if (n == 0) same(f.getRefPoint(), mp(r), "an empty field moves its reference point"); else { V w = mapped(v, O); same(f.getRefPoint(), Point(w[0][0], w[0][1], w[0][2]), "the reference point is the first vertex"); } }
SX_HARNESS(T01_field_there_and_back) { mdl::hooks.ctmap = ct; affine = true; int n = sx_choose("cells", 0, 2); Cells cs = shape(n); Field f(cs, "id"); if (n == 0) f.setRefPoint(pnt("r")); Point r = f.getRefPoint(); f.setCRS(A); V v = all(cs); Transform::transform(f, B); Transform::transformToPrevCRS(f); sx_assert(f.getCRS() == A && f.getPrevCRS() == B, "going back swaps the systems"); eq(all(f.getCellsAbsPosition()), v, "going there and back restores the field"); same(f.getRefPoint(), r, "going there and back restores the reference point"); Field g; bool t = false; try { Transform::transformToPrevCRS(g); } catch (const std::invalid_argument&) { t = true; } sx_assert(t, "a field without previous system is rejected"); }
SX_HARNESS(T01_strip) { mdl::hooks.ctmap = ct; int n = sx_choose("n", 0, 2); std::vector<Strip> s(n); for (int i = 0; i < n; i++) { s[i].setName("n" + std::to_string(i)); s[i].setCell(Cell(ring(pnt("a" + std::to_string(i)), 3))); } Field f = field(); auto o = sx_choose("prev", 0, 1) ? Transform::transformToPrevCRS(s, f) : Transform::transformStrips(s, A, B); sx_assert((int)o.size() == n, "the number of strips is kept"); for (int i = 0; i < n; i++) { sx_assert(o[i].getName() == s[i].getName(), "names are kept"); eq(all(o[i].getCell()), mapped(all(s[i].getCell()), O), "every vertex goes through the transformation"); auto q = Transform::transformToPrevCRS(s[i], f); eq(all(q.getCell()), all(o[i].getCell()), "one strip is transformed alike"); } }
SX_HARNESS(T01_gps) { mdl::hooks.ctmap = ct; Field f = field(); Point r = f.getRefPoint(); same(Transform::getRefPointInGPS(f), mp(r), "the reference point is transformed to longitude and latitude"); same(f.getRefPoint(), r, "asking leaves the field alone"); same(Transform::transform(r, A, B), mp(r), "a point is transformed"); }

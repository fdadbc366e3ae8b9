//@ src: types/Swath.cpp types/Swaths.cpp types/LineString.cpp types/Point.cpp route_planning/boustrophedon_order.cpp route_planning/snake_order.cpp route_planning/spiral_order.cpp route_planning/custom_order.cpp route_planning/single_cell_swaths_order_base.cpp
//@ native: gdal
//@ bound: two swaths, straight or bent, one with any chord and the other along one of 24 directions; 1 to 9 parallel swaths drawn in any direction, reversed or not before ordering, along x, y or an oblique direction; all ends, widths; all variants; spiral sizes 2 to 6; every custom permutation of up to 4
#include "order_common.h"
// swaths parallel to (ux, uy), each with its own offset along the direction and its own length
static Swaths lane(int n, std::vector<Point>& dir) {
  static const double D[4][2] = {{0, 1}, {1, 0}, {1, 1}, {3, -1}}; auto& d = D[sx_choose("direction", 0, 3)]; dir.push_back(Point(d[0], d[1])); Swaths s;
  bool dn[3] = {sx_bool("down0"), sx_bool("down1"), sx_bool("down2")}, rv[3] = {sx_bool("reversed0"), n > 1 && sx_bool("reversed1"), false};
  for (int k = 0; k < n; k++) { std::string nm = "s" + std::to_string(k); double o = num(nm + ".offset", -9, 9), l = num(nm + ".length", 1, 30), bx = -d[1] * k * 4, by = d[0] * k * 4;
    Point a(bx + d[0] * o, by + d[1] * o), b(bx + d[0] * (o + l), by + d[1] * (o + l)); bool f = dn[k % 3]; LineString ls; ls.addPoint(f ? b : a); ls.addPoint(f ? a : b); Swath w(ls, 3, k); if (rv[k % 3]) w.reverse(); s.push_back(w); }
  return s; }
static double along(const Swath& s, const Point& d) { Point v = s.endPoint() - s.startPoint(); return v.getX() * d.getX() + v.getY() * d.getY(); }
static void judge(const Swaths& out, const Point& d, int variant) { bool first = along(out[0], d) > 0; if (variant >= 0) sx_assert(first == !(variant & 2), "the first swath starts at the end chosen by the variant");
  for (size_t i = 1; i < out.size(); i++) sx_assert((along(out[i], d) > 0) == (i % 2 ? !first : first), "neighbours are driven in opposite directions"); }
template <class O> static void run(const O& o, int n) { std::vector<Point> d; Swaths in = lane(n, d); uint32_t v = (uint32_t)sx_choose("variant", 0, 3); judge(o.genSortedSwaths(in, v), d[0], v); }
static int count() { return sx_thorough() ? sx_choose("n", 1, 9) : (int[]){1, 2, 3, 4, 7}[sx_choose("n", 0, 4)]; }
// following or opposing another swath, in any two directions
SX_HARNESS(S03_target) {
  Point a(num("ax", -9, 9), num("ay", -9, 9)), b(num("bx", -9, 9), num("by", -9, 9)), c(num("cx", -9, 9), num("cy", -9, 9)), d = c + Point(sx_choose("dx", -2, 2), sx_choose("dy", -2, 2)), m(num("mx", -9, 9), num("my", -9, 9));
  bool bent = sx_choose("bent", 0, 1), opp = sx_choose("opposite", 0, 1); Swath s(bent ? LineString({a, m, b}) : LineString(a, b), 2, 1), o(LineString(c, d), 2, 2); auto dot = [](const Swath& u, const Swath& v) { Point x = u.endPoint() - u.startPoint(), y = v.endPoint() - v.startPoint(); return x.getX() * y.getX() + x.getY() * y.getY(); };
  double k = dot(s, o); sx_assume(k > 1e-6 || k < -1e-6); if (sx_bool("reversed")) s.reverse(), k = -k; sx_assert(s.hasSameDir(o) == (k > 0), "swaths have the same direction when their chords do");
  if (opp) s.targetOppositeDirAs(o); else s.targetSameDirAs(o); bool turned = opp == (k > 0); sx_assert(opp ? dot(s, o) < 0 : dot(s, o) > 0, "a swath follows or opposes another one as asked");
  sx_assert(s.getId() == 1 && o.getId() == 2 && dot(s, o) == (turned ? -k : k), "a swath is turned only when needed"); }
SX_HARNESS(S03_boustrophedon) { run(BoustrophedonOrder(), count()); }
SX_HARNESS(S03_snake) { run(SnakeOrder(), count()); }
SX_HARNESS(S03_spiral) { run(SpiralOrder(sx_choose("size", 2, sx_thorough() ? 6 : 4)), sx_thorough() ? count() : 5); }
SX_HARNESS(S03_custom) { int n = sx_choose("n", 1, sx_thorough() ? 4 : 3); std::vector<size_t> ord; for (int k = 0; k < n; k++) ord.insert(ord.begin() + sx_choose(("visit" + std::to_string(k)).c_str(), 0, k), k);
  std::vector<Point> d; Swaths in = lane(n, d); judge(CustomOrder(ord).genSortedSwaths(in, (uint32_t)sx_choose("variant", 0, 1)), d[0], -1); }

//@ src: types/Swath.cpp types/Swaths.cpp types/LineString.cpp types/Point.cpp route_planning/boustrophedon_order.cpp route_planning/snake_order.cpp route_planning/spiral_order.cpp route_planning/custom_order.cpp route_planning/single_cell_swaths_order_base.cpp
//@ native: gdal
//@ bound: 0 to 3 straight swaths stored in any order and drawn in any direction, up to 7 stored in order; all ids that follow the field with gaps up to 4; all widths, ends; variants 0 to 5; spiral sizes 0 to 8, constructed or set; every custom permutation up to 3 swaths; 20 swaths in a shuffled order
//@ bound: thorough: stored in any order up to 4, in order up to 10, spiral sizes to 11
//@ assume: the ids are distinct
#include "order_common.h"
static void frozen(const Swaths& in, const std::vector<Src>& src, const Swaths& before) { for (size_t i = 0; i < in.size(); i++) { same(in[i].startPoint(), before[i].startPoint(), "the given swaths are left alone"); sx_assert(in[i].getId() == before[i].getId(), "the given swaths are left alone"); } }
template <class O> static void run(const O& o, int n, bool any, int variants = 3) {
  std::vector<Src> src; Swaths in = n > 3 && !any ? bigField(n, src) : field(n, any, src); Swaths before = in.clone(); uint32_t v = (uint32_t)sx_choose("variant", 0, variants);
  Swaths out = o.genSortedSwaths(in, v); permutation(out, src); frozen(in, src, before); }
static int small() { return sx_choose("n", 0, sx_thorough() ? 4 : 3); }
static int large() { return sx_size("n", 4, sx_thorough() ? 10 : 7, 20); }
SX_HARNESS(S01_boustrophedon) { run(BoustrophedonOrder(), small(), true, 5); }
SX_HARNESS(S01_boustrophedon_large) { run(BoustrophedonOrder(), large(), false); }
SX_HARNESS(S01_snake) { run(SnakeOrder(), small(), true); }
SX_HARNESS(S01_snake_large) { run(SnakeOrder(), large(), false); }
SX_HARNESS(S01_spiral) { SpiralOrder o(sx_choose("size", 0, 4)); run(o, small(), sx_thorough()); }
SX_HARNESS(S01_spiral_set) { SpiralOrder o(3); o.setSpiralSize(sx_choose("size", 0, 4)); run(o, small(), false); }
SX_HARNESS(S01_spiral_large) { SpiralOrder o(sx_choose("size", 2, sx_thorough() ? 11 : 8)); run(o, large(), false, sx_thorough() ? 3 : 1); }
SX_HARNESS(S01_custom) { int n = small(); std::vector<size_t> ord; for (int k = 0; k < n; k++) ord.insert(ord.begin() + sx_choose(("visit" + std::to_string(k)).c_str(), 0, k), k); run(CustomOrder(ord), n, false); }
SX_HARNESS(S01_custom_reused) { CustomOrder o({0}); int n = 3; std::vector<size_t> ord; for (int k = 0; k < n; k++) ord.insert(ord.begin() + sx_choose(("visit" + std::to_string(k)).c_str(), 0, k), k); o.setCustomOrder(ord); run(o, n, true); }
// swaths that bend and climb: every inner point survives, in order or in reverse
SX_HARNESS(S01_bent) { int n = sx_choose("n", 1, 3), np = sx_choose("points", 3, 4); Swaths in; std::vector<std::vector<Point>> src;
  for (int k = 0; k < n; k++) { std::string s = "s" + std::to_string(k); LineString l; std::vector<Point> ps; bool down = k % 2;
    for (int i = 0; i < np; i++) { std::string q = s + "p" + std::to_string(i); int at = down ? np - 1 - i : i; ps.emplace_back(10.0 * k + (i > 0 && i < np - 1 ? num(q + ".x", 0, 3) : 0.0), num(q + ".y", 30.0 * at, 30.0 * at + 20), num(q + ".z", 0, 5)); l.addPoint(ps.back()); }
    in.emplace_back(Swath(l, 2.0, k)); src.push_back(ps); }
  Swaths out; uint32_t v = (uint32_t)sx_choose("variant", 0, 3);
  switch (sx_choose("pattern", 0, 3)) { case 0: out = BoustrophedonOrder().genSortedSwaths(in, v); break; case 1: out = SnakeOrder().genSortedSwaths(in, v); break; case 2: out = SpiralOrder(2).genSortedSwaths(in, v); break;
    default: { std::vector<size_t> o; for (int k = n; k > 0; k--) o.push_back(k - 1); out = CustomOrder(o).genSortedSwaths(in, v); } }
  sx_assert(out.size() == in.size(), "as many swaths as given"); if (out.size() != in.size()) return; std::vector<int> seen(n);
  for (size_t i = 0; i < out.size(); i++) { int k = out[i].getId(); if (k < 0 || k >= n) { sx_fail("a swath that was not given"); return; } sx_assert(++seen[k] == 1, "no swath appears twice");
    sx_assert((int)out[i].numPoints() == np, "the number of points is kept"); if ((int)out[i].numPoints() != np) return; bool fwd = up(out[i]) == (k % 2 == 0);
    for (int j = 0; j < np; j++) { Point p = out[i].getPoint(j); const Point& e = src[k][fwd ? j : np - 1 - j]; same(p, e, "the line is kept"); sx_assert_eq(p.getZ(), e.getZ(), "the line is kept"); } } }

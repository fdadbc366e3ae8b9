//@ src: types/Swath.cpp types/Swaths.cpp types/LineString.cpp types/Point.cpp route_planning/boustrophedon_order.cpp route_planning/snake_order.cpp route_planning/spiral_order.cpp route_planning/custom_order.cpp route_planning/single_cell_swaths_order_base.cpp
//@ native: gdal
//@ bound: 1 to 9 parallel swaths with ascending ids in the field, 1 to 3 of them also stored in any order with any ids; all widths and ends; all four start variants; spiral sizes 2 to 6; every custom permutation of up to 4; 20 swaths in a shuffled order
//@ bound: thorough: up to 13 swaths, spiral sizes 2 to 9, custom permutations of up to 5
//@ assume: ids ascend across the field, as generated swaths do
#include "order_common.h"
// position in the field of the k-th visited swath
static std::vector<int> places(const Swaths& out, const std::vector<Src>& src) { std::vector<int> r; for (size_t i = 0; i < out.size(); i++) { int k = 0; while (k < (int)src.size() && src[k].id != out[i].getId()) k++; r.push_back(k); } return r; }
static bool startUp(uint32_t v) { return !(v & 2); }
static int side(uint32_t v, int n, int k) { return v & 1 ? n - 1 - k : k; }
static void head(const Swaths& out, uint32_t v) { if (out.size()) sx_assert(up(out[0]) == startUp(v), "the variant chooses the end the first swath starts from"); }
struct Case { std::vector<Src> src; Swaths in; int n; uint32_t v; };
static Case make(int lo, int hi, bool any = true) { Case c; c.n = lo > 3 ? sx_size("n", lo, hi, 20) : sx_choose("n", lo, hi); c.in = c.n > 3 ? bigField(c.n, c.src) : field(c.n, any, c.src); c.v = (uint32_t)sx_choose("variant", 0, 3); return c; }
static int most() { return sx_thorough() ? 13 : 9; }
static void boustrophedon(int lo, int hi) { Case c = make(lo, hi); Swaths out = BoustrophedonOrder().genSortedSwaths(c.in, c.v); head(out, c.v); auto p = places(out, c.src);
  sx_assert((int)p.size() == c.n, "every swath is visited"); for (int i = 0; i < c.n; i++) sx_assert(p[i] == side(c.v, c.n, i), "boustrophedon visits the swaths side by side"); }
SX_HARNESS(S02_boustrophedon) { boustrophedon(1, 3); }
SX_HARNESS(S02_boustrophedon_large) { boustrophedon(4, most()); }
static void snake(int lo, int hi) { Case c = make(lo, hi); Swaths out = SnakeOrder().genSortedSwaths(c.in, c.v); head(out, c.v); auto p = places(out, c.src);
  std::vector<int> want; for (int i = 0; i < c.n; i += 2) want.push_back(i); for (int i = c.n - 1; i >= 0; i--) if (i % 2) want.push_back(i);
  sx_assert(p.size() == want.size(), "every swath is visited"); for (int i = 0; i < c.n; i++) sx_assert(p[i] == side(c.v, c.n, want[i]), "snake visits every second swath outwards and the others on the way back"); }
SX_HARNESS(S02_snake) { snake(1, 3); }
SX_HARNESS(S02_snake_large) { snake(4, most()); }
static void spiral(int lo, int hi, int smax) { Case c = make(lo, hi); int sz = sx_choose("size", 2, smax); Swaths out = SpiralOrder(sz).genSortedSwaths(c.in, c.v); head(out, c.v); auto p = places(out, c.src);
  sx_assert((int)p.size() == c.n, "every swath is visited"); 
  for (int b = 0; b < c.n; b += sz) { int l = b, r = std::min(b + sz, c.n) - 1; bool near = true; int e = r;
    if (b > 0 && p[b] == side(c.v, c.n, r) && r > l) near = false; // bulks after the first may be entered from either side
    for (int i = b; i <= e; i++, near = !near) sx_assert(p[i] == side(c.v, c.n, near ? l++ : r--), "spiral works inwards from both ends of a bulk"); } }
SX_HARNESS(S02_spiral) { spiral(1, 3, 4); }
SX_HARNESS(S02_spiral_large) { spiral(4, most(), sx_thorough() ? 9 : 6); }
SX_HARNESS(S02_spiral_documented) { std::vector<Src> src; Swaths in; for (int k = 0; k < 12; k++) in.push_back(vertical("s" + std::to_string(k), k, k, false, &src)); SpiralOrder o(6); auto p = places(o.genSortedSwaths(in, 0), src); static const int want[] = {1, 6, 2, 5, 3, 4, 7, 12, 8, 11, 9, 10};
  for (int i = 0; i < 12; i++) sx_assert(p[i] + 1 == want[i], "spiral of size 6 as documented"); }
SX_HARNESS(S02_custom) { Case c = make(1, sx_thorough() ? 5 : 4, sx_thorough()); std::vector<size_t> ord; for (int k = 0; k < c.n; k++) ord.insert(ord.begin() + sx_choose(("visit" + std::to_string(k)).c_str(), 0, k), k);
  CustomOrder o(ord); auto p = places(o.genSortedSwaths(c.in, c.v & 1), c.src); sx_assert(p.size() == ord.size(), "every swath is visited"); for (int i = 0; i < c.n; i++) sx_assert(p[i] == side(c.v & 1, c.n, (int)ord[i]), "the k-th visited swath is the one at the k-th requested position"); }

//@ src: types/Swath.cpp types/Swaths.cpp types/LineString.cpp types/Point.cpp route_planning/custom_order.cpp route_planning/single_cell_swaths_order_base.cpp
//@ native: gdal
//@ bound: 1 or 2 swaths with requested orders of 0 to 3 positions, 3 swaths with 3 positions, each position an arbitrary number 0..(number of swaths + 2), plus chosen positions up to 2^64-1; orders of 5 to 70 positions with one or two arbitrary entries
//@ bound: thorough: 3 swaths with 0 to 4 positions, 4 swaths with 4 positions
//@ thorough_only: S04_accepts_four
//@ assume: at least one swath
#include "order_common.h"
static void accepts(int n, int m) { std::vector<size_t> ord; std::vector<long> o; for (int i = 0; i < m; i++) { o.push_back(sx_int(("position" + std::to_string(i)).c_str(), 0, n + 2)); ord.push_back((size_t)o.back()); }
  std::vector<Src> src; Swaths in; for (int k = 0; k < n; k++) in.push_back(vertical("s" + std::to_string(k), k, k, false, &src));
  bool ok = m == n; for (int i = 0; i < m && ok; i++) { if (o[i] < 0 || o[i] >= n) ok = false; for (int j = 0; j < i && ok; j++) if (o[j] == o[i]) ok = false; }
  CustomOrder c(std::vector<size_t>{0}); if (sx_choose("set", 0, 1)) c.setCustomOrder(ord); else c = CustomOrder(ord);
  bool threw = false; Swaths out; try { out = c.genSortedSwaths(in); } catch (const std::exception&) { threw = true; }
  sx_assert(threw == !ok, "an order is accepted exactly when it is a permutation of the positions");
  if (ok) { sx_reach("accepted"); permutation(out, src); for (int i = 0; i < n; i++) sx_assert(out[i].getId() == o[i], "the order is the requested one"); } else { sx_reach("rejected"); sx_assert(out.size() == 0, "no partial result"); }
  for (int k = 0; k < n; k++) sx_assert(in[k].getId() == k, "the given swaths keep their places");
}
SX_HARNESS(S04_accepts) { int n = sx_choose("n", 1, sx_thorough() ? 3 : 2); accepts(n, sx_choose("length", 0, n + 1)); }
// long orders: a chosen permutation of up to 70 positions with one or two arbitrary entries
SX_HARNESS(S04_long) { static const int sizes[] = {5, 12, 33, 70}; int n = sizes[sx_choose("n", 0, 3)], two = n < 30 ? sx_choose("two", 0, 1) : 0; std::vector<size_t> ord; for (int i = 0; i < n; i++) ord.push_back((n - 1 - i + 2) % n);
  long a = sx_int("first", 0, n + 2), b = two ? sx_int("second", 0, n + 2) : -1; int i = sx_choose("where", 0, 2) * (n - 1) / 2, j = (i + 1) % n; size_t wi = ord[i], wj = ord[j]; ord[i] = (size_t)a; if (two) ord[j] = (size_t)b;
  bool ok = two ? (a == (long)wi && b == (long)wj) || (a == (long)wj && b == (long)wi) : a == (long)wi; std::vector<Src> src; Swaths in; for (int k = 0; k < n; k++) in.push_back(Swath(LineString({Point(k, 0), Point(k, 9)}), 1, k));
  bool threw = false; Swaths out; try { out = CustomOrder(ord).genSortedSwaths(in); } catch (const std::exception&) { threw = true; } sx_assert(threw == !ok, "an order is accepted exactly when it is a permutation of the positions");
  if (ok) { sx_reach("accepted"); sx_assert((int)out.size() == n, "every swath is visited"); for (int k = 0; k < n; k++) sx_assert(out[k].getId() == (int)ord[k], "the order is the requested one"); } else sx_assert(out.size() == 0, "no partial result"); }
SX_HARNESS(S04_accepts_three) { accepts(3, 3); }
SX_HARNESS(S04_accepts_four) { accepts(4, 4); }
SX_HARNESS(S04_huge_position) { // positions near 2^64 do not wrap into range
  static const size_t big[] = {~(size_t)0, ~(size_t)0 - 1, (size_t)1 << 63, (size_t)1 << 32, 4}; std::vector<size_t> ord{0, 1, 2}; ord[sx_choose("where", 0, 2)] = big[sx_choose("which", 0, 4)];
  std::vector<Src> src; Swaths in; for (int k = 0; k < 3; k++) in.push_back(vertical("s" + std::to_string(k), k, k, false, &src)); bool threw = false; try { CustomOrder(ord).genSortedSwaths(in); } catch (const std::exception&) { threw = true; } sx_assert(threw, "an order is accepted exactly when it is a permutation of the positions"); }

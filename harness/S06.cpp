//@ src: types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/LineString.cpp types/MultiLineString.cpp types/Point.cpp
//@ native: gdal
//@ bound: collections of 0 to 4 swaths (self-append included), 0 to 3 cells of 0 to 3 swaths; all widths, ends and ids; flat indices below the total plus two; one large size (9) per collection
//@ assume: nothing beyond the bounds
#include "swath_common.h"
static Swaths many(const std::string& n, int k, std::vector<Src>& src, bool anyid = true) { Swaths s; for (int i = 0; i < k; i++) { std::string nm = n + std::to_string(i); s.push_back(vertical(nm, (int)src.size(), anyid ? (int)sx_int((nm + ".id").c_str(), -9, 9) : (int)src.size() + 3, k > 4 || src.size() > 4 ? i % 3 == 0 : sx_bool((nm + ".down").c_str()), &src)); } return s; }
static void exactly(const Swaths& s, const std::vector<Src>& src) { sx_assert(s.size() == src.size(), "nothing is lost or added"); for (size_t i = 0; i < src.size(); i++) sameSwath(s[i], src[i]); }
static bool throwsAt(const Swaths& s, size_t i) { try { s.at(i); } catch (const std::out_of_range&) { return true; } return false; }
SX_HARNESS(S06_append) { std::vector<Src> src; int n = sx_size("n", 0, 2, 9), m = sx_size("m", 0, 2, 9); Swaths a = many("a", n, src), b = many("b", m, src); a.append(b); exactly(a, src); sx_assert((int)b.size() == m, "appending leaves the other collection alone"); for (int i = 0; i < n + m; i++) sameSwath(a.at(i), src[i]); for (int i = n + m; i < n + m + 2; i++) sx_assert(throwsAt(a, i), "an index outside raises"); if (n + m) sameSwath(a.back(), src.back()); size_t k = 0; for (auto&& s : a) sameSwath(s, src[k++]); sx_assert(k == a.size(), "iteration visits every swath"); }
SX_HARNESS(S06_append_self) { std::vector<Src> src; int n = sx_size("n", 0, 4, 9); Swaths a = many("a", n, src); a.append(a); std::vector<Src> twice = src; twice.insert(twice.end(), src.begin(), src.end()); exactly(a, twice); }
SX_HARNESS(S06_reverse) { std::vector<Src> src; int n = sx_size("n", 0, 4, 9); Swaths a = many("a", n, src); bool d0 = n && up(a[0]); a.reverse(); std::vector<Src> r(src.rbegin(), src.rend()); exactly(a, r); if (n) sx_assert(up(a[n - 1]) == d0, "reversing a collection does not reverse the swaths"); }
SX_HARNESS(S06_sort) { std::vector<Src> src; int n = sx_choose("n", 0, sx_thorough() ? 4 : 3); Swaths a = many("a", n, src); a.sort(); sx_assert((int)a.size() == n, "nothing is lost or added"); std::vector<int> seen(n);
  for (int i = 0; i < n; i++) { sx_assert(up(a[i]), "sorting orients the swaths alike"); if (i) sx_assert(a[i - 1].getId() <= a[i].getId(), "sorted by id"); double x = a[i].startPoint().getX(); int k = (int)(x / 10 + 0.5); sx_assert(k >= 0 && k < n && !seen[k]++, "every swath exactly once"); sameSwath(a[i], src[k]); } }
SX_HARNESS(S06_constructors) { std::vector<Src> src; int n = sx_size("n", 0, 3, 9); Swaths a = many("a", n, src); std::vector<Swath> v(a.begin(), a.end()); exactly(Swaths(v), src); sx_assert((int)Swaths(n).size() == n, "a sized collection has that size"); Swaths c = a.clone(); exactly(c, src); if (n) { c[0].moveTo(Point(5, 5)); c[0].setId(77); c.reverse(); exactly(a, src); } if (n == 2) { exactly(Swaths({a[0], a[1]}), src); } Swaths e; for (auto&& s : a) e.emplace_back(s.getPath(), s.getWidth(), s.getId(), s.getType()); exactly(e, src); }
SX_HARNESS(S06_lines) { std::vector<Src> src; int n = sx_size("n", 0, 2, 9), m = sx_size("m", 0, 3, 9); Swaths a = many("a", n, src); double w = num("w", 0.5, 9); SwathType t = sx_bool("headland") ? SwathType::HEADLAND : SwathType::MAINLAND; bool one = sx_bool("one by one");
  MultiLineString ml; std::vector<Point> p; for (int i = 0; i < m; i++) { Point u = pnt("u" + std::to_string(i), -9, 9), v = pnt("v" + std::to_string(i), -9, 9); p.push_back(u); p.push_back(v); LineString l({u, v}); if (one) a.append(l, w, t); else ml.addGeometry(l); } if (!one) a.append(ml, w, t);
  sx_assert((int)a.size() == n + m, "every line becomes a swath"); for (int i = 0; i < n; i++) sameSwath(a[i], src[i]); for (int i = 0; i < m; i++) { auto& s = a[n + i]; sx_assert(s.getId() == n + i, "lines receive consecutive ids"); sx_assert_eq(s.getWidth(), w, "lines receive the given width"); sx_assert(s.getType() == t, "lines receive the given type"); sx_assert(s.numPoints() == 2, "the line is kept"); same(s.startPoint(), p[2 * i], "the line is kept"); same(s.endPoint(), p[2 * i + 1], "the line is kept"); } }
SX_HARNESS(S06_by_cells) {
  std::vector<Src> src; int c = sx_size("cells", 0, 3, 9); SwathsByCells s; std::vector<int> cnt; for (int i = 0; i < c; i++) { cnt.push_back(c > 3 ? (i * 2 + 1) % 4 : sx_choose(("count" + std::to_string(i)).c_str(), 0, sx_thorough() ? 3 : 2)); s.emplace_back(many("c" + std::to_string(i) + "_", cnt[i], src, false)); }
  sx_assert((int)s.size() == c, "one entry per cell"); sx_assert(s.sizeTotal() == src.size(), "the total size is the number of swaths"); exactly(s.flatten(), src); size_t k = 0; const SwathsByCells& cs = s;
  for (int i = 0; i < c; i++) { sx_assert((int)s.at(i).size() == cnt[i], "each cell keeps its swaths"); for (int j = 0; j < cnt[i]; j++, k++) { sameSwath(s.at(i).at(j), src[k]); sameSwath(s[i][j], src[k]); sameSwath(s.getSwath(k), src[k]); sameSwath(cs.getSwath(k), src[k]); } }
  for (size_t i = src.size(); i < src.size() + 2; i++) { bool threw = false; try { s.getSwath(i); } catch (const std::out_of_range&) { threw = true; } sx_assert(threw, "a flat index outside raises"); }
  SwathsByCells d = s.clone(); exactly(d.flatten(), src); if (src.size()) { d.getSwath(src.size() - 1).setId(1234); sx_assert(d.flatten()[(int)src.size() - 1].getId() == 1234, "writing through a flat index is seen"); exactly(s.flatten(), src); }
  d.reverse(); for (int i = 0; i < c; i++) sx_assert((int)d.at(i).size() == cnt[c - 1 - i], "reversing reverses the cells");
}

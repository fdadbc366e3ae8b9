#pragma once
#include "geo.h"
#include "fields2cover/types/Swath.h"
#include "fields2cover/types/Swaths.h"
#include "fields2cover/types/SwathsByCells.h"
using f2c::types::Swath; using f2c::types::Swaths; using f2c::types::SwathsByCells; using f2c::types::SwathType;
// parallel swath k: on x = 10 k, from y to y + len, drawn upwards or downwards
struct Src { double x, y0, y1, w; int id; SwathType t; };
inline Swath vertical(const std::string& n, int k, int id, bool down, std::vector<Src>* src = nullptr) {
  double y = num(n + ".y", 0, 50), e = num(n + ".end", 60, 100), w = num(n + ".width", 1, 9); SwathType t = k % 3 == 1 ? SwathType::HEADLAND : SwathType::MAINLAND;
  LineString l; if (down) { l.addPoint(10.0 * k, e); l.addPoint(10.0 * k, y); } else { l.addPoint(10.0 * k, y); l.addPoint(10.0 * k, e); }
  if (src) src->push_back({10.0 * k, y, e, w, id, t});
  return Swath(l, w, id, t);
}
inline void sameSwath(const Swath& s, const Src& o) {
  sx_assert(s.getId() == o.id, "the id is kept"); sx_assert_eq(s.getWidth(), o.w, "the width is kept"); sx_assert(s.getType() == o.t, "the type is kept"); sx_assert(s.numPoints() == 2, "the number of points is kept");
  Point a = s.startPoint(), b = s.endPoint(); bool up = a.getY() < b.getY();
  sx_assert_eq(a.getX(), o.x, "the line is kept"); sx_assert_eq(b.getX(), o.x, "the line is kept");
  sx_assert_eq(up ? a.getY() : b.getY(), o.y0, "the line is kept"); sx_assert_eq(up ? b.getY() : a.getY(), o.y1, "the line is kept");
}
// every input swath exactly once
inline void permutation(const Swaths& out, const std::vector<Src>& in) {
  sx_assert(out.size() == in.size(), "as many swaths as given"); std::vector<int> seen(in.size());
  for (size_t i = 0; i < out.size(); i++) { size_t k = 0; while (k < in.size() && out[i].getId() != in[k].id) k++; if (k == in.size()) { sx_fail("a swath that was not given"); return; }
    sx_assert(++seen[k] == 1, "no swath appears twice"); sameSwath(out[i], in[k]); }
}
inline bool up(const Swath& s) { return s.startPoint().getY() < s.endPoint().getY(); }
inline void alternates(const Swaths& out) { for (size_t i = 1; i < out.size(); i++) sx_assert(up(out[i]) != up(out[i - 1]), "neighbours are driven in opposite directions"); }

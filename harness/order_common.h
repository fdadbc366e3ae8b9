#pragma once
#include "swath_common.h"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "fields2cover/route_planning/custom_order.h"
using namespace f2c::rp;
// the swaths of a field in any stored order, with any ids that follow the field, each drawn in any direction
inline Swaths field(int n, bool anyorder, std::vector<Src>& src) {
  std::vector<Swath> v; int id = (int)sx_int("id0", -3, 3);
  std::vector<int> at; for (int k = 0; k < n; k++) at.insert(at.begin() + (anyorder ? sx_choose(("place" + std::to_string(k)).c_str(), 0, k) : k), k);
  for (int k = 0; k < n; k++) { std::string nm = "s" + std::to_string(k); v.push_back(vertical(nm, k, id, sx_bool((nm + ".down").c_str()), &src)); id += (int)sx_int((nm + ".gap").c_str(), 1, 4); }
  Swaths s; for (int k : at) s.push_back(v[k]); return s;
}
// many swaths stored in order (shuffled when there are more than 13); every other one is drawn in direction d1, the rest in d2
inline Swaths bigField(int n, std::vector<Src>& src) {
  bool d1 = sx_bool("down1"), d2 = sx_bool("down2"); Swaths s; for (int k = 0; k < n; k++) s.push_back(vertical("s" + std::to_string(k), k, k + 5, k % 3 == 1 ? d1 : d2, &src)); if (n > 13) { Swaths t; for (int k = 0; k < n; k++) t.push_back(s[(k * 7 + 3) % n]); return t; } return s; }

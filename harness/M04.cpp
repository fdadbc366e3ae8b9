//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiLineString.cpp headland_generator/constant_headland.cpp decomposition/decomposition_base.cpp decomposition/trapezoidal_decomp.cpp decomposition/boustrophedon_decomp.cpp
//@ native: model
//@ bound: fields with sides along two directions: a rectangle with or without a hole, an L, a U, a T and two cells apart, of arbitrary size (some sides fixed in the quick check); headlands of arbitrary width up to a fifth of the narrowest part, in 0 to 3 passes; one or two cuts along either axis at arbitrary places; decompositions split along either axis; areas compared within ten square millimetres per piece
//@ assume: the geometry library offsets, cuts and joins polygons with sides along two directions exactly; cuts run 1e-3 or more away from corners they do not touch
#include <cmath>
#include "geo.h"
#include "grid.h"
#include "fields2cover/headland_generator/constant_headland.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
using f2c::types::MultiLineString;
using L = std::vector<std::pair<double, double>>;
static LinearRing ring(const L& v) { LinearRing r; for (auto& p : v) r.addPoint(p.first, p.second); r.addPoint(v[0].first, v[0].second); return r; }
static double len(const char* n, double fixed) { return sx_thorough() || fixed == 0 ? num(n, 5, 50) : fixed; }
static double shoelace(const LinearRing& r) { double a = 0; for (size_t i = 0; i + 1 < r.size(); i++) a += r[i].getX() * r[i + 1].getY() - r[i + 1].getX() * r[i].getY(); return std::fabs(a) / 2; }
static double areaOf(const Cells& c) { double a = 0; for (size_t i = 0; i < c.size(); i++) { Cell k = c.getGeometry(i); for (size_t j = 0; j < k.size(); j++) a += (j ? -1 : 1) * shoelace(k.getGeometry(j)); } return a; }
struct F { Cells cells; double area = 0, X[4], Y[4]; };
static bool turned; static void add(F& f, std::vector<L> rings) { Cell c; double k = 1; for (auto r : rings) { if (turned) for (auto& p : r) p = {-p.second, p.first}; c.addRing(ring(r)); f.area += k * shoelace(ring(r)); k = -1; } f.cells.addGeometry(c); }
static F field(int kind) { F f; turned = sx_choose("turned", 0, 1); double x = 0, a = len("a", 0), b = len("b", kind ? 0 : 7), c = len("c", 9), d = len("d", 0), e = len("e", 6), h = len("f", 8); double X1 = x + a, X2 = X1 + b, X3 = X2 + c, Y1 = d, Y2 = d + e, Y3 = Y2 + h; f.X[0] = x; f.X[1] = X1; f.X[2] = X2; f.X[3] = X3; f.Y[0] = 0; f.Y[1] = Y1; f.Y[2] = Y2; f.Y[3] = Y3;
  switch (kind) {
    case 0: add(f, {{{x, 0}, {X3, 0}, {X3, Y3}, {x, Y3}}, {{X1, Y1}, {X2, Y1}, {X2, Y2}, {X1, Y2}}}); break;
    case 1: add(f, {{{x, 0}, {X2, 0}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}}}); break;
    case 2: add(f, {{{x, 0}, {X3, 0}, {X3, Y2}, {X2, Y2}, {X2, Y1}, {X1, Y1}, {X1, Y2}, {x, Y2}}}); break;
    case 3: add(f, {{{X1, 0}, {X2, 0}, {X2, Y1}, {X3, Y1}, {X3, Y2}, {x, Y2}, {x, Y1}, {X1, Y1}}}); break;
    case 4: add(f, {{{x, 0}, {X1, 0}, {X1, Y2}, {x, Y2}}}); add(f, {{{X2, Y1}, {X3, Y1}, {X3, Y3}, {X2, Y3}}}); break;
    default: add(f, {{{x, 0}, {X1, 0}, {X1, Y1}, {x, Y1}}}); }
  return f; }
static void apart(const Cells& a, const Cells& b, double tol, const char* m) { sx_assert_le(areaOf(a.intersection(b)), tol, m); }
SX_HARNESS(M04_headlands) { grid::install(); F f = field(sx_choose("field", 0, 5)); int n = sx_choose("passes", 0, 3); double w = num("width", 0.05, 0.8); f2c::hg::ConstHL hl; Cells main = sx_choose("by passes", 0, 1) ? hl.generateHeadlandArea(f.cells, w, n) : hl.generateHeadlands(f.cells, w * n);
  Cells head = f.cells.difference(main); double t = sx_tol(1e-6); sx_assert_le(head.area() + main.area(), f.area + t, "headland and mainland share out the field"); sx_assert_le(f.area, head.area() + main.area() + t, "headland and mainland share out the field"); sx_assert_eq(f.cells.area(), f.area, "the area of a field is that of its borders less its holes"); apart(head, main, t, "headland and mainland do not overlap"); sx_assert_le(areaOf(main.difference(f.cells)), t, "the mainland lies in the field");
  double last = f.area; auto passes = hl.generateHeadlandSwaths(f.cells, w, n); for (auto& p : passes) { double a = p.area(); sx_assert_le(a, last + t, "every pass lies inside the one before"); last = a; } sx_assert_le(main.area(), last + t, "the mainland lies inside every pass"); sx_reach("headlands"); }
static void tiles(const F& f, const Cells& r) { double sum = 0, tol = 1e-5 * (1 + r.size()); Cells all; for (size_t i = 0; i < r.size(); i++) { double a = r.getGeometry(i).area(); sx_assert_eq(a, areaOf(Cells(r.getGeometry(i))), "the area of a cell is that of its border less its holes"); sum += a; for (size_t k = 0; k < i; k++) apart(Cells(r.getGeometry(i)), Cells(r.getGeometry(k)), tol, "pieces do not overlap"); }
  sx_assert_le(sum, f.area + tol, "pieces share out the field"); sx_assert_le(f.area, sum + tol, "pieces share out the field"); sx_assert_le(areaOf(r.difference(f.cells)), tol, "pieces lie in the field"); sx_reach("tiles"); }
SX_HARNESS(M04_decompositions) { grid::install(); F f = field(sx_choose("field", 0, 4)); f2c::decomp::TrapezoidalDecomp td; f2c::decomp::BoustrophedonDecomp bd; f2c::decomp::TrapezoidalDecomp& d = sx_choose("boustrophedon", 0, 1) ? bd : td; d.setSplitAngle(sx_choose("direction", 0, 1) * 1.5707963267948966); tiles(f, d.decompose(f.cells)); }
SX_HARNESS(M04_cuts) { grid::install(); int kind = sx_choose("field", 0, 4); F f = field(kind); int n = sx_choose("cuts", 1, 2); MultiLineString ls; LineString one; for (int i = 0; i < n; i++) { bool up = sx_choose(("upright" + std::to_string(i)).c_str(), 0, 1); double* Q = up ? f.X : f.Y; int cell = i ? 0 : sx_choose("between", 0, 2); double at = Q[cell] + num(("at" + std::to_string(i)).c_str(), 0.5, 4.5) ; std::vector<std::pair<double, double>> v = up ? L{{at, -10}, {at, 500}} : L{{-10, at}, {500, at}}; if (i) sx_assume(at - Q[cell] < 4); LineString l; for (auto& p : v) turned ? l.addPoint(-p.second, p.first) : l.addPoint(p.first, p.second); ls.addGeometry(l); one = l; }
  tiles(f, n == 1 && sx_choose("single", 0, 1) ? f.cells.splitByLine(one) : f.cells.splitByLine(ls)); }

//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp objectives/sg_obj/sg_objective.cpp swath_generator/swath_generator_base.cpp swath_generator/brute_force.cpp
//@ native: model
//@ bound: steps from a tenth of a turn (thorough: a sixteenth) to a whole turn, arbitrary within each range; arbitrary costs per angle, minimised or maximised, evaluated directly or through generated swaths; fields of up to 2 cells
//@ assume: the step is at most a full turn; an objective is a function of angle, width and cell or of the generated swaths; multiples of the step are exact reals
#include "swath_common.h"
#include "fields2cover/swath_generator/brute_force.h"
using f2c::obj::SGObjective; using f2c::sg::BruteForce;
struct Eval { double ang, w, cost; const void* cell; };
static std::vector<Eval> evals; static bool replaying = false; static double theW; static int calls = 0, gens = 0;
// every evaluated angle costs an arbitrary amount; the same angle always costs the same
static double costOf(double ang, double w) { for (auto& e : evals) if (e.ang == ang) return e.cost; double c = num("cost" + std::to_string(evals.size()), -10, 10); evals.push_back({ang, w, c, nullptr}); return c; }
struct Obj : SGObjective { bool mini, fast; using SGObjective::computeCost; bool isMinimizing() const override { return mini; } bool isFastCompAvailable() const override { return fast; }
  double computeCost(double ang, double w, const F2CCell& c) override { calls++; sx_assert(fast, "the estimate is used only when it is available"); sx_assert_eq(w, theW, "angles are compared at the working width"); return costOf(ang, w); }
  double computeCost(const F2CCell& c, const F2CSwaths& s) override { calls++; sx_assert(!fast, "the estimate is used when it is available"); sx_assert(s.size() == 1, "the swaths of one angle are compared"); return costOf(s.at(0).getPath().at(1).getX(), theW); } };
// stands for the line generator: the swaths of an angle carry the angle
struct Gen : BruteForce { using BruteForce::generateSwaths; F2CSwaths generateSwaths(double a, double w, const F2CCell& c) override { gens++; Swaths s; LineString l; l.addPoint(c.isEmpty() ? -1 : c.getGeometry(0).getX(0), 0); l.addPoint(a, 1); s.emplace_back(l, w, 0); return s; } };
static Cell cellAt(double x) { return Cell(LinearRing({Point(x, 0), Point(x + 1, 0), Point(x, 1), Point(x, 0)})); }
static double stepOf(int n, Gen& g) { double s; if (n == 1) s = num("step", 3.2, 6.28); else { s = num("step", 0.3, 6.4); sx_assume(s * n <= 2 * PI); sx_assume(s * (n + 1) > 2 * PI); } g.setStepAngle(s); sx_assert_eq(g.getStepAngle(), s, "the step is kept"); return s; }
static void checkBest(double best, double step, int n, const Obj& o) {
  double bc = 0; int hit = 0; for (auto& e : evals) if (e.ang == best) { bc = e.cost; hit = 1; } sx_assert(hit, "the best angle is one of the evaluated angles");
  for (auto& e : evals) { if (o.mini) sx_assert_le(bc, e.cost, "no evaluated angle is better"); else sx_assert_le(e.cost, bc, "no evaluated angle is better"); }
  double top = 0; for (auto& e : evals) { double k = e.ang / step; sx_assert_eq(k, std::round(k), "evaluated angles are multiples of the step"); sx_assert_le(0, e.ang, "evaluated angles lie in a turn"); if (e.ang > top) top = e.ang; }
  sx_assert((int)evals.size() == n, "every multiple of the step in a turn is evaluated"); sx_assert_le(PI, top + step, "the half turn is covered at the step");
}
SX_HARNESS(O03_best_angle) {
  Gen g; int n = sx_choose("n", 1, sx_thorough() ? 16 : 8); double step = stepOf(n, g); Obj o; o.mini = sx_choose("minimizing", 0, 1); o.fast = n > 4 || sx_choose("fast", 0, 1); theW = num("width", 1, 9); Cell c = cellAt(3); double b = g.computeBestAngle(o, theW, c); checkBest(b, step, n, o); sx_assert(calls == n && gens == (o.fast ? 0 : n), "every angle is evaluated once");
}
SX_HARNESS(O03_valley) { // an objective that is lowest at one angle, anywhere in the half turn
  BruteForce g; double step = sx_thorough() ? 0.0625 : 0.125; sx_assert(g.getStepAngle() > 0 && g.getStepAngle() < 0.02, "the default step is a degree"); g.setStepAngle(step); struct F : Obj { double a; double computeCost(double ang, double, const F2CCell&) override { return (ang - a) * (ang - a) - 3; } } f; f.mini = true; f.fast = true; f.a = num("valley", 0, PI); double b = g.computeBestAngle(f, 1.0, cellAt(0)); sx_assert_le((b - f.a) * (b - f.a) * 4, step * step, "the best angle is the step nearest to the valley");
}
SX_HARNESS(O03_best_swaths) {
  Gen g; int n = sx_choose("n", 1, 4); double step = stepOf(n, g); Obj o; o.mini = true; o.fast = sx_choose("fast", 0, 1); theW = num("width", 1, 9); Cell c = cellAt(3); Swaths s = g.generateBestSwaths(o, theW, c); sx_assert(s.size() == 1, "the swaths of the best angle"); double ang = s.at(0).getPath().at(1).getX(); checkBest(ang, step, n, o); sx_assert_eq(s.at(0).getWidth(), theW, "swaths are generated at the working width"); sx_assert_eq(s.at(0).getPath().at(0).getX(), 3, "swaths are generated in the cell"); int k = sx_choose("again", 0, n - 1); Swaths t = g.generateSwaths(k * step, theW, c); sx_assert_eq(t.at(0).getPath().at(1).getX(), k * step, "the generator is the one given");
}
SX_HARNESS(O03_cells) { // every cell gets its own best angle
  Gen g; int n = sx_choose("n", 1, 3); double step = stepOf(n, g); struct PerCell : SGObjective { std::vector<double> c[2]; using SGObjective::computeCost; double step; bool isFastCompAvailable() const override { return true; } double computeCost(double a, double, const F2CCell& x) override { int k = x.getGeometry(0).getX(0) > 5; int i = (int)std::lround(a / step); sx_assert(i >= 0 && i < (int)c[k].size(), "evaluated angles are multiples of the step"); return c[k].at(i); } } o; o.step = step; Cells cs; int cells = sx_choose("cells", 0, 2); for (int k = 0; k < cells; k++) { cs.addGeometry(cellAt(k * 10)); for (int i = 0; i < n; i++) o.c[k].push_back(num("c" + std::to_string(k) + std::to_string(i), -10, 10)); }
  SwathsByCells r = g.generateBestSwaths(o, 2.0, cs); sx_assert((int)r.size() == cells, "swaths for every cell"); for (int k = 0; k < cells; k++) { sx_assert(r.at(k).size() == 1, "the swaths of the best angle"); sx_assert_eq(r.at(k).at(0).getPath().at(0).getX(), k * 10, "cells keep their order"); double a = r.at(k).at(0).getPath().at(1).getX(); int b = (int)std::lround(a / step); for (int i = 0; i < n; i++) sx_assert_le(o.c[k].at(b), o.c[k][i], "no evaluated angle is better in its cell"); }
  SwathsByCells q = static_cast<f2c::sg::SwathGeneratorBase&>(g).generateSwaths(1.5, 2.0, cs); sx_assert((int)q.size() == cells, "swaths for every cell"); for (int k = 0; k < cells; k++) { sx_assert_eq(q.at(k).at(0).getPath().at(0).getX(), k * 10, "cells keep their order"); sx_assert_eq(q.at(k).at(0).getPath().at(1).getX(), 1.5, "every cell uses the angle given"); }
}

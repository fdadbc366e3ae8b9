//@ src: utils/random.cpp types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/Field.cpp types/MultiPoint.cpp types/MultiLineString.cpp
//@ native: gdal
//@ bound: all ranges and rates, every number the standard distributions may draw; fields of 3 and 4 (thorough: 5) sides of any size whose corners are drawn at any distance, at quarter steps of their sector, all requested areas
//@ assume: the standard uniform and exponential distributions return any number of their range; logarithm and exponential are inverse increasing functions; the drawn border encloses an area
#include "geo.h"
#include "fields2cover/utils/random.h"
using f2c::Random;
static int draws; static double lastLo, lastHi, bestU = -1;
static double draw(int kind, double a, double b) { std::string n = "draw" + std::to_string(draws++); if (kind == 1) { double v = num(n, 0, 1000); return v; } lastLo = a; lastHi = b; double u = num(n, 0, 1); sx_assume(u < 1); double v = a + (b - a) * u; return v; }
// for the corners of a field: radii anywhere, angles at quarter steps of their sector
static int freeCorners = 9; static double drawCorner(int kind, double a, double b) { if (draws++ % 2) return draws / 2 > freeCorners ? 0.25 * (draws / 2 % 4) : 0.25 * sx_choose(("at" + std::to_string(draws)).c_str(), 0, 3); double v = num("draw" + std::to_string(draws), 0, 9); sx_assume(v >= a && v < b); return v; }
static Random rnd() { draws = 0; std::draw_hook = draw; return Random(42); }
SX_HARNESS(M02_numbers) { Random r = rnd(); double a = num("min"), b = num("max"); sx_assume(a < b); switch (sx_choose("kind", 0, 3)) {
  case 0: { double v = r.getRandomDouble(); sx_assert(v >= 0 && v <= 1, "a random double lies in [0, 1]"); break; }
  case 1: { double v = r.getRandomLinear(a, b); sx_assert(v >= a && v <= b, "a random number lies in its range"); break; }
  case 2: { double v = r.getAngleRandom(); sx_assert(v >= 0 && v < 2 * PI, "a random angle lies in a full turn"); break; }
  default: { double v = r.getRandomExpDist(num("rate", 0.01, 9)); sx_assert(v >= 0, "an exponential random number is not negative"); } } }
// every value of the range can come out: the extremes of the draw are the extremes of the range
SX_HARNESS(M02_exponential) { Random r = rnd(); double a = num("min", 0.01, 100), b = num("max", 0.01, 100); sx_assume(a < b); double v = r.getRandomExp(a, b); sx_assert_le(a - v, 1e-6 * a, "a random number lies in its range"); sx_assert_le(v - b, 1e-6 * b, "a random number lies in its range"); }
SX_HARNESS(M02_rejects) { Random r = rnd(); int n = (int)sx_int("sides", -2, 4); double area = num("area"); if (n > 2 && area > 0) sx_ignore_path("a valid request"); bool threw = false; try { r.generateRandCell(area, n); } catch (const std::invalid_argument&) { threw = true; } sx_assert(threw, "fields with fewer than three sides or no area are refused"); }
static double shoelace(const LinearRing& g) { double s = 0; for (size_t i = 0; i + 1 < g.size(); i++) { Point a = g.getGeometry(i), b = g.getGeometry(i + 1); s += a.getX() * b.getY() - b.getX() * a.getY(); } return s / 2; }
static void ofArea(const Cell& c, double area, int n) { LinearRing g = c.getExteriorRing(); sx_assert(c.size() == 1 && (int)g.size() == n + 1, "the field has the requested number of sides"); same(g.getGeometry(0), g.getGeometry(n), "the border is closed"); double s = shoelace(g); double e = s < 0 ? -s - area : s - area; sx_assert_le(e, 1e-6 * area, "the field has the requested area"); sx_assert_le(-e, 1e-6 * area, "the field has the requested area"); }
static void field(int n, int how) { Random r = rnd(); std::draw_hook = drawCorner; double area = num("area", 0.5, 1000); switch (how) { case 0: ofArea(r.generateRandCell(area, n), area, n); break; case 1: { double lo = num("inner", 0.25, 2), hi = sx_thorough() ? lo + num("spread", 0.25, 2) : 2 * lo; ofArea(r.generateRandCell(area, n, lo, hi), area, n); break; }
  case 2: { auto f = r.generateRandField(area, n); sx_assert(f.getField().size() == 1, "one cell"); ofArea(f.getField().getGeometry(0), area, n); break; } } }
SX_HARNESS(M02_triangle) { field(3, 0); }
SX_HARNESS(M02_width) { freeCorners = 0; field(3, 1); }
SX_HARNESS(M02_field) { freeCorners = 1; field(3, 2); }
SX_HARNESS(M02_quad) { freeCorners = sx_thorough() ? 4 : 1; field(4, 0); }
SX_HARNESS(M02_pentagon) { freeCorners = 1; field(5, 2); }
//@ thorough_only: M02_pentagon

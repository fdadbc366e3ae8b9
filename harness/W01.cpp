//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp objectives/sg_obj/sg_objective.cpp swath_generator/swath_generator_base.cpp swath_generator/brute_force.cpp
//@ native: model
//@ bound: every driving angle over two turns for a fixed triangle anywhere; every quadrangle (one to three free corners) for six driving angles; widths that give up to 4 lines; up to two cells; with and without overlap
//@ assume: GEOS clips a line that crosses the inside of a cell to one or two pieces of that line, possibly with single points where a corner touches a line, and a line outside to nothing
#include "swath_common.h"
#include "ogr_model.h"
#include "fields2cover/swath_generator/brute_force.h"
using f2c::sg::BruteForce;
struct Job { std::vector<Point> ps; double ang, w, c, s, lo, hi, ulo, uhi; std::vector<std::vector<Point>> pieces; std::vector<double> offs; int lines = 0; };
static std::vector<Job> jobs; static int most; static bool twoPieces, anyPiece;
static double u(const Job& j, double x, double y) { return x * j.c + y * j.s; }
static double v(const Job& j, double x, double y) { return y * j.c - x * j.s; }
static void extent(Job& j) { j.c = std::cos(j.ang); j.s = std::sin(j.ang); for (size_t i = 0; i < j.ps.size(); i++) { double a = v(j, j.ps[i].getX(), j.ps[i].getY()), b = u(j, j.ps[i].getX(), j.ps[i].getY()); j.lo = i ? std::fmin(j.lo, a) : a; j.hi = i ? std::fmax(j.hi, a) : a; j.ulo = i ? std::fmin(j.ulo, b) : b; j.uhi = i ? std::fmax(j.uhi, b) : b; } }
static Job& jobOf(const OGRGeometry* poly) { if (wkbFlatten(poly->getGeometryType()) != wkbPolygon) sx_unmodelled("a cell expected"); const OGRLinearRing* r = static_cast<const OGRPolygon*>(poly)->getExteriorRing(); for (auto& j : jobs) { bool eq = r->getNumPoints() == (int)j.ps.size() + 1; for (size_t i = 0; eq && i < j.ps.size(); i++) eq = r->getX(i) == j.ps[i].getX() && r->getY(i) == j.ps[i].getY(); if (eq) return j; } sx_fail("lines are clipped to the field itself"); sx_ignore_path("another field"); return jobs[0]; }
// the contract of clipping: pieces of every line that crosses the inside
static void clip(Job& j, const OGRLineString* l, OGRMultiLineString* out) {
  if (l->getNumPoints() != 2) sx_unmodelled("lines of two points expected"); j.lines++; double va = v(j, l->getX(0), l->getY(0)), vb = v(j, l->getX(1), l->getY(1)), ua = u(j, l->getX(0), l->getY(0)), ub = u(j, l->getX(1), l->getY(1)); sx_assert_eq(va, vb, "lines are parallel to the driving angle");
  double o = va - j.lo; if (!(o > 0 && va < j.hi)) return;
  sx_assert_le(std::fmin(ua, ub), j.ulo, "lines reach across the whole field"); sx_assert_le(j.uhi, std::fmax(ua, ub), "lines reach across the whole field"); j.offs.push_back(o);
  int n = twoPieces ? sx_choose("pieces", 1, 2) : 1; for (int k = 0; k < n; k++) { double t0 = 0.25 + 0.5 * k / n, t1 = t0 + 0.25; if (anyPiece) { std::string id = "piece" + std::to_string(j.pieces.size()); t0 = num(id + ".from", 0.1 + 0.5 * k, 0.25 + 0.5 * k); t1 = t0 + num(id + ".share", 0.0001, 0.2); } auto* q = new OGRLineString(); std::vector<Point> ps; for (double t : {t0, t1}) { double x = l->getX(0) + (l->getX(1) - l->getX(0)) * t, y = l->getY(0) + (l->getY(1) - l->getY(0)) * t; q->addPoint(x, y, 0); ps.push_back(Point(x, y)); } out->addGeometryDirectly(q); j.pieces.push_back(ps); } }
static OGRGeometry* clipAll(const OGRGeometry* a, const OGRGeometry* b) { Job& j = jobOf(b); auto* out = new OGRMultiLineString(); if (wkbFlatten(a->getGeometryType()) == wkbLineString) clip(j, static_cast<const OGRLineString*>(a), out); else if (wkbFlatten(a->getGeometryType()) == wkbMultiLineString) { auto* m = static_cast<const OGRMultiLineString*>(a); for (int i = 0; i < m->getNumGeometries(); i++) clip(j, static_cast<const OGRLineString*>(m->getGeometryRef(i)), out); } else sx_unmodelled("lines expected");
  if (twoPieces && sx_choose("touch", 0, 1)) { // a corner of the border touches a line at a single point
    auto* gc = new OGRGeometryCollection(); int at = sx_choose("touch.first", 0, 1); if (at) gc->addGeometryDirectly(new OGRPoint(1, 2)); for (int i = 0; i < out->getNumGeometries(); i++) gc->addGeometry(out->getGeometryRef(i)); if (!at) gc->addGeometryDirectly(new OGRPoint(1, 2)); delete out; return gc; }
  if (out->getNumGeometries() == 1) { auto* one = out->getGeometryRef(0)->clone(); delete out; return one; } return out; }
static Cell cellOf(const std::vector<Point>& ps) { LinearRing r; for (auto& p : ps) r.addPoint(p); r.addPoint(ps[0]); return Cell(r); }
// the lines of a field: all (k + 1/2) w inside its extent, and the swaths are their pieces
static void check(const Job& j, const Swaths& ss) {
  size_t n = j.offs.size(); std::vector<int> seen(most + 2); double H = j.hi - j.lo;
  for (double o : j.offs) { int k = 0; while (k < most && !(o - (k + 0.5) * j.w <= 1e-7)) k++; sx_assert_eq(o, (k + 0.5) * j.w, "lines lie half a width inside and one width apart"); sx_assert(++seen[k] == 1, "every line is drawn once"); }
  sx_assert_le((n - 0.5) * j.w, H + sx_tol(1e-6), "lines lie inside the field"); sx_assert_le(H, (n + 0.5) * j.w, "at most half a width stays uncovered");
  sx_assert(ss.size() == j.pieces.size(), "every piece of a line is a swath"); if (ss.size() != j.pieces.size()) return; std::vector<int> used(ss.size());
  for (size_t i = 0; i < ss.size(); i++) { sx_assert_eq(ss[i].getWidth(), j.w, "swaths have the working width"); sx_assert(ss[i].getType() == SwathType::MAINLAND, "swaths are of the mainland"); for (size_t k = 0; k < i; k++) sx_assert(ss[k].getId() != ss[i].getId(), "ids are distinct");
    sx_assert(ss[i].numPoints() == 2, "swaths are the clipped lines"); same(ss[i].startPoint(), j.pieces[i][0], "swaths are the clipped lines"); same(ss[i].endPoint(), j.pieces[i][1], "swaths are the clipped lines"); } }
static void add(const std::vector<Point>& ps, double ang, double w) { Job j; j.ps = ps; j.ang = ang; j.w = w; extent(j); sx_assume(j.hi - j.lo < most * w); sx_assume(j.hi - j.lo > 0.25); jobs.push_back(j); }
// a driving angle whose sine and cosine are known rationals
static double turned(int k) { double a = sx_angle("angle", 0, 2 * PI); int c5[] = {5, 4, 0, -3, -5, 3}, s5[] = {0, 3, 5, 4, 0, -4}; double dc = 5 * std::cos(a) - c5[k], ds = 5 * std::sin(a) - s5[k], t = sx_tol(1e-9); sx_assume(dc <= t && dc >= -t && ds <= t && ds >= -t); return a; }
static BruteForce gen() { mdl::hooks.intersection = clipAll; jobs.clear(); BruteForce g; if (sx_choose("overlap", 0, 1)) { g.setAllowOverlap(true); sx_assert(g.getAllowOverlap(), "overlap is allowed when asked"); } return g; }
SX_HARNESS(W01_angle) { most = sx_thorough() ? 4 : 3; BruteForce g = gen(); double x = num("x"), y = num("y"); add({Point(x, y), Point(x + 8, y), Point(x + 2, y + 5)}, sx_angle("angle", -2 * PI, 2 * PI), num("width", 1, 20)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
static std::vector<Point> shape(int n, int fixed) { std::vector<Point> p = {Point(0, 0), Point(16, 4), Point(10, 20)}; std::vector<Point> r; for (int i = 0; i < n; i++) r.push_back(i < fixed ? p[i] : pnt("p" + std::to_string(i), -30, 30)); return r; }
SX_HARNESS(W01_shape) { most = 4; BruteForce g = gen(); add(shape(4, 3), turned(sx_choose("direction", sx_thorough() ? 0 : 1, sx_thorough() ? 5 : 3)), num("width", 1, 40)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
SX_HARNESS(W01_triangle) { most = sx_thorough() ? 3 : 2; BruteForce g = gen(); add(shape(3, sx_thorough() ? 0 : 2), turned(sx_choose("direction", 0, sx_thorough() ? 5 : 1)), num("width", 1, 60)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
SX_HARNESS(W01_pieces) { most = 3; twoPieces = true; BruteForce g = gen(); double x = num("x"); add({Point(x, 0), Point(x + 8, 0), Point(x + 8, 8), Point(x, 8)}, turned(sx_choose("direction", 0, 3)), num("width", 1, 20)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
SX_HARNESS(W01_short) { most = 2; anyPiece = true; BruteForce g = gen(); double x = num("x"); add({Point(x, 0), Point(x + 8, 0), Point(x + 8, 8), Point(x, 8)}, turned(sx_choose("direction", 0, 1) * 4), num("width", 3, 20)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
SX_HARNESS(W01_many) { most = sx_thorough() ? 20 : 14; BruteForce g = gen(); double h = num("height", 1, 90); add({Point(0, 0), Point(8, 0), Point(8, h), Point(0, h)}, turned(sx_choose("direction", 0, 1) * 4), num("width", 1, 20)); check(jobs[0], g.generateSwaths(jobs[0].ang, jobs[0].w, cellOf(jobs[0].ps))); }
SX_HARNESS(W01_cells) { most = 2; BruteForce g = gen(); int n = sx_choose("cells", 0, 2); double w = num("width", 1, 20), a = turned(sx_choose("direction", 0, 3)); Cells cs; for (int k = 0; k < n; k++) { double l = num("l" + std::to_string(k), 1, 30), x = 50.0 * k; add({Point(x, 0), Point(x + l, 0), Point(x + l, l), Point(x, l)}, a, w); cs.addGeometry(cellOf(jobs.back().ps)); } SwathsByCells r = g.generateSwaths(a, w, cs); sx_assert((int)r.size() == n, "one list of swaths per cell"); for (int k = 0; k < n && k < (int)r.size(); k++) check(jobs[k], r.at(k)); }

//@ src: ../fields2cover.cpp
//@ native: model
//@ bound: one rectangular field (upright ones with an arbitrary working width, flat ones with a given width), with room for one or two swaths, no headlands or 0 to 3 headland passes, arbitrary working width different from the robot's width, swaths at a given angle along either axis; paths through each of the four turn planners; fields in their own and in geographic coordinates; two neighbouring squares with one swath each; searching the best angle in one of two quadrangles for each of the five objectives
//@ budget: C01_best 60 120
//@ budget: C01_neighbours 60 300
//@ assume: OR-tools is a stub returning any tour of finite cost, the curve solvers are stubs; GEOS clips and offsets rectangles exactly; coordinate transformations are an arbitrary invertible scaling and shift; the objectives' choice of an angle is S-, O- and W-properties' matter
#include "plan_common.h"
#include "path_common.h"
#include "grid.h"
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
#include "fields2cover.h"
using f2c::types::Route; using f2c::types::Field; using f2c::types::Robot;
struct Box { double x0, y0, x1, y1; };
static double scale, sx0, sy0; // planar = scale * geographic + shift
static void ct(const std::string& from, const std::string& to, double* x, double* y, double*) { bool geo = from == "EPSG:4326", back = to == "EPSG:4326"; sx_assert(geo != back, "planning is done in a planar system"); if (geo) { *x = scale * *x + sx0; *y = scale * *y + sy0; } else { *x = (*x - sx0) / scale; *y = (*y - sy0) / scale; } }
struct Plan { std::vector<Box> cells; double w, cov; f2c::Options opt; bool up; int n; Cells field; int per[2]; };
static bool extend(std::vector<int>& t, std::vector<bool>& used, int cur, int n, int depot, const std::function<bool(int, int)>& ok) { if ((int)t.size() == n - 1) return ok(cur, depot); for (int k = 0; k < n; k++) if (!used[k] && ok(cur, k)) { used[k] = true; t.push_back(k); if (extend(t, used, k, n, depot, ok)) return true; t.pop_back(); used[k] = false; } return false; }
static std::vector<int> firstTour(int n, int depot, const std::function<int64_t(int64_t, int64_t)>& cost, const operations_research::RoutingIndexManager& m) {
  std::vector<int> t; std::vector<bool> used(n); used[depot] = true; auto ok = [&](int a, int b) { return cost(m.NodeToIndex(operations_research::RoutingIndexManager::NodeIndex(a)), m.NodeToIndex(operations_research::RoutingIndexManager::NodeIndex(b))) < NOEDGE / 2; };
  if (!extend(t, used, depot, n, depot, ok)) sx_ignore_path("no finite tour"); return t; }
static Plan plan(int most, int maxcells, double ox = 0, double oy = 0, double size = 1) { // coordinates of the field are those of the plan over size, moved by (ox, oy)
  Plan p; mdl::hooks.intersection = nullptr; grid::install(); operations_research::tour_hook = firstTour; p.w = 2; p.up = sx_choose("upwards", 0, 1); p.cov = p.up ? num("coverage", 3.75, 3.99) : 3.75;
  int k = sx_choose("headlands", 0, 4); p.opt.hg_alg = k == 4 ? f2c::HGAlg::NONE : f2c::HGAlg::CONST; p.opt.hg_swaths = k == 4 ? 3 : k; p.n = k == 4 ? 0 : k; p.opt.sg_alg = f2c::SGAlg::GIVEN_ANGLE; p.opt.sg_angle = p.up ? 1.5707963267948966 : 0;
  int cells = maxcells > 1 ? sx_choose("cells", 1, maxcells) : 1;
  for (int i = 0; i < cells; i++) { std::string s = "cell" + std::to_string(i); int per = sx_choose((s + ".swaths").c_str(), 1, most); p.per[i] = per; double across = 4.5 * per + 4 * p.n, length = (sx_thorough() ? num(s + ".length", 8, 9) : 8.5) + 4 * p.n;
    Box b{100.0 * i, 50.0 * i, 0, 0}; b.x1 = b.x0 + (p.up ? across : length); b.y1 = b.y0 + (p.up ? length : across); p.cells.push_back(b);
    auto q = [&](double x, double y) { return Point(x / size + ox, y / size + oy); }; p.field.addGeometry(Cell(LinearRing({q(b.x0, b.y0), q(b.x1, b.y0), q(b.x1, b.y1), q(b.x0, b.y1), q(b.x0, b.y0)}))); }
  return p;
}
// the route in plan coordinates (out = in / size + o)
static void check(const Plan& p, const Route& r, double ox = 0, double oy = 0, double size = 1, double width = 1) {
  auto in = [&](const Point& q) { return Point((q.getX() - ox) * size, (q.getY() - oy) * size); }; int total = 0; std::vector<std::vector<int>> seen(p.cells.size(), std::vector<int>(4, 0)); double m = p.w * p.n, rg = p.opt.hg_alg == f2c::HGAlg::CONST && p.n > 0 ? p.w * (p.n / 2 + 0.5) : 0;
  auto near = [](double a, double b) { return a - b <= 1e-6 && b - a <= 1e-6; };
  for (size_t g = 0; g < r.sizeVectorSwaths(); g++) { auto& ss = r.getSwaths(g); for (size_t i = 0; i < ss.size(); i++) { auto& s = ss[i]; total++; Point a = in(s.startPoint()), b = in(s.endPoint()); int c = a.getX() < 80 ? 0 : 1; sx_assert(c < (int)p.cells.size(), "swaths lie in the field"); const Box& f = p.cells[c]; sx_assert(s.numPoints() == 2, "swaths are straight");
    double ua = p.up ? a.getX() - f.x0 : a.getY() - f.y0, ub = p.up ? b.getX() - f.x0 : b.getY() - f.y0, va = p.up ? a.getY() : a.getX(), vb = p.up ? b.getY() : b.getX(), lo = (p.up ? f.y0 : f.x0) + m, hi = (p.up ? f.y1 : f.x1) - m; sx_assert(near(ua, ub), "swaths run along the angle asked for");
    sx_assert((near(va, lo) && near(vb, hi)) || (near(va, hi) && near(vb, lo)), "swaths cross the mainland from one headland to the other"); double H = (p.up ? f.x1 - f.x0 : f.y1 - f.y0) - 2 * m; int k = 0; while (k < p.per[c] && !near(ua, m + (k + 0.5) * p.cov) && !near(ua, m + H - (k + 0.5) * p.cov)) k++; sx_assert(k < p.per[c], "swaths lie a working width apart inside the mainland");
    bool low = near(ua, m + (k + 0.5) * p.cov); if (!low) k = p.per[c] - 1 - k; seen[c][k]++; sx_assert(near(s.getWidth(), p.cov), "swaths have the working width"); } }
  int want = 0; for (size_t c = 0; c < p.cells.size(); c++) for (int k = 0; k < p.per[c]; k++) { want++; sx_assert(seen[c][k] == 1, "every swath is driven once"); } sx_assert(total == want, "every swath is driven once");
  for (size_t i = 0; i < r.sizeConnections(); i++) { auto c = r.getConnection(i); for (size_t k = 0; k < c.size(); k++) { Point q = in(c[k]); const Box& f = p.cells[q.getX() < 80 || p.cells.size() == 1 ? 0 : 1]; double d = rg - 1e-6, x = std::fmin(q.getX() - f.x0, f.x1 - q.getX()), y = std::fmin(q.getY() - f.y0, f.y1 - q.getY()); sx_assert(x >= d && y >= d, "connections keep inside the ring used for transport"); sx_assert(near(std::fmin(x, y), rg) || near(std::fmin(x, y), m) , "connections follow the ring between swath ends"); } }
  sx_reach("planned");
}
SX_HARNESS(C01_cells) { Plan p = plan(2, 1); Robot r(p.w, p.cov); bool one = sx_choose("as cell", 0, 1); check(p, one ? f2c::planCovRoute(r, p.field.getGeometry(0), p.opt) : f2c::planCovRoute(r, p.field, p.opt)); }
// a rectangle 1024 times smaller, far from its system's origin; shared by the field harnesses
static const double LON = 9, LAT = 45; static Field field(const Plan& p, bool local) { Field f(p.field, "parcel"); if (!local) f.setCRS("EPSG:4326"); return f; }
static void unchanged(const Field& f, const Field& g) { sx_assert(f.getCRS() == g.getCRS() && f.getPrevCRS() == g.getPrevCRS() && f.getId() == g.getId(), "the field given is not changed"); same(f.getRefPoint(), g.getRefPoint(), "the field given is not changed"); auto a = f.getField(), b = g.getField(); sx_assert(a.size() == b.size(), "the field given is not changed"); for (size_t i = 0; i < a.size(); i++) { auto r = a.getGeometry(i).getExteriorRing(), t = b.getGeometry(i).getExteriorRing(); sx_assert(r.size() == t.size(), "the field given is not changed"); for (size_t k = 0; k < r.size(); k++) same(r[k], t[k], "the field given is not changed"); } }
SX_HARNESS(C01_local) { Plan p = plan(2, 1, 300, 400); Robot r(p.w, p.cov); Field f = field(p, true), g = field(p, true); Route t = f2c::planCovRoute(r, f, p.opt, true); unchanged(f, g); check(p, t); } // relative to the field's reference point
SX_HARNESS(C01_geographic) { scale = 1024; sx0 = 64; sy0 = -32; mdl::hooks.ctmap = ct; Plan p = plan(2, 1, LON, LAT, 1024); Robot r(p.w, p.cov); Field f = field(p, false), g = field(p, false); Route t = f2c::planCovRoute(r, f, p.opt, false); unchanged(f, g); check(p, t, LON, LAT, 1024); }
static std::vector<int> kinds; static std::vector<steer::State> hop(const steer::Setup& s, const steer::State& a, const steer::State& b) { kinds.push_back(s.kind); return {a, b}; }
static std::vector<steer::Control> steady(const steer::Setup& s, const steer::State&, const steer::State&) { kinds.push_back(s.kind); return {{1.0, 0.0, 0}}; }
static void samePath(const Path& a, const Path& b) { sx_assert(a.size() == b.size(), "the path drives the route"); for (size_t i = 0; i < a.size() && i < b.size(); i++) { same(a[i].point, b[i].point, "the path drives the route"); sx_assert_eq(a[i].angle, b[i].angle, "the path drives the route"); sx_assert_eq(a[i].len, b[i].len, "the path drives the route"); sx_assert(a[i].type == b[i].type && a[i].dir == b[i].dir, "the path drives the route"); } }
static void clothoid(double, double, double, double, double, double, double, double* x, double* y, double* a, double* k) { *x = 0.25; *y = -2; *a = 0; *k = 0.5; }
static void paths(int how) { // how: 0 cell, 1 cells, 2 field
  if (how == 2) { scale = 1024; sx0 = 64; sy0 = -32; mdl::hooks.ctmap = ct; } bool geo = how == 2 && sx_choose("geographic", 0, 1); steer::path_hook = hop; steer::control_hook = steady; steer::clothoid_hook = clothoid;
  Plan p = geo ? plan(2, 1, LON, LAT, 1024) : plan(2, 1); Robot r(p.w, p.cov); r.setMaxCurv(0.5); r.setMaxDiffCurv(0.5); int k = sx_choose("planner", 0, 3); static const f2c::PPAlg algs[] = {f2c::PPAlg::DUBINS, f2c::PPAlg::DUBINS_CC, f2c::PPAlg::REEDS_SHEPP, f2c::PPAlg::REEDS_SHEPP_HC}; static const int want[] = {0, 2, 1, 4}; p.opt.pp_alg = algs[k];
  Field f = field(p, !geo); Path a = how == 0 ? f2c::planCovPath(r, p.field.getGeometry(0), p.opt) : how == 1 ? f2c::planCovPath(r, p.field, p.opt) : f2c::planCovPath(r, f, p.opt, !geo);
  for (int q : kinds) sx_assert(q == want[k], "the turn planner asked for makes the turns");
  f2c::pp::DubinsCurves d; f2c::pp::DubinsCurvesCC dc; f2c::pp::ReedsSheppCurves rs; f2c::pp::ReedsSheppCurvesHC rh; f2c::pp::TurningBase* all[] = {&d, &dc, &rs, &rh}; Field h = field(p, !geo); if (geo) f2c::Transform::transformToUTM(h);
  Route t = f2c::planCovRoute(r, how == 2 ? h.getField() : p.field, p.opt); Path b = f2c::pp::PathPlanning::planPath(r, t, *all[k]); if (geo) b = f2c::Transform::transformToPrevCRS(b, h);
  samePath(a, b); sx_reach("driven"); }
SX_HARNESS(C01_path_cells) { paths(sx_choose("as cells", 0, 1)); }
SX_HARNESS(C01_path_field) { paths(2); }
// the best swaths for the objective asked for
static OGRGeometry* slab(const OGRGeometry* g, double d) { if (wkbFlatten(g->getGeometryType()) == wkbMultiLineString) { auto* m = new OGRMultiPolygon(); auto* c = static_cast<const OGRMultiLineString*>(g); for (int i = 0; i < c->getNumGeometries(); i++) m->addGeometryDirectly(slab(c->getGeometryRef(i), d)); return m; }
  if (wkbFlatten(g->getGeometryType()) != wkbLineString) return grid::buffer(g, d); auto* l = static_cast<const OGRLineString*>(g); auto* o = new OGRPolygon(); if (l->getNumPoints() < 2) return o; double x = l->getX(1) - l->getX(0), y = l->getY(1) - l->getY(0), n = std::sqrt(x * x + y * y), u = -y / n * d, v = x / n * d;
  OGRLinearRing r; r.addPoint(l->getX(0) + u, l->getY(0) + v, 0.0); r.addPoint(l->getX(0) - u, l->getY(0) - v, 0.0); r.addPoint(l->getX(1) - u, l->getY(1) - v, 0.0); r.addPoint(l->getX(1) + u, l->getY(1) + v, 0.0); r.addPoint(l->getX(0) + u, l->getY(0) + v, 0.0); o->addRing(&r); return o; }
static OGRGeometry* heap(const OGRGeometry* a, const OGRGeometry* b) { auto* m = new OGRMultiPolygon(); for (auto* g : {a, b}) { if (wkbFlatten(g->getGeometryType()) == wkbPolygon) { if (!g->IsEmpty()) m->addGeometry(g); } else { auto* c = static_cast<const OGRMultiPolygon*>(g); for (int i = 0; i < c->getNumGeometries(); i++) m->addGeometry(c->getGeometryRef(i)); } } return m; }
static OGRGeometry* common(const OGRGeometry* a, const OGRGeometry* b) { auto poly = [](const OGRGeometry* g) { auto t = wkbFlatten(g->getGeometryType()); return t == wkbPolygon || t == wkbMultiPolygon; }; return poly(a) && poly(b) ? a->clone() : nullptr; }
static bool touch(const OGRGeometry*, const OGRGeometry*) { return true; }
static void drives(const Route& t, const f2c::types::SwathsByCells& want, double width, const char* msg) {
  size_t seen = 0, total = 0, all = 0; for (size_t g = 0; g < t.sizeVectorSwaths(); g++) for (auto& s : t.getSwaths(g)) { total++; sx_assert_eq(s.getWidth(), width, "swaths have the working width"); bool found = false; for (auto& c : want) for (auto& w : c) { auto close = [](const Point& a, const Point& b) { double x = a.getX() - b.getX(), y = a.getY() - b.getY(); return x < 1e-6 && x > -1e-6 && y < 1e-6 && y > -1e-6; }; if (!found) found = (close(w.startPoint(), s.startPoint()) && close(w.endPoint(), s.endPoint())) || (close(w.startPoint(), s.endPoint()) && close(w.endPoint(), s.startPoint())); } seen += found; }
  for (auto& c : want) all += c.size(); sx_assert(all >= 2, "there are swaths"); sx_assert(total == all && seen == total, msg); }
SX_HARNESS(C01_best) {
  mdl::hooks.intersection = common; mdl::hooks.unionop = heap; mdl::hooks.buffer = slab; mdl::hooks.intersects = touch; operations_research::tour_hook = firstTour;
  f2c::Options o; o.hg_alg = f2c::HGAlg::NONE; o.sg_alg = f2c::SGAlg::BRUTE_FORCE; o.sg_angle = 0.75; static const f2c::SGObjFunc kinds[] = {f2c::SGObjFunc::N_SWATH_MOD, f2c::SGObjFunc::N_SWATH, f2c::SGObjFunc::SWATH_LENGTH, f2c::SGObjFunc::FIELD_COV, f2c::SGObjFunc::OVERLAPS}; int k = sx_choose("objective", 0, 4); o.sg_obj = kinds[k];
  Cells field; int n = 1; for (int i = 0; i < n; i++) { double x = 100 * i, y = 50 * i, X = x + 7, Y = y + 4.5, t = sx_choose("slanted", 0, 1); field.addGeometry(Cell(LinearRing({Point(x, y), Point(X, y + t), Point(X + t, Y), Point(x, Y), Point(x, y)}))); }
  Robot r(num("robot", 0.5, 20), 2.25); f2c::obj::NSwathModified o0; f2c::obj::NSwath o1; f2c::obj::SwathLength o2; f2c::obj::FieldCoverage o3; f2c::obj::Overlaps o4; f2c::obj::SGObjective* all[] = {&o0, &o1, &o2, &o3, &o4}; f2c::sg::BruteForce bf; auto want = bf.generateBestSwaths(*all[k], 2.25, field);
  Route t = f2c::planCovRoute(r, field, o); drives(t, want, 2.25, "the swaths are the best ones for the objective asked for"); sx_reach(std::to_string(k).c_str());
}
// two cells side by side
SX_HARNESS(C01_neighbours) {
  mdl::hooks.intersection = nullptr; grid::install(); operations_research::tour_hook = firstTour; steer::path_hook = hop; steer::control_hook = steady; steer::clothoid_hook = clothoid;
  f2c::Options o; o.hg_alg = f2c::HGAlg::NONE; o.sg_alg = f2c::SGAlg::GIVEN_ANGLE; bool up = sx_choose("upwards", 0, 1), out = sx_choose("side by side", 0, 1); o.sg_angle = up ? 1.5707963267948966 : 0; double cov = sx_thorough() ? num("coverage", 3.75, 3.99) : 3.75, y = 3;
  Cells field; for (int i = 0; i < 2; i++) { double a = out ? 4.5 * i : 0, b = y + (out ? 0 : 4.5 * i); field.addGeometry(Cell(LinearRing({Point(a, b), Point(a + 4.5, b), Point(a + 4.5, b + 4.5), Point(a, b + 4.5), Point(a, b)}))); }
  Robot r(num("robot", 1, 9), cov); r.setMaxCurv(0.5); r.setMaxDiffCurv(0.5); f2c::sg::BruteForce bf; auto want = bf.generateSwaths(o.sg_angle, cov, field); Route t = f2c::planCovRoute(r, field, o); drives(t, want, cov, "every cell is driven");
  f2c::pp::DubinsCurves d; samePath(f2c::planCovPath(r, field, o), f2c::pp::PathPlanning::planPath(r, t, d)); sx_reach("neighbours");
}

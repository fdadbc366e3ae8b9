//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/Field.cpp types/Strip.cpp types/Swath.cpp types/Swaths.cpp types/Path.cpp types/PathState.cpp utils/transformation.cpp utils/parser.cpp
//@ native: gdal
//@ libs: -ltinyxml2
//@ bound: paths of up to 3 states with arbitrary positions, headings, velocities, lengths, directions and kinds, saved with 1 to 17 digits, loaded into an empty or a filled path; files of up to 2 fields, cells, swaths or strips with arbitrary coordinates in two or three dimensions, with no, one or four holes, and with names that need escapes; fields in XML with 3 or 4 corners, with tabs and line ends between tuples; one large size (9 states or features)
//@ assume: a number printed with p digits is read back within half a unit of its p-th digit (the printing and parsing of numbers in the C++ library is not encoded); files are read back as written
#include <sys/mman.h>
#include <fstream>
#include <sstream>
#include <iomanip>
#include "path_common.h"
#include "fields2cover/utils/parser.h"
#include "fields2cover/types/Field.h"
using f2c::types::Field; using f2c::types::Strip; using f2c::Parser;
// files in memory: each path of the run has its own, and nothing is left behind
static std::string name() { return "/proc/self/fd/" + std::to_string(memfd_create("m03", 0)); }
static std::string write(const std::string& s) { std::string f = name(); std::ofstream o(f); o << s; o.close(); return f; }
static std::string T(double v) { std::stringstream s; s << std::setprecision(17) << v; return s.str(); }
static double ten(int k) { double e = 1; for (int i = 0; i < k; i++) e /= 10; return e; }
static void close(double a, double b, int p, const char* m) { double e = ten(p - 1) * (b < 0 ? -b : b) + 1e-300; sx_assert_le(a - b, e, m); sx_assert_le(b - a, e, m); }
SX_HARNESS(M03_path) { int n = sx_size("states", 0, 3, 9), given = sx_choose("digits", 0, 3); static const int digits[] = {6, 1, 9, 17}; int p = digits[given]; Path a; std::vector<St> rec;
  for (int i = 0; i < n; i++) { std::string s = "s" + std::to_string(i); St t{num(s + ".x", 0.01, 90), num(s + ".y", -90, -0.01), i ? 0 : num(s + ".z", 0.01, 9), sx_double((s + ".ang").c_str(), 0.001, 7), num(s + ".len", 0.01, 20), num(s + ".vel", i ? 1 : -5, i ? 5 : -1), 0, 0}; t.dir = i ? -1 : sx_choose("direction", -1, 1); if (t.dir == 0) t.dir = 1; t.type = (i + 1) % 3 + (i ? 0 : sx_choose("kind", 0, 1)); PathState q; q.point = Point(t.x, t.y, t.z); q.angle = t.ang; q.len = t.len; q.velocity = t.vel; q.dir = (PathDirection)t.dir; q.type = (PathSectionType)t.type; a.addState(q); rec.push_back(t); }
  std::string f = name(); if (given) a.saveToFile(f, p); else a.saveToFile(f); Path b; bool filled = sx_choose("filled", 0, 1); if (filled) b.addState(Point(1, 2), 3, 4); b.loadFile(f); sx_assert(a.size() == (size_t)n, "saving leaves the path alone"); size_t o = filled ? 1 : 0; sx_assert(b.size() == o + n, "as many states are read as were saved"); if (filled) { sx_assert_eq(b[0].angle, 3, "states read follow those already there"); }
  for (int i = 0; i < n; i++) { auto& s = b[o + i]; auto& t = rec[i]; close(s.point.getX(), t.x, p, "positions are read back as saved"); close(s.point.getY(), t.y, p, "positions are read back as saved"); close(s.point.getZ(), t.z, p, "positions are read back as saved"); close(s.angle, t.ang, p, "headings are read back as saved"); close(s.len, t.len, p, "lengths are read back as saved"); close(s.velocity, t.vel, p, "velocities are read back as saved"); sx_assert((int)s.dir == t.dir, "driving directions are read back as saved"); sx_assert((int)s.type == t.type, "kinds are read back as saved"); }
  sx_reach("path"); }
using T3 = std::vector<double>; using R = std::vector<T3>;
static T3 tri(const std::string& n, int dim) { T3 t{num(n + ".x"), num(n + ".y")}; if (dim == 3) t.push_back(num(n + ".z")); return t; }
static R ring(const std::string& n, int corners, int dim) { R r; for (int i = 0; i < corners; i++) r.push_back(tri(n + ".p" + std::to_string(i), dim)); r.push_back(r[0]); return r; }
static std::string js(const T3& t) { std::string s = "["; for (size_t i = 0; i < t.size(); i++) s += (i ? ", " : "") + T(t[i]); return s + "]"; }
static std::string js(const R& r) { std::string s = "["; for (size_t i = 0; i < r.size(); i++) s += (i ? ", " : "") + js(r[i]); return s + "]"; }
static std::string js(const std::vector<R>& c) { std::string s = "["; for (size_t i = 0; i < c.size(); i++) s += (i ? ", " : "") + js(c[i]); return s + "]"; }
static void at(const Point& p, const T3& t, double ox, double oy, double oz, const char* m) { sx_assert_eq(p.getX() + ox, t[0], m); sx_assert_eq(p.getY() + oy, t[1], m); sx_assert_eq(p.getZ() + oz, t.size() > 2 ? t[2] : 0, m); }
static void cellIs(const Cell& c, const std::vector<R>& v, double ox = 0, double oy = 0, double oz = 0) { sx_assert(c.size() == v.size(), "every border is read"); for (size_t i = 0; i < v.size() && i < c.size(); i++) { auto r = c.getGeometry(i); sx_assert(r.size() == v[i].size(), "every corner is read"); for (size_t k = 0; k < v[i].size() && k < r.size(); k++) at(r[k], v[i][k], ox, oy, oz, "corners are read where they are"); } }
static std::vector<R> cell(const std::string& n, int dim) { std::vector<R> v; v.push_back(ring(n, 3, dim)); int holes = sx_choose((n + ".holes").c_str(), 0, 2); if (holes == 2) holes = 4; for (int k = 0; k < holes; k++) v.push_back(ring(n + ".h" + std::to_string(k), 3, dim)); return v; }
static std::string feature(const std::string& prop, const std::string& type, const std::string& coords) { return "{ \"type\": \"Feature\", \"properties\": { " + prop + " }, \"geometry\": { \"type\": \"" + type + "\", \"coordinates\": " + coords + " } }"; }
static std::string file(const std::vector<std::string>& fs) { std::string s = "{\n \"type\": \"FeatureCollection\", \"name\": \"x\", \"features\": [\n"; for (size_t i = 0; i < fs.size(); i++) s += (i ? ",\n" : "") + fs[i]; return write(s + "\n] }\n"); }
static const char *names[] = {"north", "the \"old\" mill"}, *escaped[] = {"north", "the \\\"old\\\" mill"};
static void fields(int what) { sx_option("ite", 1); int n = sx_choose("features", what == 2 ? 1 : 0, 2), dim = sx_choose("dimensions", 2, 3); std::vector<std::vector<R>> cs; std::vector<std::string> fs;
  for (int i = 0; i < n; i++) { cs.push_back(cell("c" + std::to_string(i), dim)); fs.push_back(feature(std::string(what == 1 ? "\"crop_id\": \"" : "\"Name\": \"") + escaped[i] + "\"", "Polygon", js(cs[i]))); }
  std::string f = file(fs);
  if (what == 0) { F2CFields v; bool some = sx_choose("some", 0, 1); if (some) v.push_back(Field()); Parser::importJson(f, v); size_t o = some; sx_assert(v.size() == o + n, "every field is read"); for (int i = 0; i < n; i++) { auto& q = v[o + i]; sx_assert(q.getId() == names[i], "fields keep their name"); sx_assert(q.getField().size() == 1, "one cell per feature"); Point r = q.getRefPoint(); cellIs(q.getField().getGeometry(0), cs[i], r.getX(), r.getY(), r.getZ()); } }
  if (what == 1) { auto v = Parser::importStripsJson(f); sx_assert((int)v.size() == n, "every strip is read"); for (int i = 0; i < n; i++) { sx_assert(v[i].getName() == names[i], "strips keep their crop"); cellIs(v[i].getCell(), cs[i]); } }
  if (what == 2) { Cell c = Parser::importCellJson(f); cellIs(c, cs[0]); }
  sx_reach("fields"); }
SX_HARNESS(M03_fields) { fields(0); }
SX_HARNESS(M03_strips) { fields(1); }
SX_HARNESS(M03_cell) { fields(2); }
SX_HARNESS(M03_swaths) { sx_option("ite", 1); int n = sx_size("features", 0, 2, 9), dim = sx_choose("dimensions", 2, 3); std::vector<R> ls; std::vector<double> w; std::vector<std::string> fs; static const int ids[] = {44, 3};
  for (int i = 0; i < n; i++) { std::string s = "l" + std::to_string(i); R l; int m = 2 + i; for (int k = 0; k < m; k++) l.push_back(tri(s + ".p" + std::to_string(k), dim)); ls.push_back(l); w.push_back(num(s + ".w", 0.1, 9)); fs.push_back(feature("\"path_id\": " + std::to_string(ids[i]) + ", \"width\": " + T(w[i]), "LineString", js(l))); }
  std::string f = file(fs); Swaths v = Parser::importSwathsJson(f); sx_assert((int)v.size() == n, "every swath is read"); for (int i = 0; i < n; i++) { sx_assert(v[i].getId() == ids[i], "swaths keep their id"); sx_assert_eq(v[i].getWidth(), w[i], "swaths keep their width"); sx_assert(v[i].numPoints() == ls[i].size(), "every point is read"); for (size_t k = 0; k < ls[i].size(); k++) at(v[i].getPoint(k), ls[i][k], 0, 0, 0, "points are read where they are"); }
  sx_reach("swaths"); }
static std::string tuples(const R& r, const char* sep) { std::string s; for (size_t i = 0; i < r.size(); i++) { if (i) s += sep; for (size_t k = 0; k < r[i].size(); k++) s += (k ? "," : "") + T(r[i][k]); } return s; }
static std::string gring(const char* kind, const std::string& t) { return std::string("<gml:") + kind + "><gml:LinearRing><gml:coordinates>" + t + "</gml:coordinates></gml:LinearRing></gml:" + kind + ">\n"; }
SX_HARNESS(M03_gml) { int dim = sx_choose("dimensions", 2, 3), corners = sx_choose("corners", 3, 4), holes = sx_choose("holes", 0, 2), layout = sx_choose("layout", 0, 2); std::vector<R> v{ring("c", corners, dim)}; for (int i = 0; i < holes; i++) v.push_back(ring("h" + std::to_string(i), 3, dim));
  const char* sep = layout == 1 ? "\n\t\t" : " "; std::string pad = layout ? "\n  " : ""; std::string x = "<GAOS_parcel"; bool id = sx_choose("named", 0, 1); if (id) x += " id=\"91-a7\""; x += ">\n<Field id=\"boundary\"><geometry>\n<gml:Polygon xmlns:gml=\"http://www.opengis.net/gml\" srsName=\"EPSG:4258\">\n" + gring("outerBoundaryIs", pad + tuples(v[0], sep) + pad); for (int i = 0; i < holes; i++) x += gring("innerBoundaryIs", pad + tuples(v[i + 1], sep)); x += "</gml:Polygon></geometry></Field></GAOS_parcel>\n";
  std::string f = write(x); Field q = Parser::importFieldGml(f); sx_assert(q.getId() == (id ? "91-a7" : ""), "fields keep their name"); sx_assert(q.getCRS() == "EPSG:4258", "fields keep their coordinate system"); sx_assert(q.getField().size() == 1, "one cell per file"); Point r = q.getRefPoint(); cellIs(q.getField().getGeometry(0), v, r.getX(), r.getY(), r.getZ()); sx_reach("gml"); }
SX_HARNESS(M03_missing) { bool bad = false; try { Parser::importFieldGml("/nonexistent/no.xml"); } catch (const std::invalid_argument&) { bad = true; } sx_assert(bad, "a file that is not there is refused"); Path p; p.addState(Point(1, 2), 3, 4); p.loadFile("/nonexistent/no.txt"); sx_assert(p.size() == 1, "a file that is not there adds nothing"); sx_reach("missing"); }

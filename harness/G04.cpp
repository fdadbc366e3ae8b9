//@ src: types/Graph.cpp types/Graph2D.cpp types/Point.cpp
//@ native: gdal
//@ bound: graphs over 3 of 8 chosen points (negative, mirrored, 3D, far and near ones), built by 3 edges between arbitrary pairs with arbitrary costs 0..50, optionally removing one; default costs of edges between points at arbitrary places on a line; costs taken from an arbitrary directed graph of 3 points; a chain of 9 to 14 points; one graph over 9 to 14 points
//@ assume: two points are either the same or differ by more than the point tolerance (1e-7); path costs stay below every infinite cost used
#include "graph_common.h"
#include "fields2cover/types/Graph2D.h"
using f2c::types::Graph2D; using f2c::types::Point;
static const double pts[8][3] = {{0, 0, 0}, {1, 2, 0}, {2, 1, 0}, {-1, -2, 0}, {1, 2, 3}, {-2.5, 1e4, 0}, {0.25, 0.5, 0}, {0.25, 0.5000004, 0}};
static Point at(int k) { return Point(pts[k][0], pts[k][1], pts[k][2]); }
static bool eq(const Point& a, const Point& b) { return a.getX() == b.getX() && a.getY() == b.getY() && a.getZ() == b.getZ(); }
static bool unknown(const Graph2D& g, const Point& p) { try { g.nodeToIndex(p); } catch (const std::out_of_range&) { return true; } return false; }
static void names(const Graph2D& g, const std::vector<Point>& used) {
  sx_assert(g.numNodes() == used.size(), "one node for each distinct point"); std::vector<bool> seen(used.size()); auto nodes = g.getNodes(); sx_assert(nodes.size() == used.size(), "the nodes are the points");
  for (auto& p : used) { size_t i = g.nodeToIndex(p); sx_assert(i < used.size(), "indices are dense"); sx_assert(!seen[i], "distinct points have distinct indices"); seen[i] = true; sx_assert(eq(g.indexToNode(i), p), "index to point undoes point to index"); int c = 0; for (auto& q : nodes) c += eq(q, p); sx_assert(c == 1, "each node is listed once"); }
  for (int k = 0; k < 8; k++) { bool u = false; for (auto& p : used) u = u || eq(p, at(k)); if (!u) sx_assert(unknown(g, at(k)), "an unknown point is rejected"); }
  bool threw = false; try { g.indexToNode(used.size()); } catch (const std::out_of_range&) { threw = true; } sx_assert(threw, "an unknown index is rejected");
}
static int use(std::vector<Point>& u, const Point& p) { for (size_t i = 0; i < u.size(); i++) if (eq(u[i], p)) return (int)i; u.push_back(p); return (int)u.size() - 1; }
SX_HARNESS(G04_names) { Graph2D g; std::vector<Point> used; int e = sx_choose("edges", 0, 2); for (int k = 0; k < e; k++) { std::string s = std::to_string(k); Point a = at(sx_choose(("from" + s).c_str(), 0, 7)), b = at(sx_choose(("to" + s).c_str(), 0, 7)); int64_t c = sx_int(("cost" + s).c_str(), 0, 9); use(used, a); use(used, b); if (sx_choose(("both" + s).c_str(), 0, 1)) g.addEdge(a, b, c); else g.addDirectedEdge(a, b, c); } names(g, used); }
static void answers(Graph2D& g, const std::vector<Point>& p, Ora o, int64_t INF) {
  size_t n = p.size(); for (size_t i = 0; i < n; i++) o.ids[i] = g.nodeToIndex(p[i]);
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
    auto all = o.simple(a, b); auto got = g.allPathsBetween(p[a], p[b]); 
    if (a != b) { sx_assert(got.size() == all.size(), "the listed paths are those of the index graph"); for (auto& q : all) { int c = 0; for (auto& r : got) { bool m = r.size() == q.size(); for (size_t k = 0; m && k < q.size(); k++) m = eq(r[k], p[q[k]]); c += m; } sx_assert(c == 1, "the listed paths are those of the index graph"); } }
    judge(g, o, a, b, INF);
    int64_t ic = static_cast<Graph&>(g).shortestPathCost(o.ids[a], o.ids[b], INF); sx_assert(g.shortestPathCost(p[a], p[b], INF) == ic, "costs asked with points are those of the index graph");
    auto ip = static_cast<Graph&>(g).shortestPath(o.ids[a], o.ids[b], INF); auto pp = g.shortestPath(p[a], p[b], INF); sx_assert(pp.size() == ip.size(), "paths asked with points are those of the index graph"); for (size_t k = 0; k < ip.size(); k++) sx_assert(eq(pp[k], g.indexToNode(ip[k])), "paths asked with points are those of the index graph"); }
}
static void build(Graph2D& g, Ora& o, const std::vector<Point>& p, int edges, const char* tag) {
  static const int P[6][2] = {{0,1},{1,2},{2,0},{1,0},{2,1},{0,2}};
  for (int k = 0; k < edges; k++) { std::string s = tag + std::to_string(k); int e = sx_choose((s + "edge").c_str(), 0, 5); int64_t c = sx_int((s + "cost").c_str(), 0, 50); bool both = k == 0 && sx_choose((s + "both").c_str(), 0, 1); int i = P[e][0], j = P[e][1];
    if (both) { g.addEdge(p[i], p[j], c); o.on[j][i] = true; o.c[j][i] = c; } else g.addDirectedEdge(p[i], p[j], c); o.on[i][j] = true; o.c[i][j] = c; }
}
SX_HARNESS(G04_translate) {
  static const int sets[4][3] = {{0, 1, 2}, {4, 1, 3}, {6, 7, 5}, {3, 5, 4}}; auto& s = sets[sx_thorough() ? sx_choose("points", 0, 3) : sx_choose("points", 1, 2)]; std::vector<Point> p{at(s[0]), at(s[1]), at(s[2])}; Ora o({0, 1, 2}); Graph2D g;
  g.addDirectedEdge(p[2], p[1], 7); g.addDirectedEdge(p[1], p[0], 9); o.on[2][1] = o.on[1][0] = true; o.c[2][1] = 7; o.c[1][0] = 9; build(g, o, p, sx_thorough() ? 3 : 2, "e");
  int rm = sx_choose("remove", 0, 2); if (rm == 1) { g.removeEdge(p[0], p[1]); o.on[0][1] = o.on[1][0] = false; } if (rm == 2) { g.shortestPathCost(p[0], p[1]); g.removeDirectedEdge(p[2], p[1]); o.on[2][1] = false; }
  answers(g, p, o, sx_int("inf", 1000, 100000)); }
SX_HARNESS(G04_default_cost) { // integral-metre floor cells are split by the hash; the places are arbitrary
  double x[3]; Graph2D g; for (int i = 0; i < 3; i++) x[i] = sx_double(("x" + std::to_string(i)).c_str(), i * 2, i * 2 + 1.5);
  Point a(x[0], 0), b(x[1], 0), c(x[2], 0); g.addEdge(a, b); g.addDirectedEdge(c, b); g.addDirectedEdge(a, c); 
  int64_t ab = g.getCostFromEdge(g.nodeToIndex(a), g.nodeToIndex(b)), ba = g.getCostFromEdge(g.nodeToIndex(b), g.nodeToIndex(a)), cb = g.getCostFromEdge(g.nodeToIndex(c), g.nodeToIndex(b)), ac = g.getCostFromEdge(g.nodeToIndex(a), g.nodeToIndex(c));
  sx_assert(ab == ba, "the default cost does not depend on the direction"); sx_assert((x[1] - x[0] <= x[2] - x[1]) ? ab <= cb : cb <= ab, "default costs grow with the distance"); sx_assert(ab <= ac && cb <= ac, "default costs grow with the distance");
  sx_assert(x[1] - x[0] + 0.01 < x[2] - x[1] ? ab < cb : true, "clearly longer edges cost more"); sx_assert(ac > 0, "distant points have a positive cost"); sx_assert(!unknown(g, a) && g.numNodes() == 3, "three nodes"); }
SX_HARNESS(G04_borrowed_cost) { // costs taken from another graph
  std::vector<Point> p{at(0), at(1), at(3)}; Ora o({0, 1, 2}); Graph2D s; for (auto& a : p) s.addDirectedEdge(a, a, 0); 
  s.addDirectedEdge(p[0], p[1], sx_int("c01", 0, 50)); s.addDirectedEdge(p[1], p[0], sx_int("c10", 0, 50)); s.addDirectedEdge(p[1], p[2], sx_int("c12", 0, 50)); s.addDirectedEdge(p[2], p[0], sx_int("c20", 0, 50)); if (sx_choose("direct", 0, 1)) s.addDirectedEdge(p[0], p[2], sx_int("c02", 0, 50));
  int i = sx_choose("i", 0, 2), j = (i + sx_choose("step", 1, 2)) % 3; Graph2D g; g.addEdge(p[i], p[j], s); g.addDirectedEdge(p[j], at(5), 3); 
  sx_assert(g.getCostFromEdge(g.nodeToIndex(p[i]), g.nodeToIndex(p[j])) == s.shortestPathCost(p[i], p[j]), "the cost is that of the shortest path there"); sx_assert(g.getCostFromEdge(g.nodeToIndex(p[j]), g.nodeToIndex(p[i])) == s.shortestPathCost(p[j], p[i]), "the cost back is that of the shortest path back");
  Graph2D d; d.addDirectedEdge(p[i], p[j], s); sx_assert(d.getCostFromEdge(d.nodeToIndex(p[i]), d.nodeToIndex(p[j])) == s.shortestPathCost(p[i], p[j]), "the cost is that of the shortest path there"); sx_assert(d.numEdges() == 1 && g.numEdges() == 3, "only the asked edges are added");
  bool threw = false; try { g.addEdge(p[i], at(7), s); } catch (const std::out_of_range&) { threw = true; } sx_assert(threw, "an unknown point is rejected"); }
// many points
SX_HARNESS(G04_many) { Graph2D g; std::vector<Point> used; int n = sx_choose("points", 9, 14); for (int i = 0; i < n; i++) used.push_back(Point((i % 4) * 1.5 - 2, i / 4 * -0.75, i == 5 ? 3 : 0)); int back = sx_choose("backwards", 0, 1);
  for (int i = 0; i + 1 < n; i++) { Point a = used[back ? n - 1 - i : i], b = used[back ? n - 2 - i : i + 1]; g.addEdge(a, b, sx_int(("c" + std::to_string(i)).c_str(), 0, 50)); } names(g, used);
  int64_t c = g.shortestPathCost(used[0], used[n - 1], 1000000), s = 0; for (int i = 0; i + 1 < n; i++) s += static_cast<const Graph&>(g).getCostFromEdge(g.nodeToIndex(used[i]), g.nodeToIndex(used[i + 1]), 1000000); sx_assert(c == s, "the only path costs the sum of its edges"); auto p = g.shortestPath(used[0], used[n - 1], 1000000); sx_assert((int)p.size() == n, "the only path visits every point"); for (int i = 0; i < n && i < (int)p.size(); i++) sx_assert(eq(p[i], used[i]), "the only path visits every point"); }

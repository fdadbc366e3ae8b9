//@ src: types/Point.cpp types/LineString.cpp types/LinearRing.cpp types/Cell.cpp types/Cells.cpp types/MultiPoint.cpp types/MultiLineString.cpp types/Swath.cpp types/Swaths.cpp types/SwathsByCells.cpp types/Route.cpp types/Graph.cpp types/Graph2D.cpp
//@ native: gdal
//@ bound: every history of up to 3 public operations (4 in the thorough run) out of 12 kinds on an empty route, with arbitrary points, widths and swath ends
#include "route_common.h"
static int fresh;
static Point P() { return pnt("p" + std::to_string(fresh++)); }
static Swath S() { int k = fresh++; std::string n = "s" + std::to_string(k); Point a = pnt(n + ".a"), b = pnt(n + ".b"); return mk(a, b, num(n + ".w", 0.5, 9), k); }
static void addConn(Rec& q) { if (q.conns.size() <= q.groups.size()) q.conns.emplace_back(); }
static void addPts(Rec& q, const std::vector<Point>& ps) { addConn(q); for (auto& p : ps) q.conns.back().push_back(p); }
static void addGrp(Rec& q, const std::vector<Swath>& ss) { if (q.conns.empty()) q.conns.emplace_back(); if (q.conns.size() > q.groups.size()) q.groups.emplace_back(); for (auto& s : ss) q.groups.back().push_back(s); }
static void step(Route& r, Rec& q, int op) {
  if (op == 0) { auto s = S(); r.addSwath(s); addGrp(q, {s}); }
  else if (op == 1) { Swaths v; r.addSwaths(v); addGrp(q, {}); }
  else if (op == 2) { Swaths v; auto a = S(), b = S(); v.emplace_back(a); v.emplace_back(b); r.addSwaths(v); addGrp(q, {a, b}); }
  else if (op == 3) { Swaths v; auto a = S(); v.emplace_back(a); auto p = P(), p2 = P(); MultiPoint m({p, p2}); r.addConnectedSwaths(m, v); addPts(q, {p, p2}); addGrp(q, {a}); }
  else if (op == 4) { r.addConnectedSwaths(); addPts(q, {}); addGrp(q, {}); }
  else if (op == 5) { r.addConnection(); addConn(q); }
  else if (op == 6) { auto p = P(); r.addConnection(p); addPts(q, {p}); }
  else if (op == 7) { auto p = P(), p2 = P(); r.addConnection(MultiPoint({p, p2})); addPts(q, {p, p2}); }
  else if (op == 8) { r.addConnection(MultiPoint()); addPts(q, {}); }
  else if (op == 9) { auto p = P(), p2 = P(); r.addConnection(std::vector<Point>{p, p2}); addPts(q, {p, p2}); }
  else if (op == 10) { if (q.groups.empty()) return; int i = sx_choose("which", 0, (int)q.groups.size() - 1); Swaths v; auto a = S(); v.emplace_back(a); r.setSwaths(i, v); q.groups[i] = {a}; }
  else if (op == 11) { if (q.conns.empty()) return; int i = sx_choose("which", 0, (int)q.conns.size() - 1); auto p = P(); r.setConnection(i, MultiPoint({p})); q.conns[i] = {p}; }
}
static void history(int n) { fresh = 0; Route r; Rec q; sx_assert(r.isEmpty(), "a new route is empty"); for (int i = 0; i < n; i++) { step(r, q, sx_choose("op", 0, 11)); sx_assert(r.isEmpty() == (q.conns.empty() && q.groups.empty()), "a route is empty exactly when nothing was added"); } holds(r, q);
  if (!q.conns.empty()) { auto& c = q.conns.back(); sx_assert(r.getLastConnection().size() == c.size(), "the last connection"); if (!c.empty()) same(r.getLastConnection().getLastPoint(), c.back(), "the last connection"); } if (!q.groups.empty()) { sx_assert(r.getLastSwaths().size() == q.groups.back().size(), "the last group"); if (!q.groups.back().empty()) sx_assert(r.getLastSwaths().back().getId() == q.groups.back().back().getId(), "the last group"); } }
SX_HARNESS(R01_history) { history(sx_choose("n", 0, 3)); }
//@ thorough_only: R01_history4
SX_HARNESS(R01_history4) { history(4); }
SX_HARNESS(R01_graph) { // joining swaths through a graph puts the shortest path between them
  fresh = 0; Point a(0, 0), b(10, 0), c(10, 5), d(0, 5); f2c::types::Graph2D g; g.addEdge(a, b); g.addEdge(b, c); g.addEdge(c, d); g.addEdge(d, a); Route r; Rec q; int k1 = sx_choose("first", 0, 1), k2 = sx_choose("second", 0, 1); Swath s = k1 ? mk(a, b, 1, 0) : mk(b, a, 1, 0), t = k2 ? mk(c, d, 1, 1) : mk(d, c, 1, 1); r.addSwath(s, g); holds(r, Rec{{{}}, {{s}}}); r.addSwath(t, g);
  sx_assert(r.sizeConnections() == 2 && r.sizeVectorSwaths() == 2, "swaths joined through a graph get a connection each"); auto m = r.getConnection(1); sx_assert(m.size() >= 2, "the connection goes from end to start"); same(m.getFirstPoint(), s.endPoint(), "the connection starts where the swath ends"); same(m.getLastPoint(), t.startPoint(), "the connection ends where the next swath starts"); 
}

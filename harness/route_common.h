#pragma once
#include "swath_common.h"
using f2c::types::Route;
// plain record of a route: connection points and swath end points per group
struct Rec { std::vector<std::vector<Point>> conns; std::vector<std::vector<Swath>> groups; };
inline Swath mk(const Point& a, const Point& b, double w, int id) { return Swath(LineString(a, b), w, id); }
inline std::vector<Point> line(const Rec& r) { std::vector<Point> v; size_t n = std::max(r.conns.size(), r.groups.size()); for (size_t i = 0; i < n; i++) { if (i < r.conns.size()) for (auto& p : r.conns[i]) v.push_back(p); if (i < r.groups.size()) for (auto& s : r.groups[i]) for (size_t k = 0; k < s.numPoints(); k++) v.push_back(s.getPoint(k)); } return v; }
inline void holds(const Route& r, const Rec& q) {
  sx_assert(r.sizeConnections() == q.conns.size() && r.sizeVectorSwaths() == q.groups.size(), "a route holds exactly what was added");
  sx_assert(r.sizeConnections() == r.sizeVectorSwaths() || r.sizeConnections() == r.sizeVectorSwaths() + 1, "connections and swath groups alternate");
  sx_assert(r.getConnections().size() == q.conns.size() && r.getVectorSwaths().size() == q.groups.size(), "a route holds exactly what was added");
  for (size_t i = 0; i < q.conns.size(); i++) { auto c = r.getConnection(i); sx_assert(c.size() == q.conns[i].size(), "every connection keeps its points"); for (size_t k = 0; k < c.size(); k++) same(c[k], q.conns[i][k], "every connection keeps its points"); }
  for (size_t i = 0; i < q.groups.size(); i++) { auto& g = r.getSwaths(i); sx_assert(g.size() == q.groups[i].size(), "every group keeps its swaths"); for (size_t k = 0; k < g.size(); k++) { auto& s = g.at(k); auto& t = q.groups[i][k]; sx_assert(s.getId() == t.getId(), "swaths keep their order"); same(s.startPoint(), t.startPoint(), "swaths keep their points"); same(s.endPoint(), t.endPoint(), "swaths keep their points"); sx_assert_eq(s.getWidth(), t.getWidth(), "swaths keep their width"); } }
}

#pragma once
#include "sx.h"
#include <algorithm>
#include <vector>
#include <string>
#include "fields2cover/types/Graph.h"
using f2c::types::Graph;
// Oracle: the current edges as a plain matrix (presence concrete on each path, costs symbolic).
struct Ora {
  std::vector<size_t> ids; std::vector<std::vector<bool>> on; std::vector<std::vector<int64_t>> c;
  explicit Ora(std::vector<size_t> v) : ids(v), on(v.size(), std::vector<bool>(v.size(), false)), c(v.size(), std::vector<int64_t>(v.size(), 0)) {}
  size_t n() const { return ids.size(); }
  int pos(size_t id) const { for (size_t i = 0; i < ids.size(); i++) if (ids[i] == id) return (int)i; return -1; }
  void walk(size_t cur, size_t to, std::vector<size_t>& st, std::vector<std::vector<size_t>>& out) const {
    st.push_back(cur);
    if (cur == to) out.push_back(st);
    else for (size_t k = 0; k < n(); k++) if (on[cur][k] && std::find(st.begin(), st.end(), k) == st.end()) walk(k, to, st, out);
    st.pop_back();
  }
  std::vector<std::vector<size_t>> simple(size_t a, size_t b) const { std::vector<std::vector<size_t>> o; std::vector<size_t> st; walk(a, b, st, o); return o; }
  int64_t sum(const std::vector<size_t>& p) const { int64_t s = 0; for (size_t k = 1; k < p.size(); k++) s += c[p[k - 1]][p[k]]; return s; }
};
inline std::string nm(const char* p, int i, int j) { return std::string(p) + std::to_string(i) + std::to_string(j); }
// judge the answers about (a,b) against the oracle
inline void judge(Graph& g, const Ora& o, size_t a, size_t b, int64_t INF) {
  int64_t cost = g.shortestPathCost(o.ids[a], o.ids[b], INF);
  std::vector<size_t> p = g.shortestPath(o.ids[a], o.ids[b], INF);
  auto all = o.simple(a, b);
  if (a == b) { sx_assert(cost == 0, "a node is at cost zero from itself"); sx_assert(p.empty(), "the path from a node to itself is empty"); return; }
  if (all.empty()) {
    sx_reach("unreachable pair");
    sx_assert(p.empty(), "no path exists: the returned path is empty");
    sx_assert(cost == INF, "no path exists: the reported cost is the caller's infinite cost");
    return;
  }
  sx_reach("reachable pair");
  sx_assert(p.size() >= 2 && p.front() == o.ids[a] && p.back() == o.ids[b], "the path goes from the first to the second node");
  std::vector<size_t> q; bool real = true;
  for (size_t id : p) { int k = o.pos(id); if (k < 0) { real = false; break; } q.push_back(k); }
  for (size_t k = 1; real && k < q.size(); k++) real = o.on[q[k - 1]][q[k]];
  sx_assert(real, "every step of the path is an existing edge");
  sx_assert(o.sum(q) == cost, "the reported cost is the cost of the returned path");
  for (auto& s : all) sx_assert(cost <= o.sum(s), "no other path is cheaper");
}
inline void judgeAll(Graph& g, const Ora& o, int64_t INF) { for (size_t a = 0; a < o.n(); a++) for (size_t b = 0; b < o.n(); b++) judge(g, o, a, b, INF); }

//@ src: types/Graph.cpp
//@ native: gdal
//@ bound: 3 nodes (dense and sparse ids), start graph of 4 edges, then two rounds of (one of 5 kinds of question or none, one of 18 edits) in quick mode with the second edit restricted to 5, followed by all questions; start costs fixed in quick mode, all costs set by edits arbitrary integers 0..20, all infinite costs arbitrary integers 100..1000000
//@ bound: thorough: second edit unrestricted, start costs arbitrary
//@ assume: edge costs are non-negative and path costs stay below every infinite cost used
#include "graph_common.h"
static int nedit = 0;
static void ask(Graph& g, const Ora& o, int kind, const char* inf) {
  if (kind == 0) return;
  int64_t INF = sx_int(inf, 100, 1000000);
  if (kind == 1) g.shortestPathCost(o.ids[0], o.ids[2], INF);
  if (kind == 2) g.shortestPath(o.ids[2], o.ids[1], INF);
  if (kind == 3) g.getCosts();
  if (kind == 4) g.getPaths();
  if (kind == 5) g.shortestPathsAndCosts(INF);
}
static const int P[6][2] = {{0,1},{1,0},{0,2},{2,0},{1,2},{2,1}};
static void edit(Graph& g, Ora& o, int k) {
  std::string cn = "cost" + std::to_string(nedit++);
  auto set = [&](int i, int j, int64_t c) { o.on[i][j] = true; o.c[i][j] = c; };
  if (k < 6) { int64_t c = sx_int(cn.c_str(), 0, 20); g.addDirectedEdge(o.ids[P[k][0]], o.ids[P[k][1]], c); set(P[k][0], P[k][1], c); }
  else if (k < 12) { int i = P[k - 6][0], j = P[k - 6][1]; g.removeDirectedEdge(o.ids[i], o.ids[j]); o.on[i][j] = false; }
  else if (k < 15) { int i = P[(k - 12) * 2][0], j = P[(k - 12) * 2][1]; int64_t c = sx_int(cn.c_str(), 0, 20); g.addEdge(o.ids[i], o.ids[j], c); set(i, j, c); set(j, i, c); }
  else { int i = P[(k - 15) * 2][0], j = P[(k - 15) * 2][1]; g.removeEdge(o.ids[i], o.ids[j]); o.on[i][j] = o.on[j][i] = false; }
}
static void history(std::vector<size_t> ids, bool full) {
  nedit = 0; Graph g; Ora o(ids);
  static const int start[4][3] = {{0, 1, 3}, {1, 2, 9}, {0, 2, 5}, {2, 0, 4}};
  for (auto& e : start) { int64_t c = full ? sx_int(nm("start", e[0], e[1]).c_str(), 0, 20) : e[2]; g.addDirectedEdge(ids[e[0]], ids[e[1]], c); o.on[e[0]][e[1]] = true; o.c[e[0]][e[1]] = c; }
  static const int q0[] = {0, 1, 4, 2, 3, 5}; ask(g, o, q0[sx_choose("question0", 0, full || ids[0] == 0 ? 5 : 2)], "inf0");
  edit(g, o, sx_choose("edit0", 0, 17));
  ask(g, o, sx_choose("question1", full ? 0 : 1, full ? 5 : 2), "inf1");
  static const int few[] = {0, 8, 6, 5, 17};
  edit(g, o, full ? sx_choose("edit1", 0, 17) : few[sx_choose("edit1", 0, 4)]);
  // tables first, then single questions, or the other way round
  int64_t INF = sx_int("inf2", 100, 1000000);
  if (sx_choose("order", 0, 1) == 0) judgeAll(g, o, INF);
  auto c = g.getCosts(); auto p = g.getPaths();
  Graph f; for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) if (o.on[i][j]) f.addDirectedEdge(ids[i], ids[j], o.c[i][j]);
  auto fc = f.getCosts(); auto fp = f.getPaths();
  for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) {
    size_t m = std::max(ids[i], ids[j]); if (m >= fc.size()) continue;
    sx_assert(c.size() > m && p.size() > m, "tables as large as those of a fresh graph");
    sx_assert(c[ids[i]][ids[j]] == fc[ids[i]][ids[j]], "tabled costs equal those of a fresh graph");
    sx_assert(p[ids[i]][ids[j]].empty() == fp[ids[i]][ids[j]].empty(), "tabled paths exist when those of a fresh graph do");
    int64_t s = 0; auto& q = p[ids[i]][ids[j]];
    for (size_t k = 1; k < q.size(); k++) { int x = o.pos(q[k-1]), y = o.pos(q[k]); sx_assert(x >= 0 && y >= 0 && o.on[x][y], "tabled paths only use current edges"); s += o.c[x][y]; }
    if (!q.empty()) sx_assert(s == c[ids[i]][ids[j]], "tabled path costs what the table says");
  }
  judgeAll(g, o, INF);
}
SX_HARNESS(G02_history) { history({0, 1, 2}, false); }
SX_HARNESS(G02_sparse) { history({1, 0, 4}, false); }
SX_HARNESS(G02_long) { history({0, 1, 2}, true); }
//@ thorough_only: G02_long
//@ budget: G02_long 60 600
SX_HARNESS(G02_empty) { Graph g; Ora o({0, 1, 3});
  judgeAll(g, o, sx_int("inf0", 100, 1000000)); g.addDirectedEdge(0, 3, 5); o.on[0][2] = true; o.c[0][2] = 5; judgeAll(g, o, sx_int("inf1", 100, 1000000));
  g.removeDirectedEdge(0, 3); o.on[0][2] = false; judgeAll(g, o, sx_int("inf2", 100, 1000000)); }

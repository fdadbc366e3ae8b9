//@ src: types/Graph.cpp
//@ native: gdal
//@ bound: all directed graphs on 3 nodes (dense ids 0-2 and sparse ids), and sub-graphs of a 4-node graph with 7 optional edges; every edge cost an arbitrary integer 0..1000; every ordered node pair; a ring of ten nodes with a chord and two costs up to 9e9
//@ bound: thorough: 4-node graphs with 12 optional edges
//@ assume: edge costs are non-negative and path costs stay below the infinite cost
#include "graph_common.h"
static void graphs(std::vector<size_t> ids, const std::vector<std::pair<int,int>>& cand, int64_t INF) {
  Graph g; Ora o(ids);
  for (auto [i, j] : cand) if (sx_choose(nm("e", i, j).c_str(), 0, 1)) {
    o.on[i][j] = true; o.c[i][j] = sx_int(nm("c", i, j).c_str(), 0, 1000);
    g.addDirectedEdge(ids[i], ids[j], o.c[i][j]);
  }
  if (sx_choose("query", 0, 1) == 0) { judgeAll(g, o, INF); return; }
  auto& c = g.getCosts(); auto& p = g.getPaths();
  for (size_t a = 0; a < o.n(); a++) for (size_t b = 0; b < o.n(); b++) {
    auto all = o.simple(a, b); if (all.empty() || a == b) continue;
    sx_assert(c.size() > std::max(ids[a], ids[b]) && p.size() > std::max(ids[a], ids[b]), "the all-pairs tables cover every node");
    int64_t s = 0; auto& q = p[ids[a]][ids[b]];
    sx_assert(q.size() >= 2 && q.front() == ids[a] && q.back() == ids[b], "tabled path joins the two nodes");
    for (size_t k = 1; k < q.size(); k++) { int x = o.pos(q[k-1]), y = o.pos(q[k]); sx_assert(x >= 0 && y >= 0 && o.on[x][y], "tabled path uses existing edges"); s += o.c[x][y]; }
    sx_assert(s == c[ids[a]][ids[b]], "tabled cost is the cost of the tabled path");
    for (auto& r : all) sx_assert(s <= o.sum(r), "no other path is cheaper than the tabled one");
  }
}
static const std::vector<std::pair<int,int>> all3{{0,1},{1,0},{0,2},{2,0},{1,2},{2,1}};
SX_HARNESS(G01_dense3) { graphs({0, 1, 2}, all3, 1000000); }
SX_HARNESS(G01_sparse3) { graphs({0, 2, 5}, all3, 1000000); }
SX_HARNESS(G01_selfloop) { Graph g; Ora o({0, 1}); 
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (sx_choose(nm("e", i, j).c_str(), 0, 1)) { o.on[i][j] = true; o.c[i][j] = sx_int(nm("c", i, j).c_str(), 0, 1000); g.addDirectedEdge(i, j, o.c[i][j]); }
  judgeAll(g, o, 1000000); }
SX_HARNESS(G01_undirected4) { Graph g; Ora o({0, 1, 2, 3});
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (sx_choose(nm("e", i, j).c_str(), 0, 1)) { o.on[i][j] = o.on[j][i] = true; o.c[i][j] = o.c[j][i] = sx_int(nm("c", i, j).c_str(), 0, 1000); g.addEdge(i, j, o.c[i][j]); }
  judgeAll(g, o, 1000000); }
SX_HARNESS(G01_chain4) { graphs({0, 1, 2, 3}, {{0,1},{1,2},{2,3},{0,2},{1,3},{0,3},{3,0}}, 1000000); }
SX_HARNESS(G01_dense4) { graphs({0, 1, 2, 3}, {{0,1},{1,2},{2,3},{0,2},{1,3},{0,3},{3,0},{1,0},{2,1},{3,2},{2,0},{3,1}}, 1000000); }
//@ thorough_only: G01_dense4
//@ budget: G01_dense4 60 600
// a larger graph: a ring of ten nodes with a chord, a dead end and costs far beyond 32 bits
SX_HARNESS(G01_large) { std::vector<size_t> ids; for (size_t i = 0; i < 11; i++) ids.push_back(i == 3 ? 40 : 3 * i); Graph g; Ora o(ids); bool one = sx_choose("one way", 0, 1);
  auto add = [&](int i, int j, int64_t c, bool both) { o.on[i][j] = true; o.c[i][j] = c; if (both) { o.on[j][i] = true; o.c[j][i] = c; g.addEdge(ids[i], ids[j], c); } else g.addDirectedEdge(ids[i], ids[j], c); };
  for (int i = 0; i < 10; i++) add(i, (i + 1) % 10, i == 4 ? sx_int("c4", 0, 9000000000L) : 1000000000L + i, !one); add(2, 7, sx_int("chord", 0, 9000000000L), true); add(10, 5, 7, false);
  judgeAll(g, o, 1000000000000000L); }

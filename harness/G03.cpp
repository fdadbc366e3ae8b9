//@ src: types/Graph.cpp
//@ native: gdal
//@ bound: all directed graphs on 3 nodes where each edge was never added, added, or added and removed again (dense and sparse ids), and all directed graphs on 4 nodes; edge costs arbitrary integers 0..1000; every ordered node pair; a ladder of up to four rungs
//@ assume: self loops are outside the enumerated graphs
#include "graph_common.h"
static void paths(const Graph& g, const Ora& o) {
  for (size_t a = 0; a < o.n(); a++) for (size_t b = 0; b < o.n(); b++) {
    auto want = o.simple(a, b); auto got = g.allPathsBetween(o.ids[a], o.ids[b]);
    for (auto& p : want) for (auto& x : p) x = o.ids[x];
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    sx_assert(std::adjacent_find(got.begin(), got.end()) == got.end(), "no path is listed twice");
    for (auto& p : want) sx_assert(std::binary_search(got.begin(), got.end(), p), "every simple path is listed");
    for (auto& p : got) sx_assert(std::binary_search(want.begin(), want.end(), p), "every listed path is a simple path of the graph");
  }
}
static void lookups(const Graph& g, const Ora& o, size_t edges) {
  sx_assert(g.numEdges() == edges, "the number of edges is the number of current edges");
  int64_t INF = sx_int("inf", 5000, 1000000);
  for (size_t i = 0; i < o.n(); i++) {
    auto from = g.getEdgesFrom(o.ids[i]); std::sort(from.begin(), from.end());
    std::vector<size_t> want; for (size_t j = 0; j < o.n(); j++) if (o.on[i][j]) want.push_back(o.ids[j]);
    std::sort(want.begin(), want.end());
    sx_assert(from == want, "the neighbours of a node are exactly the ends of its edges");
    for (size_t j = 0; j < o.n(); j++) sx_assert(g.getCostFromEdge(o.ids[i], o.ids[j], INF) == (o.on[i][j] ? o.c[i][j] : INF), "an edge lookup gives its cost, a missing edge the infinite cost");
  }
  sx_assert(g.getCostFromEdge(77, o.ids[0], INF) == INF && g.getEdgesFrom(77).empty(), "an unknown node has no edges");
}
static void three(std::vector<size_t> ids) {
  Graph g; Ora o(ids); size_t edges = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) {
    int k = sx_choose(nm("e", i, j).c_str(), 0, 2); if (!k) continue;
    int64_t c = sx_int(nm("c", i, j).c_str(), 0, 1000); g.addDirectedEdge(ids[i], ids[j], c);
    if (k == 1) { o.on[i][j] = true; o.c[i][j] = c; edges++; } else g.removeDirectedEdge(ids[i], ids[j]);
  }
  lookups(g, o, edges); paths(g, o);
}
SX_HARNESS(G03_three) { three({0, 1, 2}); }
SX_HARNESS(G03_sparse) { three({3, 0, 8}); }
SX_HARNESS(G03_four) { Graph g; Ora o({0, 1, 2, 3}); 
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j && sx_choose(nm("e", i, j).c_str(), 0, 1)) { o.on[i][j] = true; g.addDirectedEdge(i, j, sx_int(nm("c", i, j).c_str(), 0, 1000)); }
  paths(g, o); }
SX_HARNESS(G03_undirected) { Graph g; Ora o({0, 1, 2, 3}); size_t edges = 0;
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { int k = sx_choose(nm("e", i, j).c_str(), 0, 2); if (!k) continue;
    int64_t c = sx_int(nm("c", i, j).c_str(), 0, 1000); g.addEdge(i, j, c); o.on[i][j] = o.on[j][i] = true; o.c[i][j] = o.c[j][i] = c; edges += 2;
    if (k == 2) { g.removeEdge(i, j); o.on[i][j] = o.on[j][i] = false; edges -= 2; } }
  lookups(g, o, edges); paths(g, o); }
SX_HARNESS(G03_overwrite) { Graph g; Ora o({0, 1, 2}); int64_t c0 = sx_int("first", 0, 1000), c1 = sx_int("second", 0, 1000); g.addDirectedEdge(0, 1, c0); g.addEdge(0, 1, c1); o.on[0][1] = o.on[1][0] = true; o.c[0][1] = o.c[1][0] = c1;
  g.removeDirectedEdge(1, 2); g.removeDirectedEdge(5, 6); lookups(g, o, 2); paths(g, o); }
// a ladder of four rungs: paths of up to eight nodes
SX_HARNESS(G03_ladder) { std::vector<size_t> ids{5, 1, 2, 9, 4, 0, 6, 30}; Graph g; Ora o(ids); auto add = [&](int i, int j) { o.on[i][j] = o.on[j][i] = true; g.addEdge(ids[i], ids[j], sx_int(nm("c", i, j).c_str(), 0, 1000)); };
  for (int r = 0; r < 4; r++) { if (sx_choose(nm("rung", r, 0).c_str(), 0, 1)) add(2 * r, 2 * r + 1); if (r) { add(2 * r - 2, 2 * r); add(2 * r - 1, 2 * r + 1); } } paths(g, o); }

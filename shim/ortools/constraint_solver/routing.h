// Stand-in for OR-tools (not installed here): the solver returns a tour chosen by a harness hook among all tours from the depot through every node.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
extern "C" void sx_unmodelled(const char*);
namespace operations_research {
struct RoutingIndexManager {
  struct NodeIndex { int v; explicit NodeIndex(int x) : v(x) {} int value() const { return v; } };
  int n, depot;
  RoutingIndexManager(int nodes, int vehicles, NodeIndex d) : n(nodes), depot(d.v) { (void)vehicles; }
  // like OR-tools, the variable indices are not the node ids: here they are shifted by one
  NodeIndex IndexToNode(int64_t i) const { return NodeIndex(i >= n ? depot : (int)((i + 1) % n)); }
  int64_t NodeToIndex(NodeIndex k) const { return (k.v + n - 1) % n; }
};
// fills the tour (node ids without the depot, each once) for a problem with n nodes
typedef std::vector<int> (*TourHook)(int n, int depot, const std::function<int64_t(int64_t, int64_t)>& cost_of_indices, const RoutingIndexManager& m);
inline TourHook tour_hook = nullptr;
struct LocalSearchMetaheuristic { enum Value { AUTOMATIC = 6, GUIDED_LOCAL_SEARCH = 2 }; };
struct FirstSolutionStrategy { enum Value { AUTOMATIC = 15 }; };
struct Duration { long s = 0; void set_seconds(long x) { s = x; } };
struct RoutingSearchParameters { Duration d; void set_use_full_propagation(bool) {} void set_first_solution_strategy(int) {} void set_local_search_metaheuristic(int) {} Duration* mutable_time_limit() { return &d; } void set_log_search(bool) {} };
inline RoutingSearchParameters DefaultRoutingSearchParameters() { return {}; }
struct Assignment { std::vector<int64_t> next; int64_t Value(int64_t var) const { return next.at(var); } };
struct RoutingModel {
  const RoutingIndexManager& m; std::function<int64_t(int64_t, int64_t)> cb; Assignment a;
  explicit RoutingModel(const RoutingIndexManager& mm) : m(mm) {}
  int RegisterTransitCallback(std::function<int64_t(int64_t, int64_t)> f) { cb = std::move(f); return 0; }
  void SetArcCostEvaluatorOfAllVehicles(int) {}
  int64_t Start(int) const { return m.NodeToIndex(RoutingIndexManager::NodeIndex(m.depot)); }
  bool IsEnd(int64_t i) const { return i >= m.n; }
  int64_t NextVar(int64_t i) const { return i; }
  const Assignment* SolveWithParameters(const RoutingSearchParameters&) {
    if (!tour_hook) sx_unmodelled("OR-tools SolveWithParameters");
    std::vector<int> t = tour_hook(m.n, m.depot, cb, m); a.next.assign(m.n + 1, m.n); int64_t at = Start(0);
    for (int k : t) { int64_t i = m.NodeToIndex(RoutingIndexManager::NodeIndex(k)); a.next.at(at) = i; at = i; }
    a.next.at(at) = m.n; return &a; }
};
}

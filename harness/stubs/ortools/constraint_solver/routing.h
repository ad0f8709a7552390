// Stand-in for the part of or-tools route_planner_base.cpp uses: an exact
// (Held-Karp) single-vehicle tour solver for small instances.  Only what the
// caller passes in (cost callback, number of nodes, depot) decides the tour.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <vector>
#include <limits>
namespace operations_research {

struct FirstSolutionStrategy { enum Value { AUTOMATIC = 15 }; };
struct LocalSearchMetaheuristic {
  enum Value { AUTOMATIC = 6, GUIDED_LOCAL_SEARCH = 2 };
};
struct Duration_ { void set_seconds(long int s) { seconds = s; } long int seconds {0}; };
struct RoutingSearchParameters {
  void set_use_full_propagation(bool) {}
  void set_first_solution_strategy(int) {}
  void set_local_search_metaheuristic(int) {}
  Duration_* mutable_time_limit() { return &d; }
  void set_log_search(bool) {}
  Duration_ d;
};
inline RoutingSearchParameters DefaultRoutingSearchParameters() { return {}; }

class RoutingIndexManager {
 public:
  class NodeIndex {
   public:
    explicit NodeIndex(int v) : v_(v) {}
    int value() const { return v_; }
   private:
    int v_;
  };
  RoutingIndexManager(int n, int vehicles, NodeIndex depot)
      : n_(n), depot_(depot.value()) {
    if (vehicles != 1 || depot_ < 0 || depot_ >= n) {
      throw std::invalid_argument("routing stub: bad manager arguments");
    }
  }
  // Internal indices: 0..n-1 are the nodes (depot = route start), n is the end.
  NodeIndex IndexToNode(int64_t i) const {
    return NodeIndex(i == n_ ? depot_ : static_cast<int>(i));
  }
  int64_t NodeToIndex(NodeIndex n) const { return n.value(); }
  int n_, depot_;
};

class IntVar { public: int64_t idx {0}; };

class Assignment {
 public:
  int64_t Value(const IntVar* v) const { return next.at(v->idx); }
  std::map<int64_t, int64_t> next;
};

class RoutingModel {
 public:
  explicit RoutingModel(const RoutingIndexManager& m) : m_(m), vars_(m.n_ + 1) {
    for (int i = 0; i <= m.n_; ++i) { vars_[i].idx = i; }
  }
  int RegisterTransitCallback(std::function<int64_t(int64_t, int64_t)> f) {
    cb_.push_back(f);
    return static_cast<int>(cb_.size()) - 1;
  }
  void SetArcCostEvaluatorOfAllVehicles(int i) { arc_ = i; }
  int64_t Start(int) const { return m_.depot_; }
  bool IsEnd(int64_t i) const { return i == m_.n_; }
  IntVar* NextVar(int64_t i) const { return &vars_.at(i); }

  const Assignment* SolveWithParameters(const RoutingSearchParameters&) {
    const int n = m_.n_, dep = m_.depot_;
    std::vector<int> nodes;
    for (int i = 0; i < n; ++i) { if (i != dep) { nodes.push_back(i); } }
    const int k = static_cast<int>(nodes.size());
    auto cost = [&](int a, int b) -> double {
      return static_cast<double>(cb_.at(arc_)(a, b));
    };
    if (k == 0) { sol_.next[dep] = n; return &sol_; }
    if (k > 18) { return nearest(nodes); }
    std::vector<std::vector<double>> c(k, std::vector<double>(k));
    std::vector<double> from(k), to(k);
    for (int i = 0; i < k; ++i) {
      from[i] = cost(dep, nodes[i]);
      to[i] = cost(nodes[i], n == 0 ? 0 : n);
      for (int j = 0; j < k; ++j) { c[i][j] = i == j ? 0 : cost(nodes[i], nodes[j]); }
    }
    const double inf = std::numeric_limits<double>::infinity();
    const size_t full = (size_t(1) << k) - 1;
    std::vector<double> d((full + 1) * k, inf);
    std::vector<int8_t> prev((full + 1) * k, -1);
    for (int i = 0; i < k; ++i) { d[(size_t(1) << i) * k + i] = from[i]; }
    for (size_t s = 1; s <= full; ++s) {
      for (int i = 0; i < k; ++i) {
        double v = d[s * k + i];
        if (!(s >> i & 1) || v == inf) { continue; }
        for (int j = 0; j < k; ++j) {
          if (s >> j & 1) { continue; }
          size_t t = s | (size_t(1) << j);
          if (v + c[i][j] < d[t * k + j]) {
            d[t * k + j] = v + c[i][j];
            prev[t * k + j] = static_cast<int8_t>(i);
          }
        }
      }
    }
    int best = 0;
    for (int i = 1; i < k; ++i) {
      if (d[full * k + i] + to[i] < d[full * k + best] + to[best]) { best = i; }
    }
    std::vector<int> order;
    size_t s = full;
    int cur = best;
    while (cur >= 0) {
      order.push_back(nodes[cur]);
      int p = prev[s * k + cur];
      s &= ~(size_t(1) << cur);
      cur = p;
    }
    int64_t at = dep;
    for (auto it = order.rbegin(); it != order.rend(); ++it) {
      sol_.next[at] = *it;
      at = *it;
    }
    sol_.next[at] = n;
    return &sol_;
  }

 private:
  // Big instances: always on to the closest node; of those equally close, to
  // the one with the fewest ways out.
  const Assignment* nearest(std::vector<int> nodes) {
    auto cost = [&](int a, int b) { return cb_.at(arc_)(a, b); };
    std::vector<int64_t> ways(m_.n_, 0);
    for (int a : nodes) {
      for (int b : nodes) { if (a != b && cost(a, b) < (int64_t(1) << 40)) { ++ways[a]; } }
    }
    int at = m_.depot_;
    while (!nodes.empty()) {
      size_t best = 0;
      for (size_t i = 1; i < nodes.size(); ++i) {
        int64_t c = cost(at, nodes[i]), b = cost(at, nodes[best]);
        if (c < b || (c == b && ways[nodes[i]] < ways[nodes[best]] && at != m_.depot_)) { best = i; }
      }
      sol_.next[at] = nodes[best];
      at = nodes[best];
      nodes.erase(nodes.begin() + best);
    }
    sol_.next[at] = m_.n_;
    return &sol_;
  }
  const RoutingIndexManager& m_;
  std::vector<std::function<int64_t(int64_t, int64_t)>> cb_;
  mutable std::vector<IntVar> vars_;
  int arc_ {0};
  Assignment sol_;
};
}  // namespace operations_research

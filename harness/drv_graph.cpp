// Graph and Graph2D.
#include "common.hpp"
#include "fields2cover/types.h"
using f2c::types::Graph;
using f2c::types::Graph2D;

struct GraphI : Interp {
  Graph g;
  static json path(const std::vector<size_t>& p) {
    json a = json::array();
    for (auto v : p) { a.push_back(big(static_cast<int64_t>(v))); }
    return a;
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto I = [&](const char* k) { return o.at(k).get<size_t>(); };
    if (op == "addD") { g.addDirectedEdge(I("i"), I("j"), I("c")); return 0; }
    if (op == "addU") { g.addEdge(I("i"), I("j"), I("c")); return 0; }
    if (op == "remD") { g.removeDirectedEdge(I("i"), I("j")); return 0; }
    if (op == "remU") { g.removeEdge(I("i"), I("j")); return 0; }
    if (op == "cost") { return big(g.shortestPathCost(I("i"), I("j"))); }
    if (op == "path") { return path(g.shortestPath(I("i"), I("j"))); }
    if (op == "compute") { g.shortestPathsAndCosts(); return 0; }
    if (op == "copy") { Graph h(g); g = h; return 0; }
    if (op == "costs") {
      json a = json::array();
      for (auto& r : g.getCosts()) {
        json b = json::array();
        for (auto v : r) { b.push_back(big(v)); }
        a.push_back(b);
      }
      return a;
    }
    if (op == "paths") {
      json a = json::array();
      for (auto& r : g.getPaths()) {
        json b = json::array();
        for (auto& v : r) { b.push_back(path(v)); }
        a.push_back(b);
      }
      return a;
    }
    if (op == "all") {
      json a = json::array();
      for (auto& p : g.allPathsBetween(I("i"), I("j"))) { a.push_back(path(p)); }
      return a;
    }
    if (op == "counts") {
      return {{"edges", g.numEdges()}, {"nodes", g.numNodes()}};
    }
    if (op == "ecost") { return big(g.getCostFromEdge(I("i"), I("j"))); }
    if (op == "succ") { return path(g.getEdgesFrom(I("i"))); }
    if (op == "edges") {
      json a = json::array();
      for (auto& f : g.getEdges()) {
        for (auto& t : f.second) {
          a.push_back({{"i", f.first}, {"j", t.first}, {"c", big(t.second)}});
        }
      }
      return a;
    }
    unknownOp(op);
  }
};

struct Graph2DI : Interp {
  Graph2D g, aux;
  static F2CPoint P(const json& a) { return F2CPoint(a[0].get<int>(), a[1].get<int>()); }
  static json pt(const F2CPoint& p) { return {q(p.getX()), q(p.getY())}; }
  static json pts(const std::vector<F2CPoint>& v) {
    json a = json::array();
    for (auto& p : v) { a.push_back(pt(p)); }
    return a;
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto A = [&]() { return P(o.at("a")); };
    auto B = [&]() { return P(o.at("b")); };
    auto C = [&]() { return o.at("c").get<int64_t>(); };
    if (op == "addD") { g.addDirectedEdge(A(), B(), C()); return 0; }
    if (op == "addU") { g.addEdge(A(), B(), C()); return 0; }
    if (op == "geoD") { g.addDirectedEdge(A(), B()); return 0; }
    if (op == "geoU") { g.addEdge(A(), B()); return 0; }
    if (op == "auxU") { aux.addEdge(A(), B(), C()); return 0; }
    if (op == "auxD") { aux.addDirectedEdge(A(), B(), C()); return 0; }
    if (op == "borD") { g.addDirectedEdge(A(), B(), aux); return 0; }
    if (op == "borU") { g.addEdge(A(), B(), aux); return 0; }
    if (op == "remD") { g.removeDirectedEdge(A(), B()); return 0; }
    if (op == "remU") { g.removeEdge(A(), B()); return 0; }
    if (op == "cost") { return big(g.shortestPathCost(A(), B())); }
    if (op == "path") { return pts(g.shortestPath(A(), B())); }
    if (op == "icost") {
      return big(g.shortestPathCost(g.nodeToIndex(A()), g.nodeToIndex(B())));
    }
    if (op == "all") {
      json a = json::array();
      for (auto& p : g.allPathsBetween(A(), B())) { a.push_back(pts(p)); }
      return a;
    }
    if (op == "index") { return g.nodeToIndex(A()); }
    if (op == "node") { return pt(g.indexToNode(o.at("i").get<size_t>())); }
    if (op == "nodes") {
      return {{"n", g.numNodes()}, {"pts", pts(g.getNodes())}, {"edges", g.numEdges()}};
    }
    if (op == "ecost") {
      return big(g.getCostFromEdge(g.nodeToIndex(A()), g.nodeToIndex(B())));
    }
    if (op == "copy") { Graph2D h(g); g = h; return 0; }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  bool two = argc > 4 && std::string(argv[4]) == "2d";
  return runDriver(argc, argv, [two]() -> Interp* {
    if (two) { return new Graph2DI(); }
    return new GraphI();
  });
}

// Route planning over the headland (spec/Rplan.tla).
#include "swathjson.hpp"
#include "fields2cover/route_planning/route_planner_base.h"

struct Rplan : Interp {
  double unit {1.0}, dx {0.0}, dy {0.0};
  F2CPoint pt(const json& j) const {
    return F2CPoint(dx + j[0].get<int>() * unit, dy + j[1].get<int>() * unit);
  }
  json jp(const F2CPoint& p) const {
    return {qr((p.getX() - dx) / unit, 1000), qr((p.getY() - dy) / unit, 1000)};
  }
  json perform(const json& op) override {
    unit = op["unit"].get<int>() / 1000.0;
    dx = op["off"][0];
    dy = op["off"][1];
    F2CCells cells;
    for (auto& c : op["cells"]) {
      F2CCell cell;
      for (auto& r : c) {
        F2CLinearRing ring;
        for (auto& p : r) { ring.addPoint(pt(p)); }
        cell.addRing(ring);
      }
      cells.addGeometry(cell);
    }
    F2CSwathsByCells sbc;
    size_t n = 0;
    for (auto& g : op["swaths"]) {
      F2CSwaths sws;
      for (auto& s : g) {
        F2CLineString line;
        for (auto& p : s["pts"]) { line.addPoint(pt(p)); }
        F2CSwath sw(line, s["w"].get<int>(), s["id"].get<int>(), jtype(s["type"]));
        sw.setCreationDir(s["cd"]);
        sws.push_back(sw);
        ++n;
      }
      sbc.push_back(sws);
    }
    const bool redirect = op["redirect"];
    f2c::rp::RoutePlannerBase planner;
    if (!op["start"].empty()) { planner.setStartAndEndPoint(pt(op["start"][0])); }
    F2CRoute route;
    if (op["op"] == "plan") {
      route = planner.genRoute(cells, sbc, false, 1e-4, redirect);
    } else if (op["op"] == "follow") {
      auto shortest = planner.createShortestGraph(cells, sbc, 1e-4);
      auto cov = planner.createCoverageGraph(cells, sbc, shortest, 1e-4, redirect);
      std::vector<long long int> ids;
      for (auto& o : op["order"]) {
        F2CSwath s = sbc.getSwath(o[0].get<int>() - 1);
        F2CPoint a = s.startPoint(), b = s.endPoint();
        if (o[1] == 1) { std::swap(a, b); }
        for (auto& p : {a, (a + b) * 0.5, b}) {
          long long int id = cov.nodeToIndex(p);
          if (ids.empty() || ids.back() != id) { ids.push_back(id); }
        }
      }
      route = planner.transformSolutionToRoute(ids, sbc, cov, shortest);
    } else {
      unknownOp(op["op"]);
    }
    json con = json::array(), groups = json::array();
    for (size_t i = 0; i < route.sizeConnections(); ++i) {
      json c = json::array();
      for (auto&& p : route.getConnection(i)) { c.push_back(jp(p)); }
      con.push_back(c);
    }
    for (size_t i = 0; i < route.sizeVectorSwaths(); ++i) {
      json g = json::array();
      for (auto&& s : route.getSwaths(i)) {
        json pts = json::array();
        for (size_t k = 0; k < s.numPoints(); ++k) { pts.push_back(jp(s.getPoint(k))); }
        g.push_back({{"id", s.getId()}, {"w", q(s.getWidth())},
            {"type", s.getType() == f2c::types::SwathType::HEADLAND ? 1 : 0}, {"cd", s.getCreationDir()}, {"pts", pts}});
      }
      groups.push_back(g);
    }
    return {{"con", con}, {"groups", groups}};
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new Rplan(); });
}

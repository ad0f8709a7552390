// Swath generation (spec/Tracks.tla) and the search for the best angle
// (spec/BestAngle.tla).  Built twice: drv_sg with the library as it is, drv_sgp
// with the search compiled for parallel execution.
#include "geomjson.hpp"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/swath_generator/brute_force.h"

static json dumpSwath(const F2CSwath& s, double dx = 0, double dy = 0, double f = 1) {
  return {{"id", s.getId()}, {"w", q(s.getWidth() / f, 8)},
    {"t", s.getType() == f2c::types::SwathType::HEADLAND ? 1 : 0},
    {"p", dumpLine(s.getPath(), 80, dx, dy, f)}};
}
static json dumpSwaths(const F2CSwaths& ss, double dx = 0, double dy = 0, double f = 1) {
  json a = json::array();
  for (size_t i = 0; i < ss.size(); ++i) { a.push_back(dumpSwath(ss.at(i), dx, dy, f)); }
  return a;
}

// Costs given by the scenario: of candidate i, or of a number of swaths
struct TableObj : f2c::obj::SGObjective {
  std::vector<int> cost;
  double step {1.0};
  bool maximise {false}, fast {true};
  bool isMinimizing() const override { return !maximise; }
  bool isFastCompAvailable() const override { return fast; }
  double computeCost(double ang, double w, const F2CCell& c) override {
    return cost.at(static_cast<size_t>(std::llround(ang / step)));
  }
  double computeCost(const F2CCell& c, const F2CSwaths& s) override {
    return cost.at(s.size() % cost.size());
  }
};

struct SgI : Interp {
  f2c::sg::BruteForce bf;

  template <class G>
  json best(G& g, f2c::obj::SGObjective& obj, const json& o, double step) {
    double w = o["w"].get<int>() / 8.0;
    F2CCells cs = jCells(o["v"]);
    auto cell = cs.getGeometry(0);
    g.setStepAngle(step);
    json r {{"step", qr(g.getStepAngle() * 180 / M_PI, 1000)}};
    double ang = g.computeBestAngle(obj, w, cell);
    double again = g.computeBestAngle(obj, w, cell);
    int i = q(ang / step);
    r["i"] = i;
    r["again"] = q(again / step);
    json alone = json::array(), cost = json::array(), count = json::array();
    for (int k = 0; k * o["deg"].get<int>() < 360; ++k) {
      cost.push_back(qr(g.computeCostOfAngle(obj, k * step, w, cell), 1000));
      auto ss = g.generateSwaths(k * step, w, cell);
      count.push_back(ss.size());
      if (!obj.isFastCompAvailable() && ss.size() > 0) {
        alone.push_back(qr(obj.computeCost(cell, ss), 1000));
      } else {
        alone.push_back(obj.isFastCompAvailable() ?
          qr(obj.computeCost(k * step, w, cell), 1000) : 0);
      }
    }
    r["cost"] = cost;
    r["alone"] = alone;
    r["count"] = count;
    r["best"] = dumpSwaths(g.generateBestSwaths(obj, w, cell));
    r["bestat"] = dumpSwaths(g.generateSwaths(i * step, w, cell));
    auto by = g.generateBestSwaths(obj, w, cs);
    json all = json::array(), each = json::array();
    for (size_t k = 0; k < by.size(); ++k) { all.push_back(dumpSwaths(by.at(k))); }
    for (size_t k = 0; k < cs.size(); ++k) {
      each.push_back(dumpSwaths(g.generateBestSwaths(obj, w, cs.getGeometry(k))));
    }
    r["all"] = all;
    r["each"] = each;
    return r;
  }

  json perform(const json& o) override {
    const std::string op = o["op"];
    if (op == "overlap") {
      bf.setAllowOverlap(o["v"]);
      return bf.getAllowOverlap();
    }
    if (op == "swaths") {
      double ang = std::atan2(o["d"][1].get<int>(), o["d"][0].get<int>()) +
        o["turn"].get<int>() * 2.0 * M_PI;
      double f = o["f16"].get<int>() / 16.0;  // size of a lattice step
      double w = o["w"].get<int>() / 8.0 * f;
      double dx = o["off"][0], dy = o["off"][1];
      F2CCells cs = jCells(o["v"], dx, dy, f);
      json a = json::array();
      if (o["one"].get<bool>()) {
        a.push_back(dumpSwaths(bf.generateSwaths(ang, w, cs.getGeometry(0)), dx, dy, f));
      } else {
        auto by = bf.generateSwaths(ang, w, cs);
        for (size_t i = 0; i < by.size(); ++i) { a.push_back(dumpSwaths(by.at(i), dx, dy, f)); }
      }
      return a;
    }
    if (op == "append") {
      F2CSwaths ss;
      for (int i = 0; i < o["n"].get<int>(); ++i) {
        ss.append(F2CLineString({F2CPoint(i, 0), F2CPoint(i, 9)}), 1.0);
      }
      F2CCells cs = jCells(o["v"]);
      auto c = cs.getGeometry(0);
      F2CLineString l {eighth(o["ls"][0]), eighth(o["ls"][1])};
      F2CMultiLineString m {l, F2CLineString({eighth(o["ls"][2]), eighth(o["ls"][3])})};
      double w = o["w"].get<int>() / 8.0;
      auto t = static_cast<f2c::types::SwathType>(o["t"].get<int>());
      const std::string how = o["how"];
      F2CMultiLineString in;
      if (how == "l") { ss.append(l, w, t); in = F2CMultiLineString(l); }
      else if (how == "m") { ss.append(m, w, t); in = m; }
      else if (how == "lc") { ss.append(l, c, w, t); in = c.getLinesInside(l); }
      else if (how == "lcs") { ss.append(l, cs, w, t); in = cs.getLinesInside(l); }
      else if (how == "mc") { ss.append(m, c, w, t); in = c.getLinesInside(m); }
      else { ss.append(m, cs, w, t); in = cs.getLinesInside(m); }
      json lines = json::array();
      for (size_t i = 0; i < in.size(); ++i) { lines.push_back(dumpLine(in.getGeometry(i), 80)); }
      return {{"ss", dumpSwaths(ss)}, {"lines", lines}};
    }
    if (op == "default") { return qr(bf.getStepAngle() * 180 / M_PI, 1000); }
    if (op == "table" || op == "real") {
      double step = o["deg"].get<int>() * M_PI / 180.0;
      if (op == "table") {
        TableObj obj;
        obj.cost = o["costs"].get<std::vector<int>>();
        obj.step = step;
        obj.maximise = o["max"];
        obj.fast = o["fast"];
        return best(bf, obj, o, step);
      }
      std::unique_ptr<f2c::obj::SGObjective> obj;
      const std::string n = o["obj"];
      if (n == "n") { obj.reset(new f2c::obj::NSwath()); }
      else if (n == "len") { obj.reset(new f2c::obj::SwathLength()); }
      else if (n == "cov") { obj.reset(new f2c::obj::FieldCoverage()); }
      else if (n == "over") { obj.reset(new f2c::obj::Overlaps()); }
      else { obj.reset(new f2c::obj::NSwathModified()); }
      return best(bf, *obj, o, step);
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new SgI(); });
}

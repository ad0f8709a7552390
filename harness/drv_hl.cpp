// Headlands of constant width (spec/Headland.tla).
#include "geomjson.hpp"
#include "fields2cover/headland_generator/constant_headland.h"

struct HlI : Interp {
  f2c::hg::ConstHL hl;
  json perform(const json& o) override {
    const std::string op = o["op"];
    double dx = o["off"][0], dy = o["off"][1];
    double f = o["f16"].get<int>() / 16.0;  // size of a lattice step
    F2CCells cs = jCells(o["v"], dx, dy, f);
    auto dump = [dx, dy, f](const F2CCells& r) {
      json v = json::array();
      for (size_t i = 0; i < r.size(); ++i) {
        json c = json::array();
        auto cell = r.getGeometry(i);
        for (size_t k = 0; k < cell.size(); ++k) { c.push_back(dumpLine(cell.getGeometry(k), 80, dx, dy, f)); }
        v.push_back(c);
      }
      return json {{"v", v}, {"area2", area2(r.area() / f / f)}};
    };
    bool exact = op.back() == 'x';
    double w = o["w"].get<int>() / (exact ? 1.0 : 8.0) * f;
    if (op == "hl" || op == "hlx" || op == "none") { return dump(hl.generateHeadlands(cs, w)); }
    if (op == "area" || op == "areax") { return dump(hl.generateHeadlandArea(cs, w, o["n"])); }
    if (op == "rings" || op == "ringsx") {
      json a = json::array();
      auto rings = o["o2i"].get<bool>() && o["n"].get<int>() % 2 ? hl.generateHeadlandSwaths(cs, w, o["n"]) :
        hl.generateHeadlandSwaths(cs, w, o["n"], o["o2i"]);
      for (auto& r : rings) { a.push_back(dump(r)); }
      json main = json::array();
      for (int i = 0; i < o["n"].get<int>(); ++i) { main.push_back(dump(hl.generateHeadlands(cs, w * (i + 0.5)))); }
      return {{"rings", a}, {"main", main}};
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new HlI(); });
}

// Decomposition (spec/Decomp.tla).
#include "geomjson.hpp"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
#include "fields2cover/decomposition/trapezoidal_decomp.h"

struct DecompI : Interp {
  f2c::decomp::TrapezoidalDecomp trap;
  f2c::decomp::BoustrophedonDecomp bous;

  json perform(const json& o) override {
    const std::string op = o["op"];
    if (op == "angle") {
      trap.setSplitAngle(o["v"].get<int>() / 1000.0);
      bous.setSplitAngle(trap.getSplitAngle());
      return qr(bous.getSplitAngle(), 1000);
    }
    if (op == "dec") {
      double dx = o["off"][0], dy = o["off"][1];
      double f = o["f16"].get<int>() / 16.0;  // size of a lattice step
      F2CCells cs = jCells(o["v"], dx, dy, f);
      f2c::decomp::TrapezoidalDecomp& d = o["kind"] == "trap" ? trap : bous;
      d.setSplitAngle(std::atan2(o["d"][1].get<int>(), o["d"][0].get<int>()) +
          o["turn"].get<int>() * 2 * M_PI);
      f2c::obj::DecompObjective obj;
      auto out = [&](const F2CCells& c) {
        json a = json::array();
        for (size_t i = 0; i < c.size(); ++i) {
          json rings = json::array();
          auto cell = c.getGeometry(i);
          for (size_t k = 0; k < cell.size(); ++k) {
            json l = json::array();  // without the points that round to the same one
            auto ring = cell.getGeometry(k);
            for (size_t j = 0; j < ring.size(); ++j) {
              json p = dumpPoint(ring.getGeometry(j), 80, dx, dy, f);
              if (l.empty() || l.back() != p) { l.push_back(p); }
            }
            rings.push_back(l);
          }
          a.push_back(rings);
        }
        return a;
      };
      auto pieces = d.decompose(cs);
      auto lines = d.genSplitLines(cs);
      json areas = json::array(), ls = json::array();
      for (size_t i = 0; i < pieces.size(); ++i) {
        areas.push_back(qr(pieces.getGeometry(i).area() / f / f, 1e6));
      }
      for (size_t i = 0; i < lines.size(); ++i) {
        ls.push_back(dumpLine(lines.getGeometry(i), 80, dx, dy, f));
      }
      json same = json::array();
      for (size_t i = 0; i < cs.size(); ++i) {
        json c = json::array();
        auto cell = cs.getGeometry(i);
        for (size_t k = 0; k < cell.size(); ++k) {
          c.push_back(dumpLine(cell.getGeometry(k), 1, dx, dy, f));
        }
        same.push_back(c);
      }
      return {{"pieces", out(pieces)}, {"area2", area2(pieces.area() / f / f)}, {"areas", areas},
        {"lines", ls}, {"split", out(d.split(cs, obj))}, {"merged", out(d.merge(pieces, obj))},
        {"again", out(d.decompose(cs))}, {"same", same}};
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new DecompI(); });
}

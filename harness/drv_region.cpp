// Polygon queries (spec/RegionQ.tla).
#include "geomjson.hpp"

struct RegionI : Interp {
  F2CCells cells[2];
  // coordinate v of the specification is v * f + (dx, dy) in the library
  double f = 1, dx = 0, dy = 0;
  json dumpPoint(const F2CPoint& p, double s) const { return ::dumpPoint(p, s, dx, dy, f); }
  template <class L>
  json dumpLine(const L& l, double s) const { return ::dumpLine(l, s, dx, dy, f); }
  json dumpCell(const F2CCell& c, double s) const {
    json a = json::array();
    for (size_t i = 0; i < c.size(); ++i) { a.push_back(dumpLine(c.getGeometry(i), s)); }
    return a;
  }
  json dumpCells(const F2CCells& cs, double s) const {
    json a = json::array();
    for (size_t i = 0; i < cs.size(); ++i) { a.push_back(dumpCell(cs.getGeometry(i), s)); }
    return a;
  }
  int area2(double a) const { return ::area2(a / f / f); }
  F2CPoint eighth(const json& p) const {
    return F2CPoint(p[0].get<int>() / 8.0 * f + dx, p[1].get<int>() / 8.0 * f + dy);
  }
  F2CLineString eighthLine(const json& l) const {
    F2CLineString line;
    for (auto& p : l) { line.addPoint(eighth(p)); }
    return line;
  }
  F2CCells jCells(const json& v) const { return ::jCells(v, dx, dy, f); }
  F2CLinearRing jRing(const json& v) const { return ::jRing(v, dx, dy, f); }

  // Parts of `lines` along input line l, in 1/16000 of its length
  static json along(const F2CMultiLineString& lines, const F2CLineString& l) {
    json a = json::array();
    auto s = l.startPoint();
    auto v = l.endPoint() - s;
    double n = v * v;
    for (size_t i = 0; i < lines.size(); ++i) {
      auto part = lines.getGeometry(i);
      std::vector<double> t;
      bool on = part.size() > 0;
      for (size_t k = 0; k < part.size(); ++k) {
        auto u = part.getGeometry(k) - s;
        t.push_back((u * v) / n);
        on = on && std::fabs(F2CPoint::det(v, u)) / std::sqrt(n) < 1e-6;
      }
      if (on) {
        a.push_back({qr(*std::min_element(t.begin(), t.end()), 16000),
                     qr(*std::max_element(t.begin(), t.end()), 16000)});
      }
    }
    return a;
  }
  json covered(const F2CMultiLineString& res, const F2CMultiLineString& ls) const {
    json a = {{"n", res.size()}, {"len", qr(res.length() / f, 1000)}, {"on", json::array()}};
    for (size_t i = 0; i < ls.size(); ++i) { a["on"].push_back(along(res, ls.getGeometry(i))); }
    return a;
  }

  json perform(const json& o) override {
    const std::string op = o["op"];
    if (op == "place") { f = o["f16"].get<int>() / 16.0; dx = o["off"][0]; dy = o["off"][1]; return 0; }
    if (op == "set") {
      F2CCells& cs = cells[o["a"].get<int>() - 1];
      std::string how = o["how"];
      if (how == "rings") {
        cs = jCells(o["v"]);
      } else if (how == "open") {  // the last point is left to the library
        cs = F2CCells();
        for (auto& c : o["v"]) {
          F2CCell cell;
          for (auto& r : c) {
            json open = r;
            open.erase(open.size() - 1);
            cell.addGeometry(jRing(open));
          }
          cs.addGeometry(cell);
        }
      } else {
        F2CCells made = jCells(o["v"]);
        cs = F2CCells();
        cs.importFromWkt(made.exportToWkt());
      }
      return dumpCells(cs, 1);
    }
    if (op == "point") {
      const F2CCells& cs = cells[o["a"].get<int>() - 1];
      auto p = eighth(o["p"]);
      json per = json::array();
      for (size_t i = 0; i < cs.size(); ++i) {
        auto c = cs.getGeometry(i);
        per.push_back({c.isPointIn(p), c.isPointInBorder(p), p.intersects(c)});
      }
      auto cl = cs.closestPointOnBorderTo(p);
      json cls = json::array();
      for (size_t i = 0; i < cs.size(); ++i) {
        cls.push_back(dumpPoint(cs.getGeometry(i).closestPointOnBorderTo(p), 80));
      }
      json rings = json::array();
      auto c0 = cs.getGeometry(0);
      for (size_t i = 0; i < c0.size(); ++i) {
        rings.push_back(dumpPoint(c0.getGeometry(i).closestPointTo(p), 80));
      }
      return {{"in", cs.isPointIn(p)}, {"border", cs.isPointInBorder(p)},
        {"within", p.within(cs)}, {"touches", p.touches(cs)}, {"disjoint", p.disjoint(cs)},
        {"per", per}, {"where", dumpCell(cs.getCellWherePoint(p), 1)},
        {"dist", qr(p.distance(cs) / f, 80)}, {"closest", dumpPoint(cl, 80)}, {"closests", cls},
        {"ringclosest", rings}};
    }
    if (op == "line" || op == "linesof") {
      const F2CCells cs = op == "line" ? cells[o["a"].get<int>() - 1] : jCells(o["v"]);
      F2CMultiLineString ls;
      for (auto& l : o["ls"]) { ls.addGeometry(eighthLine(l)); }
      json r;
      r["multi"] = covered(cs.getLinesInside(ls), ls);
      F2CMultiLineString one(ls.getGeometry(0));
      r["one"] = covered(cs.getLinesInside(ls.getGeometry(0)), one);
      r["cell"] = covered(cs.getGeometry(0).getLinesInside(ls), ls);
      r["cellone"] = covered(cs.getGeometry(0).getLinesInside(ls.getGeometry(0)), one);
      return r;
    }
    if (op == "ray") {
      const F2CCells& cs = cells[o["a"].get<int>() - 1];
      auto p = eighth(o["p"]);
      double ang = std::atan2(o["d"][1].get<int>(), o["d"][0].get<int>());
      auto cell = cs.getGeometry(0);
      return {{"cells", dumpLine(cs.createLineUntilBorder(p, ang), 80)},
        {"cell", dumpLine(cell.createLineUntilBorder(p, ang), 80)},
        {"semi", dumpLine(cs.createSemiLongLine(p, ang), 40)},
        {"straight", dumpLine(cs.createStraightLongLine(p, ang), 40)},
        {"csemi", dumpLine(cell.createSemiLongLine(p, ang), 40)},
        {"cstraight", dumpLine(cell.createStraightLongLine(p, ang), 40)}};
    }
    if (op == "info") {
      const F2CCells& cs = cells[o["a"].get<int>() - 1];
      json per = json::array();
      for (size_t i = 0; i < cs.size(); ++i) {
        auto c = cs.getGeometry(i);
        json rings = json::array();
        for (size_t k = 0; k < c.size(); ++k) {
          auto r = c.getGeometry(k);
          rings.push_back({{"cw", r.isClockwise()}, {"closed", r.isClosed()},
            {"len", qr(r.length() / f, 1000)}, {"area2", area2(r.area())}});
        }
        per.push_back({{"convex", c.isConvex()}, {"area2", area2(c.area())},
          {"hull", dumpCell(c.convexHull(), 1)}, {"rings", rings}});
      }
      return {{"convex", cs.isConvex()}, {"area2", area2(cs.area())},
        {"hull", dumpCell(cs.convexHull(), 1)}, {"per", per},
        {"box", {q((cs.getDimMinX() - dx) / f), q((cs.getDimMaxX() - dx) / f), q((cs.getDimMinY() - dy) / f), q((cs.getDimMaxY() - dy) / f)}},
        {"size", {q(cs.getWidth() / f), q(cs.getHeight() / f), q(cs.getMinSafeLength() / f)}}};
    }
    if (op == "bool") {
      const F2CCells &a = cells[0], &b = cells[1];
      F2CCells both;
      for (size_t i = 0; i < a.size(); ++i) { both.addGeometry(a.getGeometry(i)); }
      for (size_t i = 0; i < b.size(); ++i) { both.addGeometry(b.getGeometry(i)); }
      auto out = [this](const F2CCells& c) -> json {
        return {{"v", dumpCells(c, 80)}, {"area2", area2(c.area())}};
      };
      auto b1 = b.getGeometry(0);
      return {{"or", out(a.unionOp(b))}, {"and", out(a.intersection(b))},
        {"minus", out(a.difference(b))}, {"cascade", out(both.unionCascaded())},
        {"inside", out(a.getCellsInside(b))},
        {"or1", out(a.unionOp(b1))}, {"and1", out(a.intersection(b1))},
        {"minus1", out(a.difference(b1))},
        {"and11", out(F2CCells::intersection(a.getGeometry(0), b1))},
        {"same", {dumpCells(a, 1), dumpCells(b, 1)}}};
    }
    if (op == "split") {
      const F2CCells& cs = cells[o["a"].get<int>() - 1];
      F2CMultiLineString ls;
      for (auto& l : o["ls"]) { ls.addGeometry(eighthLine(l)); }
      auto multi = cs.splitByLine(ls);
      auto one = cs.splitByLine(ls.getGeometry(0));
      return {{"multi", dumpCells(multi, 80)}, {"area2", area2(multi.area())},
        {"one", dumpCells(one, 80)}, {"area1", area2(one.area())}};
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new RegionI(); });
}

// Swath, Swaths, SwathsByCells and the swath orders.
#include "swathjson.hpp"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/custom_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"

struct SwathI : Interp {
  F2CSwath s[4];
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto A = [&]() -> F2CSwath& { return s[o.at("a").get<int>()]; };
    auto B = [&]() -> F2CSwath& { return s[o.at("b").get<int>()]; };
    if (op == "new") {
      F2CSwath n(jline(o.at("p")), o.at("w").get<double>() / 2.0,
                 o.at("id").get<int>(), jtype(o.at("t")));
      A() = n;
      return 0;
    }
    if (op == "newWidth") { F2CSwath n(o.at("w").get<double>() / 2.0); A() = n; return 0; }
    if (op == "newEmpty") { A() = F2CSwath(); return 0; }
    if (op == "newLine") { A() = F2CSwath(jline(o.at("p"))); return 0; }
    if (op == "clone") { A() = B().clone(); return 0; }
    if (op == "take") {  // copy-assign, then drop the source
      F2CSwath c(B());
      A() = c;
      if (&A() != &B()) { B() = F2CSwath(); }
      return 0;
    }
    if (op == "move") {
      A() = std::move(B());
      B() = F2CSwath();
      return 0;
    }
    if (op == "reverse") { A().reverse(); return 0; }
    if (op == "setW") { A().setWidth(o.at("w").get<double>() / 2.0); return 0; }
    if (op == "setId") { A().setId(o.at("id").get<int>()); return 0; }
    if (op == "setType") { A().setType(jtype(o.at("t"))); return 0; }
    if (op == "setDir") { A().setCreationDir(o.at("d").get<bool>()); return 0; }
    if (op == "setPath") { A().setPath(jline(o.at("p"))); return 0; }
    if (op == "same") { A().targetSameDirAs(B()); return 0; }
    if (op == "opp") { A().targetOppositeDirAs(B()); return 0; }
    if (op == "moveTo") { A().moveTo(jpoint(o.at("v"))); return 0; }
    if (op == "get") {
      const F2CSwath& x = A();
      json r = swathj(x);
      bool line = x.numPoints() > 1;
      r["n"] = x.numPoints();
      json pp = json::array();
      for (size_t i = 0; i < x.numPoints(); ++i) { pp.push_back(pointj(x.getPoint(i))); }
      r["gp"] = pp;
      r["len"] = q(x.length());
      r["st"] = pointj(x.startPoint());
      r["en"] = pointj(x.endPoint());
      r["ia"] = line || x.numPoints() == 0 ? (x.numPoints() == 0 ? q(x.getInAngle()) : deg(x.getInAngle())) : 0;
      r["oa"] = line || x.numPoints() == 0 ? (x.numPoints() == 0 ? q(x.getOutAngle()) : deg(x.getOutAngle())) : 0;
      // twice the area: widths are halves
      r["area"] = x.numPoints() != 1 ? q(x.area(), 2.0) : 0;
      return r;
    }
    if (op == "inside") {  // four times the area inside boxes
      F2CCells polys;
      for (auto& b : o.at("boxes")) {
        F2CLinearRing ring;
        const double x0 = b[0], y0 = b[1], x1 = b[2], y1 = b[3];
        for (auto& p : {F2CPoint(x0, y0), F2CPoint(x1, y0), F2CPoint(x1, y1), F2CPoint(x0, y1), F2CPoint(x0, y0)}) {
          ring.addPoint(p);
        }
        polys.addGeometry(F2CCell(ring));
      }
      const F2CSwath& x = A();
      if (x.numPoints() == 1) { return {{"in", 0}, {"cov", 0}, {"all", 0}}; }
      return {{"in", q(x.area(polys), 4.0)}, {"cov", q(x.areaCovered(polys).area(), 4.0)},
              {"all", q(x.areaCovered().area(), 4.0)}};
    }
    if (op == "cmp") {
      const F2CSwath &a = A(), &b = B();
      return {{"eq", a == b}, {"ne", a != b}, {"lt", a < b}, {"gt", a > b},
              {"le", a <= b}, {"ge", a >= b}, {"sd", a.hasSameDir(b)}};
    }
    unknownOp(op);
  }
};

struct SeqI : Interp {
  F2CSwaths v[3];
  F2CSwathsByCells c, kept;
  SeqI() { coordScale = 1.0; }
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto V = [&]() -> F2CSwaths& { return v[o.at("v").get<int>()]; };
    auto U = [&]() -> F2CSwaths& { return v[o.at("u").get<int>()]; };
    auto I = [&]() { return o.at("i").get<int>(); };
    if (op == "scale") { coordScale = o.at("n").get<double>(); return 0; }
    if (op == "emplace") { V().emplace_back(jswath(o.at("s"))); return 0; }
    if (op == "push") { V().push_back(jswath(o.at("s"))); return 0; }
    if (op == "emplaceLine") {
      V().emplace_back(jline(o.at("p")), o.at("w").get<double>() / 2.0, o.at("id").get<int>(), jtype(o.at("t")));
      return 0;
    }
    if (op == "appendLine") {
      V().append(jline(o.at("p")), o.at("w").get<double>() / 2.0, jtype(o.at("t")));
      return 0;
    }
    if (op == "appendLines") {
      F2CMultiLineString m;
      for (auto& l : o.at("ps")) { m.addGeometry(jline(l)); }
      V().append(m, o.at("w").get<double>() / 2.0, jtype(o.at("t")));
      return 0;
    }
    if (op == "appendSeq") { V().append(U().clone()); return 0; }
    if (op == "clone") { V() = U().clone(); return 0; }
    if (op == "make") {
      std::vector<F2CSwath> x;
      for (auto& s : o.at("ss")) { x.push_back(jswath(s)); }
      V() = F2CSwaths(x);
      return 0;
    }
    if (op == "sized") { V() = F2CSwaths(I()); return 0; }
    if (op == "reverse") { V().reverse(); return 0; }
    if (op == "sort") { V().sort(); return 0; }
    if (op == "alt") { V().reverseDirOddSwaths(); return 0; }
    if (op == "moveTo") { V().moveTo(jpoint(o.at("d"))); return 0; }
    if (op == "set") { V().at(I()) = jswath(o.at("s")); return 0; }
    if (op == "setX") { V()[I()] = jswath(o.at("s")); return 0; }
    if (op == "setBack") { V().back() = jswath(o.at("s")); return 0; }
    if (op == "at") { const F2CSwaths& k = V(); return swathj(k.at(I())); }
    if (op == "back") { const F2CSwaths& k = V(); return swathj(k.back()); }
    if (op == "all") {
      const F2CSwaths& k = V();
      json a = json::array();
      for (auto&& s : k) { a.push_back(swathj(s)); }
      return {{"n", k.size()}, {"all", a}};
    }
    // groups
    if (op == "gPush") { c.push_back(V().clone()); return 0; }
    if (op == "gEmplace") { c.emplace_back(V().clone()); return 0; }
    if (op == "gReverse") { c.reverse(); return 0; }
    if (op == "gClone") { F2CSwathsByCells d = c.clone(); c = d; return 0; }
    if (op == "gKeep") { kept = c.clone(); return 0; }
    if (op == "gBack") { kept = F2CSwathsByCells(kept); c = kept.clone(); return 0; }
    if (op == "gMove") { c.at(I()).moveTo(jpoint(o.at("d"))); return 0; }
    if (op == "gMoveX") { c[I()].moveTo(jpoint(o.at("d"))); return 0; }
    if (op == "gTurn") { c.getSwath(I()).reverse(); return 0; }
    if (op == "gAltLast") { c.back().reverseDirOddSwaths(); return 0; }
    if (op == "gSortAll") { for (auto&& g : c) { g.sort(); } return 0; }
    if (op == "gLast") { const F2CSwathsByCells& k = c; return swathsj(k.back()); }
    if (op == "gX") { const F2CSwathsByCells& k = c; return swathsj(k[I()]); }
    if (op == "gList") { c = F2CSwathsByCells {V().clone(), U().clone(), V().clone()}; return 0; }
    if (op == "gSized") { c = F2CSwathsByCells(I()); return 0; }
    if (op == "gMake") {
      std::vector<F2CSwaths> x {V().clone(), U().clone()};
      c = F2CSwathsByCells(x);
      return 0;
    }
    if (op == "gSet") { c.at(I()) = V().clone(); return 0; }
    if (op == "gSwathSet") { c.getSwath(I()) = jswath(o.at("s")); return 0; }
    if (op == "gSwath") { const F2CSwathsByCells& k = c; return swathj(k.getSwath(I())); }
    if (op == "gAt") { const F2CSwathsByCells& k = c; return swathsj(k.at(I())); }
    if (op == "gAll") {
      const F2CSwathsByCells& k = c;
      json a = json::array();
      for (auto&& g : k) { a.push_back(swathsj(g)); }
      json b = json::array();
      for (size_t i = 0; i < kept.size(); ++i) { b.push_back(swathsj(kept[i])); }
      return {{"n", k.size()}, {"total", k.sizeTotal()}, {"all", a}, {"flat", swathsj(k.flatten())}, {"kept", b}};
    }
    if (op == "gFlatten") { V() = c.flatten().clone(); return 0; }
    unknownOp(op);
  }
};

struct OrderI : Interp {
  json perform(const json& o) override {
    const std::string op = o["op"];
    coordScale = o.at("sc").get<double>();
    F2CSwaths in = jswaths(o.at("in"));
    uint32_t var = o.at("var").get<uint32_t>();
    F2CSwaths out;
    if (op == "boust") { out = f2c::rp::BoustrophedonOrder().genSortedSwaths(in, var); }
    else if (op == "snake") { out = f2c::rp::SnakeOrder().genSortedSwaths(in, var); }
    else if (op == "spiral") {
      if (o.at("set").get<bool>()) {
        f2c::rp::SpiralOrder sp;
        sp.setSpiralSize(o.at("k").get<size_t>());
        out = sp.genSortedSwaths(in, var);
      } else {
        out = f2c::rp::SpiralOrder(o.at("k").get<size_t>()).genSortedSwaths(in, var);
      }
    } else if (op == "custom") {
      std::vector<size_t> ord = o.at("ord").get<std::vector<size_t>>();
      if (o.at("set").get<bool>()) {
        f2c::rp::CustomOrder c({0, 0, 0});
        c.setCustomOrder(ord);
        out = c.genSortedSwaths(in, var);
      } else {
        out = f2c::rp::CustomOrder(ord).genSortedSwaths(in, var);
      }
    } else { unknownOp(op); }
    return {{"out", swathsj(out)}, {"after", swathsj(in)}};
  }
};

int main(int argc, char** argv) {
  std::string m = argc > 4 ? argv[4] : "";
  return runDriver(argc, argv, [m]() -> Interp* {
    if (m == "seq") { return new SeqI(); }
    if (m == "order") { return new OrderI(); }
    return new SwathI();
  });
}

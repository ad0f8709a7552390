// Route.
#include "swathjson.hpp"

struct RouteI : Interp {
  F2CRoute r[2];
  F2CGraph2D g;
  static F2CMultiPoint mp(const json& a) {
    F2CMultiPoint m;
    for (auto& p : a) { m.addPoint(jpoint(p)); }
    return m;
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto A = [&]() -> F2CRoute& { return r[o.at("a").get<int>()]; };
    auto B = [&]() -> F2CRoute& { return r[o.at("b").get<int>()]; };
    auto I = [&]() { return o.at("i").get<size_t>(); };
    if (op == "edge") {
      g.addEdge(jpoint(o.at("p")), jpoint(o.at("q")), o.at("c").get<int64_t>());
      return 0;
    }
    if (op == "swaths") {
      if (o.at("ss").empty()) { A().addSwaths(); } else { A().addSwaths(jswaths(o.at("ss"))); }
      return 0;
    }
    if (op == "conswaths") { A().addConnectedSwaths(mp(o.at("ps")), jswaths(o.at("ss"))); return 0; }
    if (op == "swath") { A().addSwath(jswath(o.at("s"))); return 0; }
    if (op == "swathG") {
      A().addSwath(jswath(o.at("s")), g);
      return vptsj([&]() {
        std::vector<F2CPoint> v;
        for (auto&& p : A().getConnection(A().sizeVectorSwaths() - 1)) { v.push_back(p); }
        return v;
      }());
    }
    if (op == "con") { A().addConnection(); return 0; }
    if (op == "conP") { A().addConnection(jpoint(o.at("p"))); return 0; }
    if (op == "conM") { A().addConnection(mp(o.at("ps"))); return 0; }
    if (op == "conV") {
      std::vector<F2CPoint> v;
      for (auto& p : o.at("ps")) { v.push_back(jpoint(p)); }
      A().addConnection(v);
      return 0;
    }
    if (op == "setCon") { A().setConnection(I(), mp(o.at("ps"))); return 0; }
    if (op == "setSwaths") { A().setSwaths(I(), jswaths(o.at("ss"))); return 0; }
    if (op == "growCon") { A().getConnection(I()).addPoint(jpoint(o.at("p"))); return 0; }
    if (op == "growLastCon") { A().getLastConnection().addPoint(jpoint(o.at("p"))); return 0; }
    if (op == "growSwaths") { A().getSwaths(I()).push_back(jswath(o.at("s"))); return 0; }
    if (op == "growLastSwaths") { A().getLastSwaths().push_back(jswath(o.at("s"))); return 0; }
    if (op == "flip") { for (auto&& s : A().getSwaths(I())) { s.reverse(); } return 0; }
    if (op == "clone") { A() = B().clone(); return 0; }
    if (op == "new") { A() = F2CRoute(); return 0; }
    if (op == "get") {
      const F2CRoute& c = A();
      json sw = json::array(), cn = json::array(), sw2 = json::array(), cn2 = json::array();
      for (auto&& s : c.getVectorSwaths()) { sw.push_back(swathsj(s)); }
      for (auto&& m : c.getConnections()) { cn.push_back(ptsj(m)); }
      for (size_t i = 0; i < c.sizeVectorSwaths(); ++i) { sw2.push_back(swathsj(c.getSwaths(i))); }
      for (size_t i = 0; i < c.sizeConnections(); ++i) { cn2.push_back(ptsj(c.getConnection(i))); }
      json r {{"sw", sw}, {"cn", cn}, {"sw2", sw2}, {"cn2", cn2},
              {"line", ptsj(c.asLineString())}, {"len", qr(c.length(), 1000)},
              {"st", pointj(c.startPoint())}, {"en", pointj(c.endPoint())},
              {"empty", c.isEmpty()}};
      if (c.sizeVectorSwaths() > 0) { r["ls"] = swathsj(c.getLastSwaths()); }
      if (c.sizeConnections() > 0) { r["lc"] = ptsj(c.getLastConnection()); }
      return r;
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, []() -> Interp* { return new RouteI(); });
}

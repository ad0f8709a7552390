// Objective values (spec/Objectives.tla).
#include "geomjson.hpp"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/pp_obj/path_length.h"
#include "fields2cover/objectives/rp_obj/complete_turn_path_obj.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"

static F2CPoint pt(const json& p) { return F2CPoint(p[0].get<int>(), p[1].get<int>()); }
static F2CLineString line(const json& l) {
  F2CLineString r;
  for (auto& p : l) { r.addPoint(pt(p)); }
  return r;
}
static std::vector<F2CPoint> pts(const json& l) {
  std::vector<F2CPoint> r;
  for (auto& p : l) { r.push_back(pt(p)); }
  return r;
}
static F2CMultiPoint mpts(const json& l) {
  F2CMultiPoint r;
  for (auto& p : l) { r.addPoint(pt(p)); }
  return r;
}
static int quarter(double a) { return static_cast<int>(std::llround(a / (0.5 * M_PI))) & 3; }

// Charges the angles it is asked with
struct TurnObj : f2c::obj::RPObjective {
  using RPObjective::computeCost;
  double computeCost(const F2CPoint& p, const F2CPoint& q) override { return p.distance(q); }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q) override {
    return p.distance(q) + 100 * quarter(a);
  }
  double computeCost(const F2CPoint& p, const F2CPoint& q, double b) override {
    return p.distance(q) + 1000 * quarter(b);
  }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q, double b) override {
    return p.distance(q) + 100 * quarter(a) + 1000 * quarter(b);
  }
};

// Turns whose length tells what they were asked with
struct TellingTurns : f2c::pp::TurningBase {
  double extra {0.0};
  F2CPath createSimpleTurn(const F2CRobot& robot, double d, double a, double b) override {
    F2CPath path;
    path.addState(F2CPoint(0, 0), a, d);
    path.addState(F2CPoint(d / 3, 0), a, 1000 + d * std::cos(a));
    path.addState(F2CPoint(d / 2, 0), b, 3 * (1000 + d * std::cos(b)));
    path.addState(F2CPoint(d, 0), b, extra + 10 * robot.getTurnVel());
    return path;
  }
};
using TurnerObj = f2c::obj::CompleteTurnPathObj<TellingTurns, f2c::obj::PathLength>;

// 100 for every ring of a cell, the width of a swath
struct AddObj : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  double computeCost(double ang, double w, const F2CCell& c) override { return 100.0 * c.size(); }
  double computeCost(const F2CSwath& s) override { return s.getWidth(); }
};

struct ObjI : Interp {
  static std::unique_ptr<f2c::obj::RPObjective> rp(const json& kind) {
    if (kind == "turn") { return std::make_unique<TurnObj>(); }
    if (kind == "turner") {
      static int n = 0;
      F2CRobot robot(2.0);
      robot.setTurnVel(2.0);
      TellingTurns turns;
      turns.extra = 5.0;
      if (++n % 2) { return std::make_unique<TurnerObj>(robot, turns); }
      auto o = std::make_unique<TurnerObj>(F2CRobot(3.0));
      o->setRobot(robot);
      o->setTurnPlanner(turns);
      return o;
    }
    if (kind == "plain") { return std::make_unique<f2c::obj::RPObjective>(); }
    return std::make_unique<f2c::obj::DirectDistPathObj>();
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    if (op == "sg") {
      F2CCells cs = jCells(o["v"]);
      F2CCell c = cs.getGeometry(0);
      F2CSwathsByCells by;
      F2CSwaths all;
      for (auto& g : o["g"]) {
        F2CSwaths ss;
        for (auto& s : g) {
          ss.emplace_back(F2CSwath(line(s["p"]), 2 * s["h"].get<int>(), ss.size()));
          all.emplace_back(ss.back());
        }
        by.emplace_back(ss);
      }
      bool one = cs.size() == 1;
      f2c::obj::NSwath n;
      f2c::obj::SwathLength len;
      f2c::obj::FieldCoverage cov;
      f2c::obj::Overlaps over;
      json r;
      r["n"] = {q(n.computeCost(all)), q(n.computeCost(cs, all)), q(n.computeCost(by))};
      r["len"] = {qr(len.computeCost(all), 1000), qr(len.computeCost(c, all), 1000),
        qr(len.computeCost(cs, by), 1000)};
      r["cov"] = {qr(cov.computeCost(cs, all), 1e6)};
      r["over"] = {qr(over.computeCost(cs, all), 1e6)};
      if (one) {
        r["cov"].push_back(qr(cov.computeCost(c, all), 1e6));
        r["over"].push_back(qr(over.computeCost(c, all), 1e6));
      }
      r["covby"] = qr(one ? cov.computeCost(c, by) : cov.computeCost(cs, by), 1e6);
      r["overby"] = qr(one ? over.computeCost(c, by) : over.computeCost(cs, by), 1e6);
      r["sign"] = {q(n.computeCostWithMinimizingSign(all)),
        qr(len.computeCostWithMinimizingSign(all), 1000),
        qr(cov.computeCostWithMinimizingSign(cs, all), 1e6),
        qr(over.computeCostWithMinimizingSign(cs, all), 1e6)};
      AddObj add;
      r["add"] = {q(add.computeCost(c)), q(add.computeCost(cs)), q(add.computeCost(all)),
        q(add.computeCost(by)), q(add.computeCost(c, all)), q(add.computeCost(cs, all)),
        q(add.computeCost(c, by)), q(add.computeCost(cs, by))};
      json each = json::array();
      for (auto&& s : all) {
        each.push_back({q(add.computeCost(s)), q(add.computeCost(c, s)), q(add.computeCost(cs, s))});
      }
      r["each"] = each;
      return r;
    }
    if (op == "rem") {
      F2CCells t = jCells(o["v"]), u = jCells(o["u"]);
      f2c::obj::RemArea rem;
      json a = {qr(rem.computeCost(t, u), 1e6)};
      if (t.size() == 1) { a.push_back(qr(rem.computeCost(t.getGeometry(0), u), 1e6)); }
      if (u.size() == 1) { a.push_back(qr(rem.computeCost(t, u.getGeometry(0)), 1e6)); }
      if (t.size() == 1 && u.size() == 1) {
        a.push_back(qr(rem.computeCost(t.getGeometry(0), u.getGeometry(0)), 1e6));
      }
      return {{"rem", a}, {"sign", qr(rem.computeCostWithMinimizingSign(t, u), 1e6)}};
    }
    if (op == "mod") {
      F2CCell c = jCells(o["v"]).getGeometry(0);
      f2c::obj::NSwathModified mod;
      double ang = std::atan2(o["d"][1].get<int>(), o["d"][0].get<int>());
      return {{"mod", qr(mod.computeCost(ang, o["w"].get<int>() / 8.0, c), 1000)},
        {"none", qr(mod.computeCost(ang, 1.0, F2CCell()) + mod.computeCost(ang, 0.0, c), 1000)},
        {"fast", mod.isFastCompAvailable()}};
    }
    if (op == "rp") {
      auto obj = rp(o["kind"]);
      F2CSwath a(line(o["a"]), 3.0, 7), b(line(o["b"]), 2.0, 4, f2c::types::SwathType::HEADLAND);
      auto ps = mpts(o["ps"]);
      F2CPoint p = pt(o["p"]);
      double ang = o["q"].get<int>() * 0.5 * M_PI;
      F2CSwaths ab {a, b}, ba {b, a};
      auto m = [](double d) { return qr(d, 1000); };
      json r;
      r["pts"] = {m(obj->computeCost(pts(o["ps"]))), m(obj->computeCost(ps))};
      r["s"] = m(obj->computeCost(a));
      r["ss"] = m(obj->computeCost(a, b));
      r["sp"] = m(obj->computeCost(a, p));
      r["spa"] = m(obj->computeCost(a, p, ang));
      r["ps"] = m(obj->computeCost(p, a));
      r["pas"] = m(obj->computeCost(p, ang, a));
      r["sm"] = {m(obj->computeCost(a, ps)), m(obj->computeCost(ab, ps))};
      r["ms"] = {m(obj->computeCost(ps, a)), m(obj->computeCost(ps, ab))};
      r["g"] = m(obj->computeCost(ab));
      return r;
    }
    if (op == "route") {
      F2CRoute route;
      for (size_t i = 0; i < o["cn"].size(); ++i) {
        route.addConnection();
        route.getLastConnection() = mpts(o["cn"][i]);
        if (i < o["sw"].size()) {
          F2CSwaths ss;
          for (auto& s : o["sw"][i]) { ss.emplace_back(F2CSwath(line(s), 1.0 + ss.size() % 3, ss.size() % 2)); }
          route.addSwaths(ss);
        }
      }
      return qr(rp(o["kind"])->computeCost(route), 1000);
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new ObjI(); });
}

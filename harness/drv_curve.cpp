// Curve generators (spec/Curve.tla): what they ask the curve library for and
// what they make of its answer.  Angles are given in twelfths of pi.
#include "common.hpp"
#include "fields2cover/types.h"
#include "steering_functions/steering_functions.hpp"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"

struct Curve : Interp {
  f2c::pp::DubinsCurves dubins;
  f2c::pp::DubinsCurvesCC cc;
  f2c::pp::ReedsSheppCurves reeds;
  f2c::pp::ReedsSheppCurvesHC hc;
  f2c::pp::TurningBase& gen(int i) {
    switch (i) {
      case 1: return dubins;
      case 2: return cc;
      case 3: return reeds;
      default: return hc;
    }
  }
  static double ang(const json& j) { return j.get<int>() * M_PI / 12.0; }
  static json jang(double a) { return {qr(std::cos(a), 1e5), qr(std::sin(a), 1e5)}; }
  static json jstate(const steer::State& s) {
    return {qr(s.x, 1e3), qr(s.y, 1e3), qr(std::cos(s.theta), 1e5), qr(std::sin(s.theta), 1e5), qr(s.kappa, 1e6), qr(s.d, 1)};
  }
  json perform(const json& op) override {
    if (op["op"] == "disc") {
      for (int i = 1; i <= 4; ++i) { gen(i).setDiscretization(op["v"].get<int>() / 1000.0); }
      json a = json::array();
      for (int i = 1; i <= 4; ++i) { a.push_back(qr(gen(i).getDiscretization(), 1000)); }
      return a;
    }
    F2CRobot robot(2.0, 5.0);
    robot.setMaxCurv(op["curv"].get<int>() / 1000.0);
    robot.setMaxDiffCurv(op["diff"].get<int>() / 1000.0);
    robot.setCruiseVel(1.0);
    if (op["vel"] != 0) { robot.setTurnVel(op["vel"].get<int>()); }
    json asked = json::array();
    size_t tries = 0;
    steer_stub::world().controls = [&] (const steer_stub::Request& r) {
      std::vector<steer::Control> cs;
      const auto& script = op["controls"];
      if (!script.empty()) {
        const auto& c = script[std::min(tries, script.size() - 1)];
        for (auto& m : c) {
          steer::Control k;
          if (m == 0) {
            k.delta_s = 50.0;
          } else {
            k.kappa = m > 0 ? 0.5 : -0.5;
            k.delta_s = std::abs(m.get<int>()) * M_PI / 5.0;
          }
          cs.push_back(k);
        }
      }
      ++tries;
      return cs;
    };
    steer_stub::world().path = [&] (const steer_stub::Request& r) {
      asked.push_back({{"name", r.name}, {"k", qr(r.kappa, 1e6)}, {"s", qr(r.sigma, 1e6)},
          {"disc", qr(r.disc, 1e6)}, {"fwd", r.forwards}, {"a", jstate(r.a)}, {"b", jstate(r.b)}});
      std::vector<steer::State> v;
      for (auto& s : op["states"]) {
        steer::State t;
        t.x = s[0].get<int>() / 8.0;
        t.y = s[1].get<int>() / 8.0;
        t.theta = ang(s[2]);
        t.d = s[3].get<int>();
        v.push_back(t);
      }
      return v;
    };
    F2CPath path;
    if (op["op"] == "simple") {
      path = gen(op["gen"]).createSimpleTurn(robot, op["d"].get<int>() / 8.0, ang(op["a"]), ang(op["b"]));
    } else if (op["op"] == "constrained") {
      const auto &p = op["p"], &t = op["t"];
      path = cc.createConstrainedTurn(robot,
          F2CPoint(p[0].get<int>() / 8.0, p[1].get<int>() / 8.0), ang(op["a"]), op["ka"].get<int>() / 1000.0,
          F2CPoint(t[0].get<int>() / 8.0, t[1].get<int>() / 8.0), ang(op["b"]), op["kb"].get<int>() / 1000.0, op["fix"]);
    } else {
      unknownOp(op["op"]);
    }
    json a = json::array();
    for (auto&& s : path) {
      a.push_back({qr(s.point.getX(), 1000), qr(s.point.getY(), 1000), qr(std::cos(s.angle), 1e5),
          qr(std::sin(s.angle), 1e5), qr(s.len, 1000), static_cast<int>(s.dir),
          static_cast<int>(s.type), qr(s.velocity, 1000)});
    }
    return {{"asked", asked}, {"path", a}};
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new Curve(); });
}

// Turn generators (spec/Turn.tla).  The generator under test makes turns whose
// lengths tell which request, robot and settings they were made for.
#include "common.hpp"
#include "fields2cover/path_planning/turning_base.h"

static double rad(double mdeg) { return mdeg * M_PI / 180000.0; }
static int mdeg(double rad) { return qr(rad * 180.0 / M_PI, 1000.0); }

struct FakeTurn : f2c::pp::TurningBase {
  int e0 {0}, e1 {0}, n {8};
  F2CPath createSimpleTurn(const F2CRobot& robot, double d, double a, double b) override {
    F2CPath path;
    for (int k = 0; k < n; ++k) {
      double x = k == 0 ? 0.0 : k == n - 1 ? d : k;
      double y = k == 0 ? e0 / 1000.0 : k == n - 1 ? e1 / 1000.0 : (k * k) % 5;
      double ang = k == 0 ? a : k == n - 1 ? b : F2CPoint::mod_2pi(a + k * M_PI / 6.0);
      const double lens[8] = {robot.getMaxCurv(), robot.getMaxDiffCurv(), d, a, b, discretization, 0, 0};
      path.addState(F2CPoint(x, y), ang, lens[k],
          k % 3 == 1 ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD,
          f2c::types::PathSectionType::TURN, robot.getTurnVel());
    }
    return path;
  }
};

struct TurnI : Interp {
  FakeTurn gen;
  F2CRobot robot {2.0, 5.0};
  TurnI() {
    robot.setMaxCurv(0.5);
    robot.setMaxDiffCurv(0.2);
    robot.setTurnVel(1.0);
  }
  json settings() const {
    return {{"disc", qr(gen.getDiscretization(), 1000)}, {"cache", gen.getUsingCache()}};
  }
  static json dump(const F2CPath& p, double dx, double dy) {
    json a = json::array();
    for (size_t k = 0; k < p.size(); ++k) {
      const auto& s = p[k];
      a.push_back({qr(s.point.getX() - dx, 1e4), qr(s.point.getY() - dy, 1e4), mdeg(s.angle),
          k == 3 || k == 4 ? mdeg(s.len) : qr(s.len, 1000), static_cast<int>(s.dir),
          static_cast<int>(s.type), qr(s.velocity, 1000)});
    }
    return a;
  }
  json perform(const json& op) override {
    const std::string o = op["op"];
    if (o == "gen") {
      gen = FakeTurn();
      gen.e0 = op["e0"];
      gen.e1 = op["e1"];
      gen.n = op["n"];
      return settings();
    }
    if (o == "disc") { gen.setDiscretization(op["v"].get<int>() / 1000.0); return settings(); }
    if (o == "cache") { gen.setUsingCache(op["v"]); return settings(); }
    if (o == "curv") { robot.setMaxCurv(op["v"].get<int>() / 1000.0); return settings(); }
    if (o == "radius") { robot.setMinTurningRadius(op["v"].get<int>() / 1000.0); return settings(); }
    if (o == "dcurv") { robot.setMaxDiffCurv(op["v"].get<int>() / 1000.0); return settings(); }
    if (o == "vel") { robot.setTurnVel(op["v"].get<int>() / 1000.0); return settings(); }
    if (o == "turn" || o == "normal") {
      static const int dirs[16][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {4, 3}, {3, 4}, {-3, 4}, {-4, 3},
        {-4, -3}, {-3, -4}, {3, -4}, {4, -3}, {12, 5}, {-5, 12}, {-12, -5}, {5, -12}};
      const int* u = dirs[op["d"].get<int>() - 1];
      double dx = op["off"][0], dy = op["off"][1], t = op["t"].get<int>() / 1000.0;
      F2CPoint p(dx + op["p"][0].get<int>() / 1000.0, dy + op["p"][1].get<int>() / 1000.0);
      F2CPoint q(dx + (op["p"][0].get<int>() + op["t"].get<int>() * u[0]) / 1000.0,
                 dy + (op["p"][1].get<int>() + op["t"].get<int>() * u[1]) / 1000.0);
      double a = rad(op["a"]), b = rad(op["b"]);
      if (o == "normal") {
        auto v = f2c::pp::TurningBase::transformToNormalTurn(p, a, q, b);
        return {qr(v.at(0), 1000), mdeg(v.at(1)), mdeg(v.at(2)), mdeg(v.at(3)), static_cast<int>(v.at(4))};
      }
      FakeTurn fresh;
      fresh.setUsingCache(false);
      fresh.setDiscretization(gen.getDiscretization());
      fresh.e0 = gen.e0; fresh.e1 = gen.e1; fresh.n = gen.n;
      return {{"turn", dump(gen.createTurn(robot, p, a, q, b), dx, dy)},
              {"fresh", dump(fresh.createTurn(robot, p, a, q, b), dx, dy)}};
    }
    if (o == "simple") {
      double d = op["d"].get<int>() / 1000.0;
      return {{"turn", dump(gen.createTurnIfNotCached(robot, d, rad(op["a"]), rad(op["b"])), 0, 0)},
              {"fresh", dump(gen.createSimpleTurn(robot, d, rad(op["a"]), rad(op["b"])), 0, 0)}};
    }
    if (o == "valid") {
      F2CPath path;
      for (auto& s : op["s"]) {
        path.addState(F2CPoint(s[0].get<int>() / 1000.0, s[1].get<int>() / 1000.0), rad(s[2]), s[3].get<int>() / 1000.0);
      }
      double d = op["dist"].get<int>() / 1000.0, b = rad(op["b"]);
      if (op["md"] == 50 && op["mr"] == 100) { return f2c::pp::TurningBase::isTurnValid(path, d, b); }
      return f2c::pp::TurningBase::isTurnValid(path, d, b, op["md"].get<int>() / 1000.0, op["mr"].get<int>() / 1000.0);
    }
    unknownOp(o);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new TurnI(); });
}

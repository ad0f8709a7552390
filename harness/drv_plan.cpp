// Planned paths (spec/Plan.tla) with turns that drive straight from pose to pose.
#include "common.hpp"
#include "fields2cover/types.h"
#include "fields2cover/path_planning/path_planning.h"

struct StraightTurn : f2c::pp::TurningBase {
  json calls = json::array();
  F2CPath createSimpleTurn(const F2CRobot& robot, double d, double a, double b) override {
    calls.push_back({qr(d, 1000), qr(std::cos(a), 1e5), qr(std::sin(a), 1e5), qr(std::cos(b), 1e5), qr(std::sin(b), 1e5)});
    F2CPath path;
    const double ang[3] = {a, 0.0, b}, x[3] = {0.0, d / 2, d}, len[3] = {d / 2, d / 2, 0.0};
    for (int k = 0; k < 3; ++k) {
      path.addState(F2CPoint(x[k], 0.0), ang[k], len[k], f2c::types::PathDirection::FORWARD,
          f2c::types::PathSectionType::TURN, robot.getTurnVel());
    }
    return path;
  }
};

struct PlanI : Interp {
  static F2CPoint pt(const json& j) { return F2CPoint(j[0].get<int>(), j[1].get<int>()); }
  static F2CSwaths group(const json& j) {
    F2CSwaths g;
    for (auto& s : j) {
      F2CLineString line;
      for (auto& p : s) { line.addPoint(pt(p)); }
      g.push_back(F2CSwath(line, 2.0, g.size()));
    }
    return g;
  }
  json perform(const json& op) override {
    static const double robots[4][2] = {{1.0, 10.0}, {0.5, 10.0}, {1.0, 0.5}, {0.2, 0.2}};
    F2CRobot robot(2.0, 5.0);
    const double* rb = robots[op["robot"].get<int>() - 1];
    robot.setMaxCurv(rb[0]);
    robot.setMaxDiffCurv(rb[1]);
    robot.setCruiseVel(op["cruise"].get<int>());
    robot.setTurnVel(op["turn"].get<int>());
    StraightTurn turn;
    turn.setUsingCache(false);
    F2CPath path;
    if (op["op"] == "group") {
      path = f2c::pp::PathPlanning::planPath(robot, group(op["swaths"]), turn);
    } else if (op["op"] == "route") {
      F2CRoute route;
      const auto& parts = op["parts"];
      for (size_t i = 0; i < parts.size(); ++i) {
        F2CMultiPoint mp;
        for (auto& p : parts[i]["con"]) { mp.addPoint(pt(p)); }
        route.addConnection(mp);
        if (!(i + 1 == parts.size() && parts[i]["swaths"].empty())) {
          route.addSwaths(group(parts[i]["swaths"]));
        }
      }
      path = f2c::pp::PathPlanning::planPath(robot, route, turn);
    } else {
      unknownOp(op["op"]);
    }
    json a = json::array();
    for (auto&& s : path) {
      a.push_back({qr(s.point.getX(), 1000), qr(s.point.getY(), 1000), qr(std::cos(s.angle), 1e5),
          qr(std::sin(s.angle), 1e5), qr(s.len, 1000), static_cast<int>(s.dir),
          static_cast<int>(s.type), qr(s.velocity, 1)});
    }
    return {{"path", a}, {"calls", turn.calls}};
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new PlanI(); });
}

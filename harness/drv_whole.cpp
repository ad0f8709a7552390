// Planning a coverage route and path in one call (spec/Whole.tla), with turns
// that drive straight from pose to pose behind every curve generator.
#include "geomjson.hpp"
#include "swathjson.hpp"
#include "fields2cover.h"
#include "steering_functions/steering_functions.hpp"

struct Whole : Interp {
  json used = json::array();
  double sx {0.0}, sy {0.0};  // what a lattice coordinate is shifted by
  std::unique_ptr<OGRCoordinateTransformation, void(*)(OGRCoordinateTransformation*)>
    back {nullptr, [] (OGRCoordinateTransformation*) {}};
  json at(F2CPoint p) const {
    if (back) { p->transform(back.get()); }
    return {qr(p.getX() - sx, 1000), qr(p.getY() - sy, 1000)};
  }
  template <class S> json line(const S& s) const {
    json pts = json::array();
    for (size_t k = 0; k < s.numPoints(); ++k) { pts.push_back(at(s.getPoint(k))); }
    return pts;
  }
  static f2c::Options options(const json& op) {
    f2c::Options o;
    o.hg_alg = op["hg"] == "none" ? f2c::HGAlg::NONE : f2c::HGAlg::CONST;
    o.hg_swaths = op["n"];
    o.sg_alg = op["sg"] == "best" ? f2c::SGAlg::BRUTE_FORCE : f2c::SGAlg::GIVEN_ANGLE;
    o.sg_angle = op["d"].get<int>() * M_PI / 2;
    o.sg_obj = static_cast<f2c::SGObjFunc>(op["obj"].get<int>());
    o.pp_alg = static_cast<f2c::PPAlg>(op["pp"].get<int>() - 1);
    return o;
  }
  static std::string state(const F2CField& f) {
    return f.getField().exportToWkt() + "|" + f.getRefPoint().exportToWkt() + "|" + f.getCRS() + "|" + f.getPrevCRS() + "|" + f.getId();
  }
  F2CCells bestOn(const F2CCells& cells, const json& op) const {
    f2c::hg::ConstHL hl;
    return op["hg"] == "none" ? cells : hl.generateHeadlandArea(cells, op["w"].get<int>(), op["n"].get<int>());
  }
  json perform(const json& op) override {
    static const double robots[4][2] = {{1.0, 10.0}, {0.5, 10.0}, {1.0, 0.5}, {0.2, 0.2}};
    const double* rb = robots[op["robot"].get<int>() - 1];
    F2CRobot robot(op["w"].get<int>(), op["cw"].get<int>(), rb[0], rb[1]);
    robot.setCruiseVel(op["cruise"].get<int>());
    robot.setTurnVel(op["turn"].get<int>());
    used = json::array();
    steer_stub::world().controls = [] (const steer_stub::Request&) { return std::vector<steer::Control>(); };
    steer_stub::world().path = [this] (const steer_stub::Request& r) {
      json u = {r.name, qr(r.kappa, 1e6), qr(r.disc, 1e6)};
      if (used.empty() || used.back() != u) { used.push_back(u); }
      const double d = r.b.x - r.a.x, x[3] = {0.0, d / 2, d}, t[3] = {r.a.theta, 0.0, r.b.theta};
      std::vector<steer::State> v(3);
      for (int k = 0; k < 3; ++k) {
        v[k].x = r.a.x + x[k];
        v[k].y = r.a.y;
        v[k].theta = t[k];
        v[k].d = 1;
      }
      return v;
    };
    const std::string kind = op["kind"];
    const bool def = op["def"];
    const auto opt = options(op);
    const double dx = op["off"][0], dy = op["off"][1];
    back.reset();
    sx = dx;
    sy = dy;
    F2CRoute route;
    F2CPath path;
    F2CCells cells = jCells(op["cells"], dx, dy), mainland;
    std::string before, after;
    json best = json::array();
    if (kind == "cell") {
      F2CCell cell = cells.getGeometry(0);
      before = cell.exportToWkt();
      route = def ? f2c::planCovRoute(robot, cell) : f2c::planCovRoute(robot, cell, opt);
      path = def ? f2c::planCovPath(robot, cell) : f2c::planCovPath(robot, cell, opt);
      after = cell.exportToWkt();
      mainland = bestOn(F2CCells(cell), op);
    } else if (kind == "cells") {
      before = cells.exportToWkt();
      route = def ? f2c::planCovRoute(robot, cells) : f2c::planCovRoute(robot, cells, opt);
      path = def ? f2c::planCovPath(robot, cells) : f2c::planCovPath(robot, cells, opt);
      after = cells.exportToWkt();
      mainland = bestOn(cells, op);
    } else {
      F2CField field(cells, "f");
      const std::string utm = op["crs"];
      field.setCRS(utm);
      if (kind == "geo") {
        f2c::Transform::transform(field, "EPSG:4326");
        back = f2c::Transform::generateCoordTransf("EPSG:4326", utm);
      } else if (kind == "local") {
        sx -= field.getRefPoint().getX();
        sy -= field.getRefPoint().getY();
      }
      const bool local = kind == "local";
      before = state(field);
      route = def ? f2c::planCovRoute(robot, field, local) : f2c::planCovRoute(robot, field, opt, local);
      path = def ? f2c::planCovPath(robot, field, local) : f2c::planCovPath(robot, field, opt, local);
      after = state(field);
      if (local) { mainland = bestOn(field.getField(), op); }
    }
    if (op["sg"] == "best" && !mainland.isEmpty()) {
      f2c::sg::BruteForce bf;
      static const std::vector<std::shared_ptr<f2c::obj::SGObjective>> objs {
        std::make_shared<f2c::obj::NSwathModified>(), std::make_shared<f2c::obj::NSwath>(),
        std::make_shared<f2c::obj::SwathLength>(), std::make_shared<f2c::obj::FieldCoverage>(),
        std::make_shared<f2c::obj::Overlaps>()};
      for (auto&& g : bf.generateBestSwaths(*objs[op["obj"].get<int>()], robot.getCovWidth(), mainland)) {
        for (auto&& s : g) { best.push_back(line(s)); }
      }
    }
    json con = json::array(), groups = json::array(), states = json::array();
    for (size_t i = 0; i < route.sizeConnections(); ++i) {
      json c = json::array();
      for (auto&& p : route.getConnection(i)) { c.push_back(at(p)); }
      con.push_back(c);
    }
    for (size_t i = 0; i < route.sizeVectorSwaths(); ++i) {
      json g = json::array();
      for (auto&& s : route.getSwaths(i)) {
        g.push_back({{"id", s.getId()}, {"w", q(s.getWidth())},
            {"type", s.getType() == f2c::types::SwathType::HEADLAND ? 1 : 0}, {"pts", line(s)}});
      }
      groups.push_back(g);
    }
    for (auto&& s : path) {
      json p = at(s.point);
      states.push_back({p[0], p[1], qr(std::cos(s.angle), 1e5), qr(std::sin(s.angle), 1e5), qr(s.len, 1000),
          static_cast<int>(s.dir), static_cast<int>(s.type), qr(s.velocity, 1)});
    }
    return {{"con", con}, {"groups", groups}, {"path", states}, {"best", best}, {"used", used}, {"before", before}, {"after", after}};
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new Whole(); }, 60);
}

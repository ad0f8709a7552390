// Fields, coordinate systems and transformations (spec/FieldRef.tla).
// Positions are reported as GPS degrees measured with this driver's own
// projection calls, in 1e-8 degree relative to the scenario's base.
#include <ogr_spatialref.h>
#include <cstring>
#include <map>
#include <memory>
#include "swathjson.hpp"
#include "fields2cover/types.h"
#include "fields2cover/utils/transformation.h"

namespace {

struct Proj {
  std::map<std::string, std::pair<std::shared_ptr<OGRCoordinateTransformation>,
                                  std::shared_ptr<OGRCoordinateTransformation>>> cache;
  static void ref(OGRSpatialReference& r, const std::string& crs) {
    if (crs.rfind("EPSG:", 0) == 0) {
      r.importFromEPSG(std::atoi(crs.c_str() + 5));
    } else {
      // UTM:<zone><N|S> datum:<name>
      int zone = std::atoi(crs.c_str() + 4);
      bool south = crs.find(std::to_string(zone) + "S") != std::string::npos ||
                   crs.find(std::to_string(zone) + "s") != std::string::npos;
      bool etrs = crs.find("ETRS89") != std::string::npos || crs.find("etrs89") != std::string::npos;
      std::string p = "+proj=utm +zone=" + std::to_string(zone) + (south ? " +south" : "") +
          (etrs ? " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0" : " +datum=WGS84") + " +units=m +no_defs";
      r.importFromProj4(p.c_str());
    }
    r.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
  }
  std::pair<double, double> go(const std::string& crs, double x, double y, bool to_gps) {
    if (crs.empty()) { return {x, y}; }
    auto it = cache.find(crs);
    if (it == cache.end()) {
      OGRSpatialReference a, b;
      ref(a, crs);
      ref(b, "EPSG:4326");
      auto del = [](OGRCoordinateTransformation* t) { OGRCoordinateTransformation::DestroyCT(t); };
      std::shared_ptr<OGRCoordinateTransformation> f(OGRCreateCoordinateTransformation(&a, &b), del);
      std::shared_ptr<OGRCoordinateTransformation> g(OGRCreateCoordinateTransformation(&b, &a), del);
      it = cache.emplace(crs, std::make_pair(f, g)).first;
    }
    auto& t = to_gps ? it->second.first : it->second.second;
    if (!t || !t->Transform(1, &x, &y)) { return {1e9, 1e9}; }
    return {x, y};
  }
};
Proj& proj() { static Proj p; return p; }

}  // namespace

struct FieldI : Interp {
  double lon0 = 0, lat0 = 0;
  std::vector<F2CField> f{3};
  std::vector<std::string> crs;  // of what make created (to build inputs)

  json gps(const F2CPoint& p, const std::string& c) {
    auto g = proj().go(c, p.getX(), p.getY(), true);
    return {qr(g.first - lon0, 1e8), qr(g.second - lat0, 1e8)};
  }
  F2CPoint in(const json& ij, const std::string& c) {
    auto g = proj().go(c, lon0 + ij[0].get<double>() * 1e-4, lat0 + ij[1].get<double>() * 1e-4, false);
    return F2CPoint(g.first, g.second);
  }
  json cellsj(const F2CCells& cs, const F2CPoint& ref, const std::string& c) {
    json a = json::array();
    for (size_t i = 0; i < cs.size(); ++i) { a.push_back(cellj(cs.getGeometry(i), ref, c)); }
    return a;
  }
  json cellj(const F2CCell& cell, const F2CPoint& ref, const std::string& c) {
    json b = json::array();
    for (size_t j = 0; j < cell.size(); ++j) {
      json r = json::array();
      auto ring = cell.getGeometry(j);
      for (size_t k = 0; k < ring.size(); ++k) { r.push_back(gps(ring.getGeometry(k) + ref, c)); }
      b.push_back(r);
    }
    return b;
  }
  template <class L>
  json lineg(const L& l, const std::string& c) {
    json a = json::array();
    for (size_t i = 0; i < l.size(); ++i) { a.push_back(gps(l.getGeometry(i), c)); }
    return a;
  }
  json one(const F2CField& x) {
    json r = {{"id", x.getId()}, {"crs", x.getCRS()}, {"prev", x.getPrevCRS()}, {"empty", x.isEmpty()}};
    r["gps"] = cellsj(x.getField(), x.getRefPoint(), x.getCRS());
    r["abs"] = cellsj(x.getCellsAbsPosition(), F2CPoint(0, 0), x.getCRS());
    r["ref"] = gps(x.getRefPoint(), x.getCRS());
    r["first"] = json::array();
    if (!x.isEmpty()) {
      F2CPoint p = x.getField().getCellBorder(0).startPoint();
      r["first"] = {qr(p.getX(), 1e4), qr(p.getY(), 1e4)};
    }
    return r;
  }
  json all() {
    json a = json::array();
    for (auto& x : f) { a.push_back(one(x)); }
    return a;
  }
  // swath given in GPS lattice points, expressed relative to a reference point
  F2CSwath swathIn(const json& s, const std::string& c, const F2CPoint& ref) {
    F2CLineString l;
    for (auto& p : s.at("p")) { l.addPoint(in(p, c) - ref); }
    F2CSwath r(l, s.at("w").get<double>() / 2.0, s.at("id").get<int>(), jtype(s.at("t")));
    r.setCreationDir(s.at("d").get<bool>());
    return r;
  }
  json swathOut(const F2CSwath& s, const std::string& c) {
    return {{"p", lineg(s.getPath(), c)}, {"w", q(s.getWidth(), 2.0)}, {"id", s.getId()},
            {"t", s.getType() == f2c::types::SwathType::HEADLAND ? 1 : 0}, {"d", s.getCreationDir()}};
  }
  json swathsOut(const F2CSwaths& v, const std::string& c) {
    json a = json::array();
    for (size_t i = 0; i < v.size(); ++i) { a.push_back(swathOut(v.at(i), c)); }
    return a;
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto A = [&]() -> F2CField& { return f[o.at("a").get<int>() - 1]; };
    auto B = [&]() -> F2CField& { return f[o.at("b").get<int>() - 1]; };
    auto S = [&](const char* k) { return o.at(k).get<std::string>(); };
    using T = f2c::Transform;
    if (op == "base") { lon0 = o["lon"].get<double>() + o["dx"].get<double>() * 1e-4; lat0 = o["lat"].get<double>() + o["dy"].get<double>() * 1e-4; return all(); }
    if (op == "code") {
      F2CField x;
      std::string how = o.value("how", "");
      if (how == "set1") { x.setUTMCoordSystem(S("s")); }
      else if (how == "set2") { x.setUTMCoordSystem(S("s"), S("d")); }
      else if (how == "epsg") { x.setEPSGCoordSystem(o.at("n")); }
      else { x.setCRS(S("s")); }
      std::string c = x.getCRS();
      json a = {{"crs", c}, {"utm", x.isCoordSystemUTM()}, {"epsg", x.isCoordSystemEPSG()},
              {"sys", x.getUTMCoordSystem()}, {"datum", x.getUTMDatum()}, {"zone", x.getUTMZone()},
              {"hemi", x.getUTMHemisphere()}, {"num", x.getEPSGCoordSystem()}};
      json b = {{"crs", c}, {"utm", F2CField::isCoordSystemUTM(c)}, {"epsg", F2CField::isCoordSystemEPSG(c)},
              {"sys", F2CField::getUTMCoordSystem(c)}, {"datum", F2CField::getUTMDatum(c)},
              {"zone", F2CField::getUTMZone(c)}, {"hemi", F2CField::getUTMHemisphere(c)},
              {"num", F2CField::getEPSGCoordSystem(c)}};
      a["agree"] = (a == b);
      return a;
    }
    if (op == "make") {
      std::string c = S("crs");
      F2CCells cells;
      for (auto& cj : o.at("pts")) {
        F2CCell cell;
        for (auto& rj : cj) {
          F2CLinearRing ring;
          for (auto& p : rj) { ring.addPoint(in(p, c)); }
          cell.addRing(ring);
        }
        cells.addGeometry(cell);
      }
      F2CField x(cells, S("id"));
      x.setCRS(c);
      if (cells.isEmpty()) { x.setRefPoint(in(o.at("ref"), c)); }
      A() = x;
      return all();
    }
    if (op == "to") { T::transform(A(), S("crs")); return all(); }
    if (op == "utm") {
      if (o.value("dflt", false)) { T::transformToUTM(A()); } else { T::transformToUTM(A(), o.at("etrs").get<bool>()); }
      return all();
    }
    if (op == "undo") { T::transformToPrevCRS(A()); return all(); }
    if (op == "clone") { F2CField t = B().clone(); A() = t; return all(); }
    if (op == "drop") {
      F2CCells rest;
      for (size_t i = 1; i < A().getField().size(); ++i) { rest.addGeometry(A().getField().getGeometry(i)); }
      A().setField(rest);
      return all();
    }
    if (op == "moved" || op == "moveref") {
      F2CPoint d(o.at("d")[0].get<double>() * 1e-4, o.at("d")[1].get<double>() * 1e-4);
      if (op == "moved") { A().setField(A().getField() + d); } else { A().setRefPoint(A().getRefPoint() + d); }
      return all();
    }
    if (op == "look") { return all(); }
    if (op == "setid") { A().setId(S("s")); return all(); }
    if (op == "setprev") { A().setPrevCRS(S("s")); return all(); }
    if (op == "refgps") {
      F2CPoint p = T::getRefPointInGPS(A());
      return gps(p, "");
    }
    // things transformed along with field a
    std::string from = A().getCRS(), to = o.contains("crs") ? S("crs") : A().getPrevCRS();
    F2CPoint ref = A().getRefPoint();
    if (op == "swath") { return swathOut(T::transformSwathWithFieldRef(swathIn(o["s"], from, ref), A(), to), to); }
    if (op == "uswath") { return swathOut(T::transformToPrevCRS(swathIn(o["s"], from, ref), A()), to); }
    if (op == "aswath") { return swathOut(T::transformSwath(swathIn(o["s"], from, F2CPoint(0, 0)), from, to), to); }
    if (op == "swaths" || op == "uswaths" || op == "aswaths") {
      F2CSwaths v;
      for (auto& s : o["v"]) { v.push_back(swathIn(s, from, op == "aswaths" ? F2CPoint(0, 0) : ref)); }
      return swathsOut(op == "swaths" ? T::transformSwathsWithFieldRef(v, A(), to)
          : op == "uswaths" ? T::transformToPrevCRS(v, A()) : T::transformSwaths(v, from, to), to);
    }
    if (op == "strips" || op == "ustrips" || op == "ustrip") {
      F2CStrips v;
      for (auto& s : o["v"]) {
        F2CStrip x;
        x.setName(s["name"].get<std::string>());
        F2CCell cell;
        for (auto& rj : s["c"]) {
          F2CLinearRing ring;
          for (auto& p : rj) { ring.addPoint(in(p, from)); }
          cell.addRing(ring);
        }
        x.setCell(cell);
        v.push_back(x);
      }
      F2CStrips w;
      if (op == "strips") { w = T::transformStrips(v, from, to); }
      else if (op == "ustrips") { w = T::transformToPrevCRS(v, A()); }
      else { for (auto& x : v) { w.push_back(T::transformToPrevCRS(x, A())); } }
      json a = json::array();
      for (auto& x : w) {
        a.push_back({{"name", x.getName()}, {"c", cellj(x.getCell(), F2CPoint(0, 0), to)}});
      }
      return a;
    }
    if (op == "route" || op == "uroute") {
      F2CRoute r;
      for (size_t g = 0; g < o["groups"].size(); ++g) {
        F2CMultiPoint mp;
        for (auto& p : o["conns"][g]) { mp.addPoint(in(p, from) - ref); }
        F2CSwaths v;
        for (auto& s : o["groups"][g]) { v.push_back(swathIn(s, from, ref)); }
        r.addConnectedSwaths(mp, v);
      }
      if (o["conns"].size() > o["groups"].size()) {
        F2CMultiPoint mp;
        for (auto& p : o["conns"].back()) { mp.addPoint(in(p, from) - ref); }
        r.addConnection(mp);
      }
      F2CRoute t = op == "route" ? T::transformRouteWithFieldRef(r, A(), to) : T::transformToPrevCRS(r, A());
      json gs = json::array(), cs = json::array();
      for (size_t i = 0; i < t.sizeVectorSwaths(); ++i) { gs.push_back(swathsOut(t.getSwaths(i), to)); }
      for (size_t i = 0; i < t.sizeConnections(); ++i) { cs.push_back(lineg(t.getConnection(i), to)); }
      return {{"groups", gs}, {"conns", cs}};
    }
    if (op == "path" || op == "upath") {
      F2CPath p;
      auto& st = o["states"];
      auto& pts = o["p"];
      for (size_t i = 0; i < st.size(); ++i) {
        F2CPathState s;
        s.point = in(pts[i], from) - ref;
        s.dir = st[i]["back"].get<bool>() ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD;
        s.type = static_cast<f2c::types::PathSectionType>(st[i]["t"].get<int>());
        s.velocity = st[i]["v"].get<double>();
        if (i + 1 < pts.size()) {
          F2CPoint d = (in(pts[i + 1], from) - ref - s.point) * static_cast<double>(s.dir);
          s.angle = d.getAngleFromPoint();
          s.len = std::hypot(d.getX(), d.getY());
        }
        p.addState(s);
      }
      F2CPath t = op == "path" ? T::transformPathWithFieldRef(p, A(), to) : T::transformToPrevCRS(p, A());
      json a = json::array();
      for (size_t i = 0; i < t.size(); ++i) {
        a.push_back({{"p", gps(t[i].point, to)}, {"e", gps(t[i].atEnd(), to)}, {"v", q(t[i].velocity)},
                     {"t", static_cast<int>(t[i].type)},
                     {"back", t[i].dir == f2c::types::PathDirection::BACKWARD}});
      }
      return a;
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, []() -> Interp* { return new FieldI(); });
}

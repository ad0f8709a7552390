#include <cmath>
// Paths (spec/PathSeq.tla).  Coordinates in tenths of a metre.
#include <filesystem>
#include "common.hpp"
#include "fields2cover/types.h"
#include "fields2cover/objectives/pp_obj/path_length.h"

using f2c::types::PathDirection;
using f2c::types::PathSectionType;

static F2CPathState jState(const json& j) {
  F2CPathState s;
  s.point = F2CPoint(j[0].get<int>() / 10.0, j[1].get<int>() / 10.0, j[2].get<int>() / 10.0);
  double a = std::atan2(j[3][1].get<int>(), j[3][0].get<int>());
  s.angle = a < 0 ? a + 2 * M_PI : a;
  s.len = j[4].get<int>() / 10.0;
  s.dir = static_cast<PathDirection>(j[5].get<int>());
  s.type = static_cast<PathSectionType>(j[6].get<int>());
  s.velocity = j[7].get<int>() / 4.0;
  return s;
}
static constexpr double S = 1e4;  // thousandths of the unit
static json dump(const F2CPathState& s) {
  return {qr(s.point.getX(), S), qr(s.point.getY(), S), qr(s.point.getZ(), S),
      qr(s.angle * 180.0 / M_PI, 1000.0), qr(s.len, S), static_cast<int>(s.dir),
      static_cast<int>(s.type), q(s.velocity, 4)};
}
static json dump(const F2CPoint& p) { return {qr(p.getX(), S), qr(p.getY(), S)}; }
static json dump(const F2CPath& p) {
  json a = json::array();
  for (size_t i = 0; i < p.size(); ++i) { a.push_back(dump(p.getState(i))); }
  return a;
}

struct PathI : Interp {
  F2CPath path[2];
  std::string dir;
  PathI() {
    char t[] = "/tmp/f2c-path-XXXXXX";
    dir = ::mkdtemp(t);
  }
  ~PathI() override {
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
  }
  json both() const { return json::array({dump(path[0]), dump(path[1])}); }
  json perform(const json& op) override {
    const std::string o = op["op"];
    if (o == "end") { return dump(jState(op["s"]).atEnd()); }
    if (o == "uneven") {
      // numbers that no short text holds exactly, written and read again
      const int n = op["n"], m = op["m"], prec = op["prec"];
      F2CPath out, in;
      for (int i = 0; i < 4; ++i) {
        F2CPathState s;
        s.point = F2CPoint(m + n / 7.0 + i / 11.0, -m * 10.0 - n / 3.0 - i * 0.7, n / 9.0 + i);
        s.angle = (n + i) / 13.0;
        s.len = (n + i) / 17.0;
        s.velocity = (n + 2 * i) / 19.0;
        s.dir = i % 2 ? f2c::types::PathDirection::BACKWARD : f2c::types::PathDirection::FORWARD;
        s.type = i < 2 ? f2c::types::PathSectionType::SWATH : f2c::types::PathSectionType::TURN;
        out.addState(s);
      }
      const std::string f = dir + "/uneven.txt";
      out.saveToFile(f, prec);
      in.loadFile(f);
      if (in.size() != out.size()) { return {{"digits", json::array()}, {"attrs", false}}; }
      json digits = json::array();
      bool attrs = true;
      auto same = [](double a, double b) { return a == b ? 30 : static_cast<int>(std::floor(-std::log10(std::fabs(a - b) / std::fabs(a)))); };
      for (size_t i = 0; i < in.size(); ++i) {
        const auto &a = out[i], &b = in[i];
        digits.push_back({same(a.point.getX(), b.point.getX()), same(a.point.getY(), b.point.getY()), same(a.point.getZ(), b.point.getZ()),
                          same(a.angle, b.angle), same(a.velocity, b.velocity), same(a.len, b.len)});
        attrs = attrs && a.dir == b.dir && a.type == b.type;
      }
      return {{"digits", digits}, {"attrs", attrs}};
    }
    F2CPath& p = path[op["a"].get<int>() - 1];
    if (o == "add") { p.addState(jState(op["s"])); return both(); }
    if (o == "adds") {
      auto s = jState(op["s"]);
      p.addState(s.point, s.angle, s.len, s.dir, s.type, s.velocity);
      return both();
    }
    if (o == "set") {
      size_t i = op["i"].get<int>() - 1;
      auto s = jState(op["s"]);
      if (op["how"] == "set") { p.setState(i, s); }
      else if (op["how"] == "ref") { p.getState(i) = s; }
      else if (op["how"] == "index") { p[i] = s; }
      else { p.getStates()[i] = s; }
      return both();
    }
    if (o == "setall") {
      std::vector<F2CPathState> v;
      for (auto& s : op["v"]) { v.push_back(jState(s)); }
      p.setStates(v);
      return both();
    }
    if (o == "edit") {
      size_t i = 0;
      for (auto&& s : p) { s.velocity = op["v"][i++][7].get<int>() / 4.0; }
      return both();
    }
    if (o == "swath") {
      F2CLineString line;
      double x = op["p"][0], y = op["p"][1];
      if (!op["steps"].empty()) { line.addPoint(x / 10.0, y / 10.0); }
      for (auto& s : op["steps"]) {
        double l = s[1].get<double>() / s[0][2].get<double>();
        x += s[0][0].get<double>() * l;
        y += s[0][1].get<double>() * l;
        line.addPoint(x / 10.0, y / 10.0);
      }
      p.appendSwath(F2CSwath(line, 2.0), op["v"].get<int>() / 4.0);
      return both();
    }
    if (o == "join") { p += path[op["b"].get<int>() - 1]; return both(); }
    if (o == "copy") {
      const F2CPath& b = path[op["b"].get<int>() - 1];
      if (op["how"] == "ctor") { F2CPath c(b); p = std::move(c); }
      else if (op["how"] == "assign") { p = b; }
      else { F2CPath c; c.setStates(b.getStates()); p = c; }
      return both();
    }
    if (o == "file") {
      const F2CPath& b = path[op["b"].get<int>() - 1];
      const std::string f = dir + "/path.txt";
      if (op["prec"] == 0) { b.saveToFile(f); } else { b.saveToFile(f, op["prec"].get<int>()); }
      F2CPath in;
      in.loadFile(f);
      p = in;
      return both();
    }
    if (o == "move") {
      p.moveTo(F2CPoint(op["p"][0].get<int>() / 10.0, op["p"][1].get<int>() / 10.0, op["p"][2].get<int>() / 10.0));
      return both();
    }
    if (o == "rotate") {
      p.rotateFromPoint(F2CPoint(op["p"][0].get<int>() / 10.0, op["p"][1].get<int>() / 10.0), op["k"].get<int>() * M_PI / 2);
      return both();
    }
    if (o == "mirx") { p.mirrorX(); return both(); }
    if (o == "miry") { p.mirrorY(); return both(); }
    if (o == "dir") {
      int i = op["i"].get<int>() - 1;
      if (op["v"] == 1) { if (i < 0) { p.setForwardDir(); } else { p.setForwardDir(i); } }
      else { if (i < 0) { p.setBackwardDir(); } else { p.setBackwardDir(i); } }
      return both();
    }
    if (o == "type") {
      int i = op["i"].get<int>() - 1;
      if (op["v"] == 1) { if (i < 0) { p.setSwathType(); } else { p.setSwathType(i); } }
      else { if (i < 0) { p.setTurnType(); } else { p.setTurnType(i); } }
      return both();
    }
    if (o == "reduce") { p.reduce(op["d"].get<int>() / 10.0); return both(); }
    if (o == "info") {
      const F2CPath& c = p;
      json r;
      r["size"] = c.size();
      r["length"] = qr(c.length(), S);
      f2c::obj::PathLength obj;
      r["cost"] = qr(obj.computeCost(c), S);
      r["time"] = qr(c.getTaskTime(), S);
      r["states"] = json::array();
      r["index"] = json::array();
      r["iter"] = json::array();
      r["ends"] = json::array();
      r["line"] = json::array();
      for (auto& s : c.getStates()) { r["states"].push_back(dump(s)); }
      for (size_t i = 0; i < c.size(); ++i) { r["index"].push_back(dump(c[i])); }
      for (auto&& s : c) {
        r["iter"].push_back(dump(s));
        r["ends"].push_back(dump(s.atEnd()));
      }
      if (c.size() > 0) {
        r["back"] = dump(c.back());
        r["start"] = dump(c.atStart());
        r["atend"] = dump(c.atEnd());
        r["dims"] = {qr(c.getDimMinX(), S), qr(c.getDimMaxX(), S), qr(c.getDimMinY(), S), qr(c.getDimMaxY(), S)};
      }
      F2CLineString line = c.toLineString();
      for (size_t i = 0; i < line.size(); ++i) { r["line"].push_back(dump(line.getGeometry(i))); }
      return r;
    }
    if (o == "at") {
      json r = json::array();
      for (size_t i = 0; i < op["t"].size(); ++i) {
        // the first one is the whole length, as the path itself tells
        r.push_back(dump(p.at(i == 0 ? p.length() : op["t"][i].get<int>() / S)));
      }
      return r;
    }
    if (o == "cut") {
      F2CPath c = p.discretizeSwath(op["d"].get<int>() / 10.0);
      return {{"cut", dump(c)}, {"orig", dump(p)}};
    }
    if (o == "populate") { F2CPath c = p; return dump(c.populate(op["n"])); }
    if (o == "discretize") { F2CPath c = p; return dump(c.discretize(op["d"].get<int>() / 10.0)); }
    unknownOp(o);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] () -> Interp* { return new PathI(); });
}

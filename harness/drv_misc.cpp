// Robot, CubicSpline, Random and Parser.
#include <sys/wait.h>
#include <unistd.h>
#include "swathjson.hpp"
#include <cstring>
#include "fields2cover/utils/parser.h"
#include "fields2cover/utils/random.h"
#include "fields2cover/utils/spline.h"

struct RobotI : Interp {
  F2CRobot r[3];
  json perform(const json& o) override {
    const std::string op = o["op"];
    auto A = [&]() -> F2CRobot& { return r[o.at("a").get<int>()]; };
    auto B = [&]() -> F2CRobot& { return r[o.at("b").get<int>()]; };
    // all quantities in eighths
    auto V = [&](const char* k) { return o.at(k).get<double>() / 8.0; };
    if (op == "new") { A() = F2CRobot(); return 0; }
    if (op == "make1") { F2CRobot n(V("w")); A() = n; return 0; }
    if (op == "make2") { F2CRobot n(V("w"), V("c")); A() = n; return 0; }
    if (op == "make4") { F2CRobot n(V("w"), V("c"), V("k"), V("dk")); A() = n; return 0; }
    if (op == "copy") { F2CRobot n(B()); A() = n; return 0; }
    if (op == "assign") { A() = B(); return 0; }
    if (op == "move") { F2CRobot t(B()); F2CRobot n(std::move(t)); A() = std::move(n); return 0; }
    if (op == "name") { A().setName(o.at("s").get<std::string>()); return 0; }
    if (op == "width") { A().setWidth(V("v")); return 0; }
    if (op == "cov") { A().setCovWidth(V("v")); return 0; }
    if (op == "cruise") { A().setCruiseVel(V("v")); return 0; }
    if (op == "turn") { A().setTurnVel(V("v")); return 0; }
    if (op == "radius") { A().setMinTurningRadius(V("v")); return 0; }
    if (op == "curv") { A().setMaxCurv(V("v")); return 0; }
    if (op == "diff") { A().setMaxDiffCurv(V("v")); return 0; }
    if (op == "get") {
      const F2CRobot& c = A();
      auto cap = [](double v) { return std::fabs(v) > 1e5 ? -1 : qr(v, 1000.0); };
      double k = c.getMaxCurv(), rad = c.getMinTurningRadius();
      return {{"name", c.getName()}, {"w", q(c.getWidth(), 8)}, {"cov", q(c.getCovWidth(), 8)},
              {"cruise", q(c.getCruiseVel(), 8)}, {"turn", q(c.getTurnVel(), 8)},
              {"curv", cap(k)}, {"rad", cap(rad)}, {"prod", qr(k * rad, 1000.0)},
              {"diff", qr(c.getMaxDiffCurv(), 1000.0)}};
    }
    unknownOp(op);
  }
};

struct SplineI : Interp {
  f2c::CubicSpline s;
  std::vector<double> x, y;
  json perform(const json& o) override {
    const std::string op = o["op"];
    if (op == "make" || op == "set") {
      std::vector<double> nx = o.at("xs").get<std::vector<double>>(),
                          ny = o.at("ys").get<std::vector<double>>();
      bool mono = o.at("mono").get<bool>();
      if (op == "make") {
        f2c::CubicSpline n(nx, ny, mono);
        s = n;
      } else {
        s.SetPoints(nx, ny, mono);
      }
      x = nx;
      y = ny;
      return 0;
    }
    if (op == "eval") {  // every third of every interval
      json a = json::array(), k = json::array();
      for (size_t i = 0; i + 1 < x.size(); ++i) {
        json b = json::array();
        for (int j = 0; j < 4; ++j) {
          double t = j == 3 ? x[i + 1] : x[i] + (x[i + 1] - x[i]) * j / 3.0;
          b.push_back(qr(s(t), 1e4));
        }
        a.push_back(b);
      }
      for (double v : x) { k.push_back(qr(s(v), 1e4)); }
      return {{"pieces", a}, {"knots", k}};
    }
    unknownOp(op);
  }
};

struct RandomI : Interp {
  f2c::Random g[3] {f2c::Random(0), f2c::Random(0), f2c::Random(0)};
  // what was asked of each of them, as generator 0 would be asked
  json asked[3] {json::array(), json::array(), json::array()};
  // The answers of a generator with that history in a process of its own
  static json elsewhere(const json& ops) {
    const char* dir = std::getenv("VERIF_SCRATCH");
    static int serial = 0;
    std::string base = std::string(dir ? dir : "/tmp") + "/fresh-" +
        std::to_string(::getpid()) + "-" + std::to_string(serial++);
    std::string in = base + ".in", out = base + ".out";
    std::ofstream(in) << json({{"id", 0}, {"ops", ops}}).dump() << "\n";
    pid_t child = ::fork();
    if (child == 0) {
      ::execl("/proc/self/exe", "fresh", in.c_str(), out.c_str(), "0", "random", (char*)nullptr);
      ::_exit(3);
    }
    int st = 0;
    ::waitpid(child, &st, 0);
    json answers = json::array();
    std::ifstream f(out);
    std::string line;
    while (std::getline(f, line)) {
      json e = json::parse(line);
      if (e["op"] == "begin" || e["op"] == "seed") { continue; }
      json a = json::array();
      if (e.contains("r") && e["r"].contains("f")) { a.push_back(e["r"]["f"]); }
      if (e.contains("r") && e["r"].contains("ref")) { a.push_back(e["r"]["ref"]); }
      answers.push_back(a);
    }
    std::remove(in.c_str());
    std::remove(out.c_str());
    return answers;
  }
  static std::string bits(double v) {
    char b[40];
    std::snprintf(b, sizeof b, "%a", v);
    return b;
  }
  static json cellj(const F2CCell& c, double area, const F2CPoint& off = F2CPoint(0, 0)) {
    std::string f;
    json pts = json::array();
    auto ring = c.getGeometry(0);
    // about 2000 units across, whatever the area
    double s = 2000.0 / std::sqrt(area);
    for (size_t i = 0; i < ring.size(); ++i) {
      F2CPoint p = ring.getGeometry(i);
      f += bits(p.getX()) + "," + bits(p.getY()) + ";";
      pts.push_back({qr(p.getX(), s), qr(p.getY(), s)});
    }
    return {{"f", f}, {"pts", pts}, {"rings", c.size()}, {"area", qr(c.area() / area, 1e6)}};
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    const int n = o.at("a").get<int>();
    if (op == "fresh") { return elsewhere(asked[n]); }
    json ans = ask(o);
    json first = o;
    first["a"] = 0;
    if (op == "copy") { asked[n] = asked[o.at("b").get<int>()]; }
    else if (op == "seed") { asked[n] = json::array({first}); }
    else { asked[n].push_back(first); }
    return ans;
  }
  json ask(const json& o) {
    const std::string op = o["op"];
    f2c::Random& r = g[o.at("a").get<int>()];
    auto num = [&](double v) -> json { return {{"f", bits(v)}, {"v", qr(v, 1000.0)}}; };
    auto D = [&](const char* k) { return o.at(k).get<double>(); };
    if (op == "seed") { r = f2c::Random(o.at("s").get<uint32_t>()); return 0; }
    if (op == "copy") { f2c::Random c(g[o.at("b").get<int>()]); r = c; return 0; }
    if (op == "double") { return num(r.getRandomDouble()); }
    if (op == "linear") { return num(r.getRandomLinear(D("lo"), D("hi"))); }
    if (op == "exp") { return num(r.getRandomExp(D("lo"), D("hi"))); }
    if (op == "expdist") { return num(r.getRandomExpDist(D("lam"))); }
    if (op == "angle") { return num(r.getAngleRandom()); }
    if (op == "cell") { return cellj(r.generateRandCell(D("area"), o.at("n").get<int>()), D("area")); }
    if (op == "cellw") {
      return cellj(r.generateRandCell(D("area"), o.at("n").get<int>(), D("lo") / 8, D("hi") / 8), D("area"));
    }
    if (op == "convex") { return cellj(r.genConvexCell(D("area"), o.at("n").get<size_t>()), D("area")); }
    if (op == "nonconvex") { return cellj(r.genNonConvexCell(D("area")), D("area")); }
    F2CField f;
    if (op == "field") { f = r.generateRandField(D("area"), o.at("n").get<int>()); }
    else if (op == "convexF") { f = r.genConvexField(D("area"), o.at("n").get<size_t>()); }
    else if (op == "nonconvexF") { f = r.genNonConvexField(D("area")); }
    else { unknownOp(op); }
    json c = cellj(f.getField().getGeometry(0), D("area"));
    c["cells"] = f.getField().size();
    c["ref"] = bits(f.getRefPoint().getX()) + "," + bits(f.getRefPoint().getY());
    return c;
  }
};

struct ParserI : Interp {
  F2CFields fields;
  // Numbers of documents: eighths, or steps of 2^-27 (some millimetres of a
  // degree) from 5 on, except heights.
  bool fine = false;
  double real(double n, bool height) const {
    return fine ? (height ? 0.0 : 5.0) + n / 134217728.0 : n / 8.0;
  }
  json whole(double v, bool height) const {
    if (!fine) { return q(v, 8); }
    double s = (v - (height ? 0.0 : 5.0)) * 134217728.0, r = std::nearbyint(s);
    return std::fabs(s - r) > 0.01 || std::fabs(r) > 1e9 ? OFF : static_cast<int>(r);
  }
  static int& serial() { static int n = 0; return n; }
  json ringsj(const F2CCell& c, const F2CPoint& ref) const {
    json a = json::array();
    for (size_t i = 0; i < c.size(); ++i) {
      json b = json::array();
      auto ring = c.getGeometry(i);
      for (size_t j = 0; j < ring.size(); ++j) {
        F2CPoint p = ring.getGeometry(j);
        b.push_back({whole(p.getX() + ref.getX(), false), whole(p.getY() + ref.getY(), false),
                     whole(p.getZ() + ref.getZ(), true)});
      }
      a.push_back(b);
    }
    return a;
  }
  json fieldj(const F2CField& f) const {
    json cells = json::array();
    for (size_t i = 0; i < f.getField().size(); ++i) {
      cells.push_back(ringsj(f.getField().getGeometry(i), f.getRefPoint()));
    }
    return {{"name", f.getId()}, {"crs", f.getCRS()}, {"cells", cells}};
  }
  json eighths(const json& d) const {
    if (d.is_number()) { return real(d.get<double>(), false); }
    if (d.is_array()) {
      json a = json::array();
      for (auto& v : d) { a.push_back(v.is_number() ? json(real(v.get<double>(), a.size() == 2)) : eighths(v)); }
      return a;
    }
    if (d.is_object()) {
      json a = json::object();
      for (auto& v : d.items()) { a[v.key()] = v.key() == "path_id" ? v.value() : eighths(v.value()); }
      return a;
    }
    return d;
  }
  json perform(const json& o) override {
    const std::string op = o["op"];
    const char* dir = std::getenv("VERIF_SCRATCH");
    std::string file = std::string(dir ? dir : "/tmp") + "/parse-" +
        std::to_string(::getpid()) + "-" + std::to_string(serial()++);
    struct Rm { std::string f; ~Rm() { std::remove(f.c_str()); } } rm{file};
    std::string how = o.value("how", "whole");
    if (how != "missing") {
      std::string text = o.contains("text") ? o["text"].get<std::string>() : eighths(o.at("doc")).dump();
      if (how == "cut") { text = text.substr(0, text.size() * 2 / 3); }
      if (how == "empty") { text = ""; }
      std::ofstream(file) << text;
    }
    if (op == "unit") { fine = o["fine"]; return 0; }
    if (op == "json") {
      int rc = f2c::Parser::importJson(file, fields);
      return {{"rc", rc}};
    }
    if (op == "all") {
      json a = json::array();
      for (size_t i = 0; i < fields.size(); ++i) { a.push_back(fieldj(fields[i])); }
      return a;
    }
    if (op == "clear") { fields = F2CFields(); return 0; }
    if (op == "cell") { return ringsj(f2c::Parser::importCellJson(file), F2CPoint(0, 0)); }
    if (op == "gml") { f2c::Parser::importGml(file, fields); return 0; }
    if (op == "gml1") { return fieldj(f2c::Parser::importFieldGml(file)); }
    if (op == "swaths") {
      F2CSwaths s = f2c::Parser::importSwathsJson(file);
      json a = json::array();
      for (size_t i = 0; i < s.size(); ++i) {
        json b = json::array();
        for (size_t j = 0; j < s[i].numPoints(); ++j) {
          auto p = s[i].getPoint(j);
          b.push_back({whole(p.getX(), false), whole(p.getY(), false)});
        }
        a.push_back({{"p", b}, {"w", whole(s[i].getWidth(), false)}, {"id", s[i].getId()}});
      }
      return a;
    }
    if (op == "strips") {
      json a = json::array();
      for (auto& s : f2c::Parser::importStripsJson(file)) {
        a.push_back({{"name", s.getName()}, {"rings", ringsj(s.getCell(), F2CPoint(0, 0))}});
      }
      return a;
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  std::string m = argc > 4 ? argv[4] : "";
  return runDriver(argc, argv, [m]() -> Interp* {
    if (m == "spline") { return new SplineI(); }
    if (m == "random") { return new RandomI(); }
    if (m == "parser") { return new ParserI(); }
    return new RobotI();
  });
}

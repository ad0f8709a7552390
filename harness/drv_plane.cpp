// Angles, vectors and moves in the plane (spec/Plane.tla).
#include "common.hpp"
#include "fields2cover/types.h"

static const double DEG = M_PI / 180.0;
static double ang(const json& d, int w = 0) {
  return std::atan2(d[1].get<double>(), d[0].get<double>()) + w * 2.0 * M_PI;
}
static F2CPoint jp(const json& j) { return F2CPoint(j[0], j[1], j[2]); }
static json dump(const F2CPoint& p) { return {q(p.getX()), q(p.getY()), q(p.getZ())}; }
template <class T>
static json dump(const std::vector<T>& t) {
  json a = json::array();
  for (auto& e : t) { a.push_back(dump(e)); }
  return a;
}
template <class T>
static json dump(const T& t) {
  json a = json::array();
  for (size_t i = 0; i < t.size(); ++i) { a.push_back(dump(t.getGeometry(i))); }
  return a;
}
static json xy(const F2CPoint& p, double scale) { return {qr(p.getX(), scale), qr(p.getY(), scale)}; }
static json direction(double a) {
  return {{"inrange", a >= 0.0 && a < 2.0 * M_PI},
          {"c", qr(std::cos(a), 100000)}, {"s", qr(std::sin(a), 100000)}};
}
static F2CPoint along(const json& d, double f = 1) {
  return F2CPoint(d[0].get<double>() * f, d[1].get<double>() * f);
}
template <class T>
static T pointsOf(const json& v) {
  T t;
  for (auto& p : v) { t.addPoint(jp(p)); }
  return t;
}
static std::vector<F2CPoint> list(const json& v) {
  std::vector<F2CPoint> t;
  for (auto& p : v) { t.push_back(jp(p)); }
  return t;
}
static F2CMultiLineString mlOf(const json& v) {
  F2CMultiLineString t;
  for (auto& e : v) { t.addGeometry(pointsOf<F2CLineString>(e)); }
  return t;
}
static F2CCell cellOf(const json& v) {
  F2CCell t;
  for (auto& e : v) { t.addGeometry(pointsOf<F2CLinearRing>(e)); }
  return t;
}
static F2CCells cellsOf(const json& v) {
  F2CCells t;
  for (auto& e : v) { t.addGeometry(cellOf(e)); }
  return t;
}
// f on the shape of kind k
template <class F>
static json onShape(const std::string& k, const json& v, F f) {
  if (k == "pt") { return f(jp(v)); }
  if (k == "line") { return f(pointsOf<F2CLineString>(v)); }
  if (k == "ring") { return f(pointsOf<F2CLinearRing>(v)); }
  if (k == "mp") { return f(pointsOf<F2CMultiPoint>(v)); }
  if (k == "pts") { return f(list(v)); }
  if (k == "ml") { return f(mlOf(v)); }
  if (k == "cell") { return f(cellOf(v)); }
  if (k == "cells") { return f(cellsOf(v)); }
  unknownOp("shape " + k);
}
template <class F>
static json half(F f) {  // an angle in half degrees
  try {
    return {{"x", ""}, {"a2", q(f() / DEG, 2.0)}};
  } catch (const std::exception& e) {
    return {{"x", exceptionName(e)}};
  }
}

struct PlaneI : Interp {
  json perform(const json& o) override {
    const std::string op = o.at("op");
    auto D = [&](const char* k) { return o.at(k).get<double>(); };
    if (op == "mod") {
      double r = F2CPoint::mod_2pi(D("a") * DEG);
      return {{"inrange", r >= 0.0 && r < 2.0 * M_PI}, {"v", q(r / DEG)}};
    }
    if (op == "diff") { return q(F2CPoint::getAngleDiffAbs(D("a") * DEG, D("b") * DEG) / DEG); }
    if (op == "avg") { return q(F2CCell::getAngleAvg(D("a") * DEG, D("b") * DEG) / DEG, 2.0); }
    if (op == "cont") { return q(F2CPoint::getAngContinuity(D("a") * DEG, D("b") * DEG) / DEG); }
    if (op == "conts") {
      std::vector<double> v;
      for (auto& a : o.at("v")) { v.push_back(a.get<double>() * DEG); }
      json r = json::array();
      for (double a : F2CLineString::getAngContinuity(v)) { r.push_back(q(a / DEG)); }
      return r;
    }
    if (op == "vec") {
      F2CPoint u = jp(o.at("u")), v = jp(o.at("v")), w = jp(o.at("u"));
      double f = D("f");
      w *= f;
      return {{"det", q(F2CPoint::det(u, v))}, {"dot", q(u * v)}, {"add", dump(u + v)},
              {"sub", dump(u - v)}, {"mul", dump(u * f)}, {"div", dump((u * f) / f)}, {"muleq", dump(w)},
              {"eq", u == v}, {"ne", u != v}, {"lt", u < v},
              {"eqnear", u == F2CPoint(u.getX() + 1e-9, u.getY() - 1e-9, u.getZ() + 1e-9)},
              {"nefar", u != F2CPoint(u.getX() + 1e-3, u.getY(), u.getZ()) &&
                        u != F2CPoint(u.getX(), u.getY() + 1e-3, u.getZ()) &&
                        u != F2CPoint(u.getX(), u.getY(), u.getZ() - 1e-3)}};
    }
    if (op == "dir") { return direction(along(o.at("d"), D("f")).getAngleFromPoint()); }
    if (op == "between") { return direction(along(o.at("d"), D("f")).getAngleFromPoints(along(o.at("g")))); }
    if (op == "corner") {
      F2CPoint a = jp(o.at("p")), b = a + along(o.at("d")), c = b + along(o.at("g"), D("f"));
      return direction(F2CPoint::getAngleFromPoints(a, b, c));
    }
    if (op == "polar") {
      return dump(jp(o.at("p")).getPointFromAngle(ang(o.at("d"), o.at("w")), D("f") * o.at("d")[2].get<double>()));
    }
    if (op == "turn") {
      F2CPoint c = jp(o.at("c"));
      double a = ang(o.at("d"), o.at("w"));
      return onShape(o.at("k"), o.at("v"), [&](auto t) { return dump(c.rotateFromPoint(a, t)); });
    }
    if (op == "shift") {
      F2CPoint c = jp(o.at("c"));
      const std::string how = o.at("how");
      return onShape(o.at("k"), o.at("v"), [&](auto t) {
        return how == "add" ? dump(t + c) : how == "sub" ? dump(t - c) : dump(c - t);
      });
    }
    if (op == "side") { return qr(jp(o.at("p")).signedDistance2Segment(jp(o.at("s")), jp(o.at("t"))), 10000); }
    if (op == "cross") {
      return xy(F2CPoint::intersectionOfLines(jp(o.at("s")), jp(o.at("t")), jp(o.at("u")), jp(o.at("w"))), 10000);
    }
    if (op == "foot") { return xy(jp(o.at("p")).closestPointInSegment(jp(o.at("s")), jp(o.at("t"))), 1000); }
    if (op == "foot3") {
      F2CPoint f = jp(o.at("p")).closestPointInSegment(jp(o.at("s")), jp(o.at("t")));
      return {qr(f.getX(), 1000), qr(f.getY(), 1000), qr(f.getZ(), 1000)};
    }
    if (op == "nearest") {
      F2CPoint p = jp(o.at("p"));
      return xy(o.at("k") == "line" ? pointsOf<F2CLineString>(o.at("v")).closestPointTo(p)
                                    : pointsOf<F2CLinearRing>(o.at("v")).closestPointTo(p), 1000);
    }
    if (op == "segs") {
      return dump(o.at("k") == "line" ? F2CMultiLineString::getLineSegments(pointsOf<F2CLineString>(o.at("v")))
                                      : F2CMultiLineString::getLineSegments(pointsOf<F2CLinearRing>(o.at("v"))));
    }
    if (op == "lines") {
      const std::string k = o.at("k");
      if (k == "line") { auto g = pointsOf<F2CLineString>(o.at("v")); return dump(F2CMultiLineString(g.get())); }
      if (k == "ml") { auto g = mlOf(o.at("v")); return dump(F2CMultiLineString(g.get())); }
      if (k == "cell") { auto g = cellOf(o.at("v")); return dump(F2CMultiLineString(g.get())); }
      auto g = cellsOf(o.at("v"));
      return dump(F2CMultiLineString(g.get()));
    }
    if (op == "vertex") {
      auto g = pointsOf<F2CMultiPoint>(o.at("v"));
      size_t i = o.at("i").get<int>() - 1;
      return {{"in", half([&] { return g.getInAngle(i); })}, {"out", half([&] { return g.getOutAngle(i); })},
              {"at", half([&] { return g.getPointAngle(i); })}};
    }
    if (op == "ends") {
      auto g = pointsOf<F2CLineString>(o.at("v"));
      return {{"s", direction(g.startAngle())}, {"e", direction(g.endAngle())}};
    }
    unknownOp(op);
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, [] { return new PlaneI(); });
}

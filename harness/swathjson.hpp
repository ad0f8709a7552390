// JSON views of swaths, shared by several drivers.
#pragma once
#include "common.hpp"
#include "fields2cover/types.h"

// lattice points per metre in the scenario under way: a power of two, so that
// every coordinate is exact
inline double coordScale = 1.0;

inline F2CPoint jpoint(const json& a) {
  return F2CPoint(a[0].get<double>() / coordScale, a[1].get<double>() / coordScale);
}
inline json pointj(const F2CPoint& p, double scale = 1.0) {
  return {q(p.getX(), scale * coordScale), q(p.getY(), scale * coordScale)};
}
inline F2CLineString jline(const json& a) {
  F2CLineString l;
  for (auto& p : a) { l.addPoint(jpoint(p)); }
  return l;
}
template <class T>
json ptsj(const T& l, double scale = 1.0) {
  json a = json::array();
  for (size_t i = 0; i < l.size(); ++i) { a.push_back(pointj(l.getGeometry(i), scale)); }
  return a;
}
inline json vptsj(const std::vector<F2CPoint>& v, double scale = 1.0) {
  json a = json::array();
  for (auto& p : v) { a.push_back(pointj(p, scale)); }
  return a;
}
inline f2c::types::SwathType jtype(const json& j) {
  return j.get<int>() == 1 ? f2c::types::SwathType::HEADLAND
                           : f2c::types::SwathType::MAINLAND;
}
// {"p":[[x,y]..],"w":2*width,"id":..,"t":0|1,"d":bool}: widths in halves
inline F2CSwath jswath(const json& j) {
  F2CSwath s(jline(j.at("p")), j.at("w").get<double>() / 2.0,
             j.at("id").get<int>(), jtype(j.at("t")));
  if (!j.at("d").get<bool>()) { s.setCreationDir(false); }
  return s;
}
inline json swathj(const F2CSwath& s, double scale = 1.0) {
  return {{"p", ptsj(s.getPath(), scale)}, {"w", q(s.getWidth(), 2.0)}, {"id", s.getId()},
          {"t", s.getType() == f2c::types::SwathType::HEADLAND ? 1 : 0},
          {"d", s.getCreationDir()}};
}
inline F2CSwaths jswaths(const json& a) {
  F2CSwaths v;
  for (auto& s : a) { v.push_back(jswath(s)); }
  return v;
}
inline json swathsj(const F2CSwaths& v, double scale = 1.0) {
  json a = json::array();
  for (size_t i = 0; i < v.size(); ++i) { a.push_back(swathj(v.at(i), scale)); }
  return a;
}
inline int deg(double rad) { return q(rad * 180.0 / M_PI, 1.0, 1e-6); }

// Regions of spec/Region.tla.  Lattice regions are lists of cells, cells lists
// of closed rings, rings lists of integer points; points and lines of the
// operations are in eighths.
#pragma once
#include "common.hpp"
#include "fields2cover/types.h"

inline F2CPoint eighth(const json& p) {
  return F2CPoint(p[0].get<int>() / 8.0, p[1].get<int>() / 8.0);
}
inline F2CLineString eighthLine(const json& l) {
  F2CLineString line;
  for (auto& p : l) { line.addPoint(eighth(p)); }
  return line;
}
// Coordinate v of the specification is v * f + dx (or dy) in the library.
inline F2CLinearRing jRing(const json& j, double dx = 0, double dy = 0, double f = 1) {
  F2CLinearRing r;
  for (auto& p : j) { r.addPoint(p[0].get<int>() * f + dx, p[1].get<int>() * f + dy); }
  return r;
}
inline F2CCell jCell(const json& j, double dx = 0, double dy = 0, double f = 1) {
  F2CCell c;
  for (auto& r : j) { c.addRing(jRing(r, dx, dy, f)); }
  return c;
}
inline F2CCells jCells(const json& j, double dx = 0, double dy = 0, double f = 1) {
  F2CCells cs;
  for (auto& c : j) { cs.addGeometry(jCell(c, dx, dy, f)); }
  return cs;
}
inline json dumpPoint(const F2CPoint& p, double s, double dx = 0, double dy = 0, double f = 1) {
  return {qr(p.getX() - dx, s / f), qr(p.getY() - dy, s / f)};
}
template <class L>
inline json dumpLine(const L& l, double s, double dx = 0, double dy = 0, double f = 1) {
  json a = json::array();
  for (size_t i = 0; i < l.size(); ++i) { a.push_back(dumpPoint(l.getGeometry(i), s, dx, dy, f)); }
  return a;
}
inline json dumpCell(const F2CCell& c, double s) {
  json a = json::array();
  for (size_t i = 0; i < c.size(); ++i) { a.push_back(dumpLine(c.getGeometry(i), s)); }
  return a;
}
inline json dumpCells(const F2CCells& cs, double s) {
  json a = json::array();
  for (size_t i = 0; i < cs.size(); ++i) { a.push_back(dumpCell(cs.getGeometry(i), s)); }
  return a;
}
// Two decimals of an area times two, as a pair (whole, hundredths).
inline int area2(double a) { return qr(a * 2.0, 100.0); }

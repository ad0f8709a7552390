// Geometry objects as values (spec/Values.tla).
#include <algorithm>
#include <cstring>
#include "common.hpp"
#include "fields2cover/types.h"

static json dump(const F2CPoint& p) { return {q(p.getX()), q(p.getY()), q(p.getZ())}; }
template <class T>
static json dump(const T& t) {
  json a = json::array();
  for (size_t i = 0; i < t.size(); ++i) { a.push_back(dump(t.getGeometry(i))); }
  return a;
}
static F2CPoint jp(const json& j) { return F2CPoint(j[0], j[1], j[2]); }

template <class F>
static json attempt(F f) {
  try {
    return {{"x", ""}, {"v", dump(f())}};
  } catch (const std::exception& e) {
    return {{"x", exceptionName(e)}};
  }
}

// Things made of geometries, and what is in them.
static F2CSwath twinSwath(const json& j) {
  F2CLineString l;
  for (auto& p : j.at("p")) { l.addPoint(jp(p)); }
  F2CSwath s(l, j.at("w").get<double>(), j.at("id").get<int>(), static_cast<f2c::types::SwathType>(j.at("t").get<int>()));
  s.setCreationDir(j.at("d").get<bool>());
  return s;
}
static json twinDump(const F2CSwath& s) {
  return {{"p", dump(s.getPath())}, {"id", s.getId()}, {"w", q(s.getWidth())}, {"t", static_cast<int>(s.getType())}, {"d", s.getCreationDir()}};
}
static json twinDump(const F2CSwaths& ss) {
  json a = json::array();
  for (const auto& s : ss) { a.push_back(twinDump(s)); }
  return a;
}
static F2CSwaths twinSwaths(const json& j) {
  F2CSwaths ss;
  for (auto& s : j) { ss.push_back(twinSwath(s)); }
  return ss;
}
static F2CCell twinCell(const json& j) {
  F2CCell c;
  for (auto& r : j) {
    F2CLinearRing ring;
    for (auto& p : r) { ring.addPoint(jp(p)); }
    c.addRing(ring);
  }
  return c;
}
template <class T, class Change, class Dump>
static json twins(T orig, const std::string& who, Change change, Dump d) {
  T twin = orig.clone();
  change(who == "orig" ? orig : twin);
  return {{"orig", d(orig)}, {"twin", d(twin)}};
}
static json twinRun(const json& o) {
  const json &made = o.at("made"), &g = made.at("g");
  const std::string w = o.at("w"), who = o.at("who");
  const bool rev = o.at("how") == "rev";
  const F2CPoint by = jp(o.at("by"));
  const double f = o.at("f");
  auto as = [](json g, json conn, json area) { return json{{"g", g}, {"conn", conn}, {"area", area}}; };
  const json none = json::array();
  auto one = [&](F2CSwath& s) { if (rev) { s.reverse(); } else { s.moveTo(by); } };
  auto all = [&](F2CSwaths& ss) { if (!rev) { ss.moveTo(by); } else { for (auto& s : ss) { s.reverse(); } } };
  if (w == "swath") {
    return twins(twinSwath(g.at(0).at(0)), who, one, [&](const F2CSwath& s) { return as(json::array({json::array({twinDump(s)})}), none, none); });
  }
  if (w == "swaths") {
    return twins(twinSwaths(g.at(0)), who, all, [&](const F2CSwaths& s) { return as(json::array({twinDump(s)}), none, none); });
  }
  if (w == "groups") {
    F2CSwathsByCells sbc;
    for (auto& x : g) { sbc.push_back(twinSwaths(x)); }
    return twins(sbc, who, [&](F2CSwathsByCells& s) { for (auto& x : s) { all(x); } }, [&](const F2CSwathsByCells& s) {
      json a = json::array();
      for (const auto& x : s) { a.push_back(twinDump(x)); }
      return as(a, none, none);
    });
  }
  if (w == "route") {
    F2CRoute r;
    auto points = [](const json& j) {
      F2CMultiPoint m;
      for (auto& p : j) { m.addPoint(jp(p)); }
      return m;
    };
    const json& conn = made.at("conn");
    for (size_t i = 0; i < conn.size(); ++i) {
      r.addConnection(points(conn[i]));
      if (i < g.size()) { r.addSwaths(twinSwaths(g[i])); }
    }
    return twins(r, who, [&](F2CRoute& x) {
      for (size_t i = 0; i < x.sizeVectorSwaths(); ++i) { all(x.getSwaths(i)); }
      for (size_t i = 0; i < x.sizeConnections(); ++i) { for (auto&& p : x.getConnection(i)) { p = p + by; } }
    }, [&](const F2CRoute& x) {
      json a = json::array(), c = json::array();
      for (size_t i = 0; i < x.sizeVectorSwaths(); ++i) { a.push_back(twinDump(x.getSwaths(i))); }
      for (size_t i = 0; i < x.sizeConnections(); ++i) { c.push_back(dump(x.getConnection(i))); }
      return as(a, c, none);
    });
  }
  if (w == "strip") {
    F2CStrip s;
    s.setName("n");
    s.setCell(twinCell(made.at("area").at(0)));
    return twins(s, who, [&](F2CStrip& x) { x.getCell() *= f; }, [&](const F2CStrip& x) {
      return as(none, none, x.getName() == "n" ? json::array({dump(x.getCell())}) : none);
    });
  }
  F2CCells cs;
  for (auto& c : made.at("area")) { cs.addGeometry(twinCell(c)); }
  F2CField fi(cs, "n");
  fi.setCRS("EPSG:28992");
  fi.setPrevCRS("UTM:31N");
  return twins(fi, who, [&](F2CField& x) { x.getField() *= f; }, [&](const F2CField& x) {
    const bool same = x.getId() == "n" && x.getCRS() == "EPSG:28992" && x.getPrevCRS() == "UTM:31N";
    return as(none, none, same ? dump(x.getField() + x.getRefPoint()) : none);
  });
}

struct ValuesI : Interp {
  std::vector<F2CPoint> pt{3};
  F2CLineString line[2];
  F2CLinearRing ring[2];
  F2CMultiPoint mp[2];
  F2CMultiLineString ml[2];
  F2CCell cell[2];
  F2CCells cells[2];

  json all() const {
    json a;
    for (auto& p : pt) { a["pt"].push_back(dump(p)); }
    for (int i = 0; i < 2; ++i) {
      a["line"].push_back(dump(line[i]));
      a["ring"].push_back(dump(ring[i]));
      a["mp"].push_back(dump(mp[i]));
      a["ml"].push_back(dump(ml[i]));
      a["cell"].push_back(dump(cell[i]));
      a["cells"].push_back(dump(cells[i]));
    }
    return a;
  }
  F2CPoint* kids(F2CPoint*) { return pt.data(); }
  F2CLineString* kids(F2CLineString*) { return line; }
  F2CLinearRing* kids(F2CLinearRing*) { return ring; }
  F2CCell* kids(F2CCell*) { return cell; }
  template <class C>
  C* kidsOf() { return kids(static_cast<C*>(nullptr)); }

  template <class T, class C>
  static T uneven(int n, int m) {
    auto pts = [&](int k) {
      std::vector<F2CPoint> v;
      for (int i = 0; i < 4; ++i) {
        v.emplace_back(m + (n + k) / 7.0 + i * 0.1, m * 10.0 + n / 3.0 + i * k * 0.7, n / 9.0);
      }
      return v;
    };
    T t;
    if constexpr (std::is_same<C, F2CPoint>::value) {
      for (auto& p : pts(1)) { t.addGeometry(p); }
    } else if constexpr (std::is_same<C, F2CLineString>::value) {
      for (int k = 1; k < 3; ++k) { t.addGeometry(F2CLineString(pts(k))); }
    } else if constexpr (std::is_same<C, F2CLinearRing>::value) {
      for (int k = 1; k < 3; ++k) { t.addGeometry(F2CLinearRing(pts(k))); }
    } else {
      for (int k = 1; k < 3; ++k) { t.addGeometry(F2CCell(F2CLinearRing(pts(k)))); }
    }
    return t;
  }
  static void bitsOf(const F2CPoint& p, std::vector<double>& out) {
    for (double v : {p.getX(), p.getY(), p.getZ()}) { out.push_back(v); }
  }
  template <class T>
  static void bitsOf(const T& t, std::vector<double>& out) {
    out.push_back(t.size());
    for (size_t i = 0; i < t.size(); ++i) { bitsOf(t.getGeometry(i), out); }
  }

  template <class T>
  static T ofPoints(const json& v) {
    T t;
    for (auto& p : v) { t.addPoint(jp(p)); }
    return t;
  }
  template <class T, class C>
  static T literal(const json& v) {
    T t;
    for (auto& e : v) {
      if constexpr (std::is_same<C, F2CCell>::value) {
        t.addGeometry(literal<F2CCell, F2CLinearRing>(e));
      } else {
        t.addGeometry(ofPoints<C>(e));
      }
    }
    return t;
  }

  template <class T, class C>
  json container(T* t, const std::string& op, const json& o) {
    auto A = [&]() -> T& { return t[o.at("a").get<int>() - 1]; };
    auto B = [&]() -> T& { return t[o.at("b").get<int>() - 1]; };
    auto Ki = [&]() -> C& { return kidsOf<C>()[o.at("c").get<int>() - 1]; };
    auto I = [&]() { return static_cast<size_t>(o.at("i").get<int>() - 1); };
    if (op == "mk") {
      if constexpr (std::is_same<C, F2CPoint>::value) {
        std::vector<F2CPoint> v;
        for (auto& p : o.at("v")) { v.push_back(jp(p)); }
        if (o.at("how") == "vector") {
          A() = T(v);
        } else {
          T n;
          for (auto& p : v) { n.addPoint(p); }
          A() = n;
        }
      } else {
        A() = literal<T, C>(o.at("v"));
      }
    } else if (op == "clone") { A() = B().clone(); }
    else if (op == "wkt") { T n; n.importFromWkt(B().exportToWkt()); A() = n; }
    else if (op == "add") { A().addGeometry(Ki()); }
    else if (op == "set") { A().setGeometry(I(), Ki()); }
    else if (op == "load") {
      const T& ct = A();
      std::string via = o.at("via");
      if (via == "const") { Ki() = ct.getGeometry(I()); }
      else if (via == "get") { Ki() = A().getGeometry(I()); }
      else if (via == "at") { Ki() = ct.at(I()); }
      else { Ki() = ct[I()]; }
    } else if (op == "spoil") {
      const T& ct = A();
      if (o.at("via") == "const") { C e = ct.getGeometry(I()); e *= 3.0; }
      else { C e = A().getGeometry(I()); e *= 3.0; }
    } else if (op == "scale") { A() *= o.at("f").get<double>(); }
    else if (op == "shift") {
      const F2CPoint& d = pt[o.at("c").get<int>() - 1];
      std::string how = o.at("how");
      if (how == "add") { A() = B() + d; }
      else if (how == "sub") { A() = B() - d; }
      else { A() = d - B(); }
    } else if (op == "edit") {
      if constexpr (std::is_same<C, F2CPoint>::value) {
        F2CPoint d = jp(o.at("d"));
        for (auto&& p : A()) { p = p + d; }
      }
    } else if (op == "rev") {
      if constexpr (std::is_same<T, F2CLineString>::value || std::is_same<T, F2CLinearRing>::value) {
        A().reversePoints();
      }
    } else if (op == "addall") {
      if constexpr (std::is_same<T, F2CMultiPoint>::value) { A().addPoints(B()); }
      if constexpr (std::is_same<T, F2CMultiLineString>::value) { A().addGeometry(B()); }
    } else if (op == "eq") {
      return {{"eq", A() == B()}, {"ne", A() != B()}};
    } else if (op == "odd") {
      T u = uneven<T, C>(o.at("n"), o.at("m"));
      T c = u.clone();
      std::vector<double> x, y;
      bitsOf(u, x);
      bitsOf(c, y);
      return {{"same", x.size() == y.size() && std::memcmp(x.data(), y.data(), x.size() * sizeof(double)) == 0},
              {"eq", c == u}};
    } else if (op == "info") {
      const T& c = A();
      json r = {{"size", c.size()}, {"empty", c.isEmpty()}};
      json it = json::array(), cit = json::array(), ends = json::array();
      for (auto&& e : A()) { it.push_back(dump(e)); }
      for (auto&& e : c) { cit.push_back(dump(e)); }
      r["iter"] = it;
      r["citer"] = cit;
      if (!c.isEmpty()) {
        r["box"] = {q(c.getDimMinX()), q(c.getDimMaxX()), q(c.getDimMinY()), q(c.getDimMaxY())};
        r["hw"] = {q(c.getHeight()), q(c.getWidth())};
        if constexpr (std::is_same<T, F2CMultiPoint>::value) {
          ends = {dump(c.getFirstPoint()), dump(c.getLastPoint())};
        } else if constexpr (std::is_same<C, F2CPoint>::value) {
          ends = {dump(c.startPoint()), dump(c.endPoint())};
        }
      }
      r["ends"] = ends;
      return r;
    } else if (op == "reads") {
      const T& c = A();
      json r = json::array();
      r.push_back(attempt([&]() { return c.getGeometry(I()); }));
      r.push_back(attempt([&]() { return A().getGeometry(I()); }));
      r.push_back(attempt([&]() { C e; c.getGeometry(I(), e); return e; }));
      r.push_back(attempt([&]() { C e; A().getGeometry(I(), e); return e; }));
      r.push_back(attempt([&]() { return c.at(I()); }));
      r.push_back(attempt([&]() { return c[I()]; }));
      if (I() + 1 == c.size() || c.size() == 0) { r.push_back(attempt([&]() { return c.back(); })); }
      if constexpr (std::is_same<T, F2CCells>::value) { r.push_back(attempt([&]() { return c.getCell(I()); })); }
      if constexpr (std::is_same<T, F2CCell>::value) {
        r.push_back(attempt([&]() -> F2CLinearRing { return I() == 0 ? c.getExteriorRing() : c.getInteriorRing(I() - 1); }));
      }
      return r;
    } else { unknownOp(op); }
    return all();
  }

  json perform(const json& o) override {
    const std::string op = o["op"];
    auto P = [&](const char* k) -> F2CPoint& { return pt[o.at(k).get<int>() - 1]; };
    if (o.contains("k")) {
      const std::string k = o["k"];
      if (k == "line") { return container<F2CLineString, F2CPoint>(line, op, o); }
      if (k == "ring") { return container<F2CLinearRing, F2CPoint>(ring, op, o); }
      if (k == "mp") { return container<F2CMultiPoint, F2CPoint>(mp, op, o); }
      if (k == "ml") { return container<F2CMultiLineString, F2CLineString>(ml, op, o); }
      if (k == "cell") { return container<F2CCell, F2CLinearRing>(cell, op, o); }
      return container<F2CCells, F2CCell>(cells, op, o);
    }
    if (op == "twin") { return twinRun(o); }
    if (op == "close") { ring[o["a"].get<int>() - 1].closeRing(); }
    else if (op == "toline") { line[o["a"].get<int>() - 1] = F2CLineString(ring[o["b"].get<int>() - 1]); }
    else if (op == "addring") {
      cells[o["a"].get<int>() - 1].addRing(o["i"].get<int>() - 1, ring[o["c"].get<int>() - 1]);
    } else if (op == "borders") {
      const F2CCells& c = cells[o["a"].get<int>() - 1];
      size_t i = o["i"].get<int>() - 1, j = o["j"].get<int>() - 1;
      return {{"border", attempt([&]() { return c.getCellBorder(i); })},
              {"inner", attempt([&]() { return c.getInteriorRing(i, j); })}};
    } else if (op == "pset") { P("a").setPoint(o["v"][0], o["v"][1], o["v"][2]); }
    else if (op == "passign") { P("a") = P("b"); }
    else if (op == "pmove") {
      F2CPoint t(std::move(P("b")));
      F2CPoint back(t);
      P("b") = back;
      P("a") = std::move(t);
    } else if (op == "pmovector") {
      F2CPoint keep = P("b");
      F2CPoint t(std::move(P("b")));
      P("b").setPoint(keep);
      pt[o["a"].get<int>() - 1] = t;
    } else if (op == "pcopy") { F2CPoint t(P("b")); t = F2CPoint(t); P("a") = t.clone(); }
    else if (op == "psetp") { P("a").setPoint(P("b")); }
    else if (op == "pswap") { std::swap(P("a"), P("b")); }
    else if (op == "psort") { std::stable_sort(pt.begin(), pt.end()); }
    else if (op == "prot") { std::rotate(pt.begin(), pt.begin() + 1, pt.end()); }
    else if (op == "padd") { P("a") = P("b") + P("c"); }
    else if (op == "psub") { P("a") = P("b") - P("c"); }
    else { unknownOp(op); }
    return all();
  }
};

int main(int argc, char** argv) {
  return runDriver(argc, argv, []() -> Interp* { return new ValuesI(); });
}

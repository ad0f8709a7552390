// Stand-in for the curve library: every state space passes what it is asked to
// steer_stub::world(), which a driver scripts and watches.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace steer {
struct State { double x {0}, y {0}, theta {0}, kappa {0}, d {0}; };
struct Control { double delta_s {0}, kappa {0}, sigma {0}; };
}  // namespace steer
namespace steer_stub {
struct Request {
  std::string name;
  double kappa, sigma, disc;
  bool forwards;
  steer::State a, b;
};
struct World {
  std::function<std::vector<steer::State>(const Request&)> path;
  std::function<std::vector<steer::Control>(const Request&)> controls;
};
inline World& world() { static World w; return w; }
struct Space {
  Request base;
  Request with(const steer::State& a, const steer::State& b) const {
    Request r = base;
    r.a = a;
    r.b = b;
    return r;
  }
  std::vector<steer::State> get_path(const steer::State& a, const steer::State& b) const {
    return world().path(with(a, b));
  }
  std::vector<steer::Control> get_controls(const steer::State& a, const steer::State& b) const {
    return world().controls(with(a, b));
  }
};
}  // namespace steer_stub

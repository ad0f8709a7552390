// Shared plumbing of the conformance drivers.
//
// A driver reads scenarios (one JSON object per line: {"id":n,"ops":[...]},
// written by TLC from the specification) and performs the operations on the
// real library through its public API.  For every operation it writes one
// event: the operation as given plus "x" (exception seen, "" if none) and "r"
// (what the library answered).  Drivers hold no expectations: the events are
// judged by the trace specifications in ../spec.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

// Number that no specification value uses: "not on the lattice".
constexpr int OFF = -99999999;

// Integer encoding of a real: round(v * scale) when v*scale is within tol of
// an integer, OFF otherwise (also for NaN, infinities and huge values).
inline int q(double v, double scale = 1.0, double tol = 1e-6) {
  double s = v * scale;
  if (!(std::fabs(s) < 9.0e7)) { return OFF; }
  double r = std::nearbyint(s);
  if (std::fabs(s - r) > tol * std::max(1.0, scale)) { return OFF; }
  return static_cast<int>(r);
}
// Integer encoding by plain rounding: for quantities that are not on a lattice
// and that the specification compares within a stated tolerance.
inline int qr(double v, double scale) {
  double s = v * scale;
  if (!(std::fabs(s) < 2.0e9)) { return OFF; }
  return static_cast<int>(std::nearbyint(s));
}
inline int big(int64_t v) {  // costs: everything from 2^30 on is "infinite"
  if (v >= (int64_t(1) << 30)) { return -1; }
  if (v < -(int64_t(1) << 30)) { return OFF; }
  return static_cast<int>(v);
}

[[noreturn]] inline void unknownOp(const std::string& op) {
  std::fprintf(stderr, "driver: unknown op %s\n", op.c_str());
  std::_Exit(3);
}

inline std::string exceptionName(const std::exception& e) {
  if (dynamic_cast<const std::out_of_range*>(&e)) { return "out_of_range"; }
  if (dynamic_cast<const std::invalid_argument*>(&e)) { return "invalid_argument"; }
  if (dynamic_cast<const std::length_error*>(&e)) { return "length_error"; }
  if (dynamic_cast<const std::logic_error*>(&e)) { return "logic_error"; }
  if (dynamic_cast<const std::runtime_error*>(&e)) { return "runtime_error"; }
  return "exception";
}

// One scenario interpreter: perform(op) executes one operation and returns
// the answer; a new interpreter is made for every scenario.
struct Interp {
  virtual ~Interp() = default;
  virtual json perform(const json& op) = 0;
};

// A call that spins is ended after some seconds of processor time, one that
// waits for ever after some minutes.
inline void watchdog(int seconds) {
  ::itimerval t {};
  t.it_value.tv_sec = seconds;
  ::setitimer(ITIMER_PROF, &t, nullptr);
  ::alarm(6 * seconds);
}

inline int runDriver(int argc, char** argv,
    const std::function<Interp*()>& make, int op_seconds = 20) {
  if (argc < 4) {
    std::fprintf(stderr, "usage: %s scenarios.ndjson out.ndjson first\n", argv[0]);
    return 2;
  }
  std::ifstream in(argv[1]);
  FILE* out = std::fopen(argv[2], "a");
  long first = std::atol(argv[3]);
  std::string line;
  long k = 0;
  while (std::getline(in, line)) {
    if (line.empty()) { continue; }
    if (k++ < first) { continue; }
    json sc = json::parse(line);
    json head = {{"op", "begin"}, {"scn", sc["id"]}};
    if (sc.contains("cfg")) { head["cfg"] = sc["cfg"]; }
    std::fprintf(out, "%s\n", head.dump().c_str());
    std::fflush(out);
    Interp* it = make();
    for (const auto& op : sc["ops"]) {
      json ev = op;
      ev["x"] = "";
      watchdog(op_seconds);
      try {
        ev["r"] = it->perform(op);
      } catch (const std::exception& e) {
        ev["x"] = exceptionName(e);
      } catch (...) {
        ev["x"] = "unknown";
      }
      watchdog(0);
      std::fprintf(out, "%s\n", ev.dump().c_str());
      std::fflush(out);
    }
    delete it;
  }
  std::fclose(out);
  return 0;
}

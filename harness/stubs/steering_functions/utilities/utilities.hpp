// Stand-in for the one steering_functions header Path.cpp and path_planning.cpp
// include (the library itself is not available offline).
#pragma once
#include <algorithm>
#include <cmath>
using namespace std;
#ifndef PI
#define PI 3.1415926535897932384
#endif
// End configuration of a clothoid, by numerical integration.
inline void end_of_clothoid(double x_i, double y_i, double theta_i,
    double kappa_i, double sigma, double direction, double length,
    double* x_f, double* y_f, double* theta_f, double* kappa_f) {
  const int n = 2000;
  const double h = length / n;
  auto th = [&](double s) {
    return theta_i + direction * (kappa_i * s + 0.5 * sigma * s * s);
  };
  double x = x_i, y = y_i;
  for (int i = 0; i < n; ++i) {
    double a = i * h, m = a + 0.5 * h, b = a + h;
    x += direction * h / 6.0 * (std::cos(th(a)) + 4 * std::cos(th(m)) + std::cos(th(b)));
    y += direction * h / 6.0 * (std::sin(th(a)) + 4 * std::sin(th(m)) + std::sin(th(b)));
  }
  *x_f = x; *y_f = y; *theta_f = th(length);
  *kappa_f = kappa_i + sigma * length;
}

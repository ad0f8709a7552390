#pragma once
#include "steering_functions/steering_functions.hpp"
struct Dubins_State_Space : steer_stub::Space {
  Dubins_State_Space(double k, double disc = 0.1, bool f = true) : Space{{"dubins", k, 0.0, disc, f, {}, {}}} {}
};

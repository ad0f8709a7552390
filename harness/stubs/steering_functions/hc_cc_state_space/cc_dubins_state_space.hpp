#pragma once
#include "steering_functions/steering_functions.hpp"
struct CC_Dubins_State_Space : steer_stub::Space {
  CC_Dubins_State_Space(double k, double s, double disc = 0.1, bool f = true) : Space{{"ccany", k, s, disc, f, {}, {}}} {}
};

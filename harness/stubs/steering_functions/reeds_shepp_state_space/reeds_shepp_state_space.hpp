#pragma once
#include "steering_functions/steering_functions.hpp"
struct Reeds_Shepp_State_Space : steer_stub::Space {
  Reeds_Shepp_State_Space(double k, double disc = 0.1) : Space{{"reeds", k, 0.0, disc, false, {}, {}}} {}
};

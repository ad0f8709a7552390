#pragma once
#include "steering_functions/steering_functions.hpp"
struct HC00_Reeds_Shepp_State_Space : steer_stub::Space {
  HC00_Reeds_Shepp_State_Space(double k, double s, double disc = 0.1) : Space{{"reedshc", k, s, disc, false, {}, {}}} {}
};

#pragma once
#include "../steering_functions.hpp"
struct Reeds_Shepp_State_Space : steer::Space { Reeds_Shepp_State_Space(double k, double d = 0.1) : Space({1, k, 0, d, false}) {} };

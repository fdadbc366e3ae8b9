#pragma once
#include "../steering_functions.hpp"
struct HC00_Reeds_Shepp_State_Space : steer::Space { HC00_Reeds_Shepp_State_Space(double k, double s, double d = 0.1) : Space({4, k, s, d, false}) {} };

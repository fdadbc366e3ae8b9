#pragma once
#include "../steering_functions.hpp"
struct Dubins_State_Space : steer::Space { Dubins_State_Space(double k, double d = 0.1, bool f = true) : Space({0, k, 0, d, f}) {} };

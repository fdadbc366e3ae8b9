#pragma once
#include "../steering_functions.hpp"
struct CC_Dubins_State_Space : steer::Space { CC_Dubins_State_Space(double k, double s, double d = 0.1, bool f = true) : Space({3, k, s, d, f}) {} };

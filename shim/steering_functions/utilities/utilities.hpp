#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <fstream>
#include <sstream>
#include "../steering_functions.hpp"
using namespace std;
namespace steer { typedef void (*ClothoidHook)(double, double, double, double, double, double, double, double*, double*, double*, double*); inline ClothoidHook clothoid_hook = nullptr; }
inline void end_of_clothoid(double x_i, double y_i, double theta_i, double kappa_i, double sigma, double direction, double length, double* x_f, double* y_f, double* theta_f, double* kappa_f) {
  if (!steer::clothoid_hook) sx_unmodelled("steering_functions end_of_clothoid");
  steer::clothoid_hook(x_i, y_i, theta_i, kappa_i, sigma, direction, length, x_f, y_f, theta_f, kappa_f); }

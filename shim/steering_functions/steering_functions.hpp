// Stand-in for the steering_functions library (not installed here): the curve solvers answer through hooks set by a harness.
#pragma once
#include <cstddef>
#include <vector>
extern "C" void sx_unmodelled(const char*);
namespace steer {
struct State { double x = 4321, y = 4321, theta = 4321, kappa = 4321, d = 4321; }; // unset members stand out
struct Control { double delta_s, kappa, sigma; };
struct Setup { int kind; double kappa, sigma, discretization; bool forwards; };
typedef std::vector<State> (*PathHook)(const Setup&, const State&, const State&);
typedef std::vector<Control> (*ControlHook)(const Setup&, const State&, const State&);
inline PathHook path_hook = nullptr; inline ControlHook control_hook = nullptr;
struct Space { Setup s; Space(Setup x) : s(x) {}
  std::vector<State> get_path(const State& a, const State& b) const { if (!path_hook) sx_unmodelled("steering_functions get_path"); return path_hook(s, a, b); }
  std::vector<Control> get_controls(const State& a, const State& b) const { if (!control_hook) sx_unmodelled("steering_functions get_controls"); return control_hook(s, a, b); } };
}

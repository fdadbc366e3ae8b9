// Native replay runtime: runs a harness on the concrete inputs of a .in file.
// exit 0: ran to the end; 1: an assertion failed (or a crash); 77: the inputs do not satisfy an assumption.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <cxxabi.h>
static std::map<std::string, double> in; static std::map<std::string, int> cnt;
static std::map<std::string, sx_fn>& regs() { static std::map<std::string, sx_fn> r; return r; }
SxReg::SxReg(const char* n, sx_fn f) { regs()[n] = f; }
static bool verbose = getenv("SX_VERBOSE") != nullptr;
static double get(const char* n, double lo, double hi, bool integral) {
  int k = cnt[n]++; std::string s = n; if (k) s += "#" + std::to_string(k);
  auto it = in.find(s); double v = it == in.end() ? (integral ? lo : lo + (hi - lo) / 2) : it->second;
  if (v < lo) v = lo; if (v > hi) v = hi;
  if (verbose) fprintf(stderr, "input %s = %.17g\n", s.c_str(), v);
  return v;
}
[[noreturn]] static void die(int c) { fflush(stdout); fflush(stderr); _Exit(c); }
[[noreturn]] static void bad(const char* m) { printf("ASSERTION FAILED: %s\n", m); die(1); }
static bool alike(double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= std::max(1e-6, 1e-8 * std::max(std::fabs(a), std::fabs(b))); }
extern "C" {
double sx_double(const char* n, double lo, double hi) { return get(n, lo, hi, false); }
double sx_fresh(const char* n, double lo, double hi) { return get(n, lo, hi, false); }
double sx_angle(const char* n, double lo, double hi) { return get(n, lo, hi, false); }
long sx_int(const char* n, long lo, long hi) { return (long)get(n, lo, hi, true); }
long sx_choose(const char* n, long lo, long hi) { return (long)get(n, lo, hi, true); }
bool sx_bool(const char* n) { return get(n, 0, 1, true) != 0; }
void sx_assume(bool c) { if (!c) { printf("ASSUMPTION NOT MET\n"); die(77); } }
void sx_assert(bool c, const char* m) { if (!c) bad(m); }
void sx_assert_eq(double a, double b, const char* m) { if (!near(a, b)) { printf("  %.12g != %.12g\n", a, b); bad(m); } }
void sx_assert_le(double a, double b, const char* m) { if (!(a <= b || near(a, b))) { printf("  %.12g > %.12g\n", a, b); bad(m); } }
void sx_assert_angle_eq(double a, double b, const char* m) { double d = a - b; if (!(std::fabs(std::sin(d)) <= 1e-6 && std::cos(d) > 0)) { printf("  angle %.12g != %.12g\n", a, b); bad(m); } }
void sx_reach(const char* t) { if (verbose) fprintf(stderr, "reach %s\n", t); }
void sx_fail(const char* m) { bad(m); }
void sx_option(const char*, long) {}
void sx_unmodelled(const char* w) { printf("UNMODELLED %s\n", w); die(78); }
void sx_ignore_path(const char*) { die(77); }
bool sx_is_replay() { return true; }
bool sx_thorough() { auto it = in.find("sx.thorough"); return it == in.end() || it->second != 0; } // the tier the inputs were found in
double sx_tol(double t) { return t; }
bool sx_symbolic(double) { return false; }
long sx_conc(long v) { return v; }
double sx_ufun(const char* name, int nargs, double a, double b) {
  static std::map<std::string, std::vector<std::pair<std::pair<double, double>, double>>> t;
  for (auto& e : t[name]) if (alike(e.first.first, a) && (nargs < 2 || alike(e.first.second, b))) return e.second;
  double v = get(name, -1000, 1000, false); t[name].push_back({{a, b}, v}); return v;
}
}
#include <csignal>
#include <unistd.h>
static void onSig(int s) { printf("CRASH: signal %d\n", s); die(1); }
int main(int argc, char** argv) {
  if (argc < 3) { for (auto& r : regs()) printf("%s\n", r.first.c_str()); return 2; }
  std::ifstream f(argv[2]); std::string l;
  while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.rfind(' '); in[l.substr(0, p)] = atof(l.c_str() + p + 1); }
  if (!regs().count(argv[1])) { printf("no harness %s\n", argv[1]); return 2; }
#ifndef __SANITIZE_ADDRESS__
  signal(SIGSEGV, onSig); signal(SIGFPE, onSig);
#else
  signal(SIGFPE, onSig);
#endif
  signal(SIGABRT, onSig); signal(SIGALRM, onSig); alarm(25);
  try { regs()[argv[1]](); }
  catch (const std::exception& e) { int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); printf("ASSERTION FAILED: crash: uncaught exception %s: %s\n", d ? d : "?", e.what()); die(1); }
  printf("OK\n"); die(0);
}

// Harness API. The same harness source is compiled twice: instrumented (symbolic run) and natively (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double sx_double(const char* name, double lo, double hi);  // an arbitrary real in [lo,hi]
long   sx_int(const char* name, long lo, long hi);         // an arbitrary integer in [lo,hi]
bool   sx_bool(const char* name);
long   sx_choose(const char* name, long lo, long hi);      // like sx_int, but split into one path per value
void   sx_assume(bool c);
void   sx_assert(bool c, const char* msg);
void   sx_assert_eq(double a, double b, const char* msg);  // exact over the reals; tolerance in replay
void   sx_assert_le(double a, double b, const char* msg);
void   sx_assert_angle_eq(double a, double b, const char* msg); // equal modulo a full turn
void   sx_reach(const char* tag);                          // vacuity witness: must be reached by a feasible path
void   sx_fail(const char* msg);                           // reaching this is a violation
double sx_angle(const char* name, double lo, double hi);   // real used as an angle
double sx_fresh(const char* name, double lo, double hi);   // arbitrary stub result (also an input for replay)
void   sx_option(const char* name, long v);                // "ite" 0/1, "timeout_ms", "pairlemmas"
void   sx_ignore_path(const char* why);                    // end this path; counted as outside the claim
void   sx_unmodelled(const char* what);    // a library call without a contract: the path is not decided
bool   sx_is_replay();
bool   sx_thorough();                                      // larger bounds wanted (true in replay)
double sx_tol(double t);                                   // 0 in the symbolic run, t in replay
bool   sx_symbolic(double v);                              // not a plain number (always false in replay)
long   sx_conc(long v);                                    // concretise by case split
double sx_ufun(const char* name, int nargs, double a, double b); // uninterpreted real function (congruent)
}
typedef void (*sx_fn)();
struct SxReg { SxReg(const char* n, sx_fn f); };
#define SX_HARNESS(name) static void name(); static SxReg reg_##name(#name, name); static void name()
// a size: any of the small ones, or one large
inline long sx_size(const char* name, long lo, long hi, long large) { long k = sx_choose(name, lo, hi + 1); return k > hi ? large : k; }

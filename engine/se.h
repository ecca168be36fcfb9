// Harness interface. The same harness is compiled (a) with the symbolic pass and linked to se_rt.cc, and
// (b) natively with se_native.cc, which replays a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double se_real(const char *name);              // any real (REAL mode) / any binary64 (FP mode)
int64_t se_int64(const char *name);            // any 64 bit integer
int32_t se_int32(const char *name);
uint8_t se_byte(const char *name);
int se_choose(const char *name, int n);        // every value 0..n-1 (forks)
void se_assume(bool c);                        // restrict the inputs
void se_assume_eq(double a, double b);         // same, natively with tolerance
void se_assert(bool c, const char *label);     // the property
void se_assert_eq(double a, double b, const char *label); // exact in REAL mode, natively relative tolerance
void se_assert_eqs(double a, double b, double scale, const char *label); // natively |a-b| <= 1e-9*(|a|+|b|+|scale|)
void se_reach(const char *label);              // this point must be reached (satisfiable path), else the check is vacuous
void se_stop(void);                            // end this path (not an error)
int se_native(void);                           // 1 in replay
int se_symbolic(double x);                     // is the value symbolic
double se_diff(double f, double x);            // REAL mode: exact derivative of term f w.r.t. input x (not in replay)
double se_fresh(double f);                     // replace a term by a fresh unconstrained real equal to it
double se_uf1(const char *fn, double x);       // uninterpreted function (replay: some smooth function)
double se_uf2(const char *fn, double x, double y);
void se_opt(const char *key, long v);          // "fp", "ite_loads", "rlimit", "maxpaths"
void se_note(const char *label, double v);     // recorded in counterexamples
void se_nz(double x);                          // assume x != 0
}
void se_main();

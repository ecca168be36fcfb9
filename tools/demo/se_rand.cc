// Demonstration driver: runs se_main() with pseudo-random inputs (fixed seed), one process per trial; exit 1 if an expectation fails.
#include "se.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
#ifndef TRIALS
#define TRIALS 3000
#endif
static uint64_t st; static uint32_t rnd() { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 33; }
static bool failed; static void done(int c) { fflush(stdout); _exit(failed ? 1 : c); }
extern "C" {
double se_real(const char *) { switch (rnd() % 8) { case 0: return (int)(rnd() % 5) - 2; default: return ((int)(rnd() % 65) - 20) / 8.0; } }
int64_t se_int64(const char *) { return rnd() % 3 ? (int64_t)(rnd() % 17) : (int64_t)(((uint64_t)rnd() << 32) | rnd()); }
int32_t se_int32(const char *) { return rnd() % 17; }
uint8_t se_byte(const char *) { return rnd(); }
int se_choose(const char *, int n) { return rnd() % n; }
void se_assume(bool c) { if (!c) done(3); }
void se_nz(double x) { se_assume(std::fabs(x) > 1e-6); }
void se_assume_eq(double a, double b) { se_assume(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a))); }
static void fail(const char *l, double a, double b) { failed = true; printf("FAIL %s %.12g %.12g\n", l, a, b); done(1); }
void se_assert(bool c, const char *l) { if (!c) fail(l, 0, 0); }
void se_assert_eqs(double a, double b, double s, const char *l) { if (a == b || (std::isnan(a) && std::isnan(b))) return; if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b) + std::fabs(s)))) fail(l, a, b); }
void se_assert_eq(double a, double b, const char *l) { se_assert_eqs(a, b, 0, l); }
void se_reach(const char *) {}
void se_stop(void) { done(0); }
int se_native(void) { return 1; }
int se_symbolic(double) { return 1; }
double se_diff(double, double) { done(3); return 0; }
double se_fresh(double f) { return f; }
static double gf(const char *fn, double x, double y) { unsigned h = 7; for (const char *p = fn; *p; p++) h = h * 31 + *p; double a = 0.3 + (h % 97) / 97.0, b = 0.2 + (h / 97 % 89) / 89.0; return std::sin(a * x + 1) + b * x * x + 0.5 * y * a + x * y * b; }
double se_uf1(const char *fn, double x) { return gf(fn, x, 0); }
double se_uf2(const char *fn, double x, double y) { return gf(fn, x, y); }
void se_opt(const char *, long) {}
void se_note(const char *, double) {}
}
int main() {
  setvbuf(stdout, nullptr, _IONBF, 0); int run = 0, bad = 0; time_t t0 = time(nullptr);
  for (int t = 0; t < TRIALS && !bad && time(nullptr) - t0 < 45; t++) {
    pid_t p = fork(); if (!p) { st = 77777 + 1000003ULL * t; for (int i = 0; i < 5; i++) rnd(); alarm(20);
      if (!freopen("/dev/null", "w", stderr)) {} 
      try { se_main(); } catch (std::exception &e) { printf("exception %s\n", e.what()); failed = true; } catch (...) { printf("exception\n"); failed = true; } done(0); }
    int s = 0; waitpid(p, &s, 0); if (WIFSIGNALED(s)) { printf("signal %d\n", WTERMSIG(s)); bad++; } else if (WEXITSTATUS(s) == 1) bad++; else if (WEXITSTATUS(s) == 0) run++; }
  printf("trials %d bad %d\n", run, bad); return bad ? 1 : (run ? 0 : 4); }

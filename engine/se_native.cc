// Replay runtime: same harness, real code compiled without the pass, input values read from a counterexample file.
#include "se.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
static std::map<std::string, std::string> val; static std::map<std::string, int> cnt;
static bool failed = false; static std::string want;
static std::string uname(const char *n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static double tol = 1e-7;
extern "C" {
double se_real(const char *n) { auto it = val.find("real " + uname(n)); return it == val.end() ? 0.0 : strtod(it->second.c_str(), nullptr); }
static uint64_t gi(const char *n) { auto it = val.find("int " + uname(n)); return it == val.end() ? 0 : strtoull(it->second.c_str(), nullptr, 10); }
int64_t se_int64(const char *n) { return (int64_t)gi(n); }
int32_t se_int32(const char *n) { return (int32_t)gi(n); }
uint8_t se_byte(const char *n) { return (uint8_t)gi(n); }
int se_choose(const char *n, int) { auto it = val.find("choose " + uname(n)); return it == val.end() ? 0 : atoi(it->second.c_str()); }
static void done() { fflush(stdout); _exit(failed ? 1 : 0); }
void se_assume(bool c) { if (!c) { printf("REPLAY assumption not met\n"); if (!failed) { fflush(stdout); _exit(3); } done(); } }
void se_nz(double x) { se_assume(x != 0); }
void se_assume_eq(double a, double b) { se_assume(std::fabs(a - b) <= 1e-6 * (std::fabs(a) + std::fabs(b)) + 1e-9); }
static void fail(const char *l, double a, double b) { failed = true; printf("REPLAY FAIL %s %.17g %.17g\n", l, a, b); }
void se_assert(bool c, const char *l) { if (!c) fail(l, 0, 0); }
void se_assert_eqs(double a, double b, double s, const char *l) { if (a == b || (std::isnan(a) && std::isnan(b))) return; if (!(std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b) + std::fabs(s)))) fail(l, a, b); }
void se_assert_eq(double a, double b, const char *l) { se_assert_eqs(a, b, 1e-3, l); }
void se_reach(const char *) {}
void se_stop(void) { done(); }
int se_native(void) { return 1; }
int se_symbolic(double) { return 1; }
double se_diff(double, double) { printf("REPLAY se_diff\n"); _exit(4); }
double se_fresh(double f) { return f; }
static double gf(const char *fn, double x, double y) { unsigned h = 7; for (const char *p = fn; *p; p++) h = h * 31 + *p; double a = 0.3 + (h % 97) / 97.0, b = 0.2 + (h / 97 % 89) / 89.0; return std::sin(a * x + 1) + b * x * x + 0.5 * y * a + x * y * b; }
double se_uf1(const char *fn, double x) { return gf(fn, x, 0); }
double se_uf2(const char *fn, double x, double y) { return gf(fn, x, y); }
void se_opt(const char *, long) {}
void se_note(const char *l, double v) { printf("note %s %.17g\n", l, v); }
}
int main(int argc, char **argv) {
  if (argc > 1) { std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) { if (l.compare(0, 6, "label ") == 0) { want = l.substr(6); continue; } // names may contain blanks: the value is the last field (reals: the last but one)
    size_t e = l.rfind(' '); if (e == std::string::npos || e == 0) continue; if (l.compare(0, 5, "real ") == 0) { l.resize(e); e = l.rfind(' '); if (e < 5) continue; } val[l.substr(0, e)] = l.substr(e + 1); } }
  if (getenv("SE_TOL")) tol = atof(getenv("SE_TOL"));
  setvbuf(stdout, nullptr, _IONBF, 0); alarm(60);
  try { se_main(); } catch (std::exception &e) { printf("REPLAY FAIL exception %s\n", e.what()); failed = true; } catch (...) { printf("REPLAY FAIL exception\n"); failed = true; }
  done(); }

// H02: functions offered to model expressions, by name.
#include "se.h"
#include "MathEval.hh"
#include "GlobalData.hh"
#include "ObjectHolder.hh"
#include "dsException.hh"
#ifdef DEVSIM_EXTENDED_PRECISION
#include "Float128.hh"
#endif
#include <cmath>
#include <string>
#include <vector>
#if QUAD
typedef float128 F;
#else
typedef double F;
#endif
static F call(const std::string &f, std::vector<F> a) { std::string e; F r = MathEval<F>::GetInstance().EvaluateMathFunc(f, a, e); se_assert(e.empty(), "function is available"); return r; }
static double D(F x) { return static_cast<double>(x); }
#if MODE == 1
// expm1 as floating point has it: below 1e-15 the result is the argument itself
extern "C" double se_expm1(double x) { if (std::fabs(x) < 1e-15) return x; double r = __builtin_expm1(x); se_assume(r > x); return r; }
#endif
#if MODE == 2
// x^(1/3) and x^(4/3) as powers of one root; equal up to rounding of the argument is equal
static double rx[4], rt[4]; static int rn;
extern "C" double se_pow(double x, double y) { double t = 0; int i; for (i = 0; i < rn; i++) if (std::fabs(x - rx[i]) <= 1e-12 * std::fabs(x)) break;
  if (i == rn) { t = se_real("root"); if (se_native()) t = std::cbrt(x); else { se_assume(t > 0); se_assume_eq(t * t * t, x); } rx[rn] = x; rt[rn++] = t; } else t = rt[i];
  if (std::fabs(y - 1. / 3) < 1e-12) return t; if (std::fabs(y - 4. / 3) < 1e-12) return t * t * t * t; return __builtin_pow(x, y); }
#elif MODE == 3
// equal up to rounding of the argument is equal
struct Fn { double x[16], v[16]; int n; int find(double a) { for (int i = 0; i < n; i++) if (std::fabs(a - x[i]) <= 1e-9) return i; return -1; } double put(double a, double r) { x[n] = a; return v[n++] = r; } };
static Fn fe, fc;
extern "C" double se_exp(double x) { if (se_native() || !se_symbolic(x)) return __builtin_exp(x); int i = fe.find(x); return i >= 0 ? fe.v[i] : fe.put(x, __builtin_exp(x)); }
extern "C" double se_erfc(double x) { if (se_native() || !se_symbolic(x)) return __builtin_erfc(x); int i = fc.find(x); return i >= 0 ? fc.v[i] : fc.put(x, __builtin_erfc(x)); }
#endif
void se_main() {
#if MODE == 0 // exact functions
  double a = se_real("a"), b = se_real("b"), c = se_real("c"), d = se_real("d"); F A = a, B = b, C_ = c, D_ = d;
  auto is = [&](const char *f, std::vector<F> v, bool want) { double r = D(call(f, v)); se_assert((r == 1) == want && (r == 0) == !want, f); };
  switch (se_choose("function", 8)) {
  case 0: is("==", {A, B}, a == b); is("!", {A}, a == 0); break;
  case 1: is("<", {A, B}, a < b); is("<=", {A, B}, a <= b); break;
  case 2: is(">", {A, B}, a > b); is(">=", {A, B}, a >= b); break;
  case 3: is("&&", {A, B}, (a != 0) & (b != 0)); is("||", {A, B}, (a != 0) | (b != 0)); break;
  case 4: { double m = D(call("min", {A, B})), M = D(call("max", {A, B})); se_assert((m <= a) & (m <= b) & ((m == a) | (m == b)), "min"); se_assert((M >= a) & (M >= b) & ((M == a) | (M == b)), "max"); break; }
  case 5: is("step", {A}, a >= 0); { double s = D(call("sgn", {A})); se_assert(s == (a >= 0 ? 1 : -1), "sgn"); double f = D(call("abs", {A})); se_assert((f == a) | (f == -a), "abs"); se_assert(f >= 0, "abs"); } break;
  case 6: se_assert_eq(D(call("ifelse", {A, B, C_})), a != 0 ? b : c, "ifelse"); se_assert_eq(D(call("dot2d", {A, B, C_, D_})), a * c + b * d, "dot2d"); break;
  case 7: se_assert_eq(D(call("kahan3", {A, B, C_})), a + b + c, "kahan3"); se_assert_eq(D(call("kahan4", {A, B, C_, D_})), a + b + c + d, "kahan4"); break;
  }
  // integer powers are products
  int k = se_choose("power", 6) - 2; double p = D(call("pow", {A, F(k)})), q = 1; if (k < 0) { se_assume(a != 0); for (int i = 0; i < -k; i++) q *= a; se_assert_eq(p * q, 1, "negative power"); } else { for (int i = 0; i < k; i++) q *= a; se_assert_eq(p, q, "power"); }
  { std::string e; std::vector<F> v{A}; MathEval<F>::GetInstance().EvaluateMathFunc("max", v, e); se_assert(!e.empty(), "number of arguments is checked"); }
  se_reach("exact");
#elif MODE == 1 // functions with a derivative
  double x = se_real("x"); 
  switch (se_choose("function", 5)) {
  case 0: { se_assume(x > -36 && x < 36); double v = call("B", {x}), w = call("dBdx", {x}); if (x == 0) { se_assert(v == 1, "B(0)"); se_assert(w == -0.5, "dBdx(0)"); break; }
      if (std::fabs(x) < 1e-15) { se_assert(std::fabs(v - (1 - x / 2)) <= x * x + 1e-14, "B near zero"); se_assert(std::fabs(w - (-0.5 + x / 6)) <= x * x + 1e-14, "dBdx near zero"); se_reach("series"); break; }
      double m = std::expm1(x), ex = std::exp(x); se_assert_eq(v * m, x, "B"); se_assert_eq(w * m * m, m - x * ex, "dBdx"); break; }
  case 1: { se_assume(x > 36.1 || x < -36.1); double v = call("B", {x}), w = call("dBdx", {x}); if (x > 0) { double en = std::exp(-x); se_assert_eq(v, x * en, "B for large arguments"); se_assert_eq(w, (1 - x) * en, "dBdx for large arguments"); } else { se_assert_eq(v, -x, "B for large negative arguments"); se_assert_eq(w, -1 - x * std::exp(x), "dBdx for large negative arguments"); } se_reach("large"); break; }
  case 2: { double w = call("derfdx", {x}), u = call("derfcdx", {x}), g = std::exp(-x * x); se_assert_eqs(w, 1.12837916709551257389615890312 * g, g, "derfdx"); se_assert_eqs(u, -1.12837916709551257389615890312 * g, g, "derfcdx"); break; }
  case 3: { double v = call("exp", {x}), l; se_assert_eq(v, std::exp(x), "exp"); se_assume(x > 0); l = call("log", {x}); se_assert_eq(l, std::log(x), "log"); break; }
  case 4: { double s = call("sinh", {x}), h = call("cosh", {x}), t = call("tanh", {x}); se_assert_eq(s, std::sinh(x), "sinh"); se_assert_eq(h, std::cosh(x), "cosh"); se_assert_eq(t, std::tanh(x), "tanh"); se_assert_eq(call("asinh", {x}), std::asinh(x), "asinh"); se_assume(x >= 1); se_assert_eq(call("acosh", {x}), std::acosh(x), "acosh"); break; }
  }
  se_reach("derivative");
#elif MODE == 2 // Fermi integral: Joyce-Dixon series and the degenerate expansion
  double r = se_real("r"); int hi = se_choose("degenerate", 2); if (hi) se_assume(r > 8.463 && r < 1000); else se_assume(r > 1e-3 && r < 8.4629);
  double v = D(call("InvFermi", {r})), w = D(call("dInvFermidx", {r}));
  if (!hi) { double s = std::log(r) + r * (0.35355339059327376 + r * (-4.9500897298752622e-3 + r * (1.4838577128872821e-4 - r * 4.4256301190009895e-6))); se_assert(std::fabs(v - s) <= 1e-9, "InvFermi follows the series"); double dw = 1 / r + 0.35355339059327376 + r * (-2 * 4.9500897298752622e-3 + r * (3 * 1.4838577128872821e-4 - 4 * r * 4.4256301190009895e-6)); se_assert(std::fabs(w - dw) <= 1e-9, "dInvFermidx is the derivative of InvFermi"); se_reach("series"); }
  else { double c = 1.3293403881791370205, t = se_pow(c * r, 1. / 3.), e = v + 0.0137050034663995; // (c r)^(1/3) = t
    se_assert(e > 0, "InvFermi is positive"); se_assert(std::fabs(e * e - (t * t * t * t - 1.6449340668482264)) <= 1e-9 * (t * t * t * t), "InvFermi follows the degenerate expansion"); se_assert(std::fabs(w * e - (2. / 3.) * c * t) <= 1e-9 * t, "dInvFermidx is the derivative of InvFermi"); se_reach("degenerate"); }
#elif MODE == 3 // Gauss-Fermi integral for fixed widths
  static const double width[] = {0.5, 2, 4, 6}; double s = width[se_choose("width", 4)], S = s * s, z = se_real("zeta"); int hi = se_choose("side", 2); se_assume(z > -80 && z < 80); se_assume(hi ? z > -S : z < -S);
  double v = D(call("gfi", {z, s})), w = D(call("dgfidx", {z, s})), Hs = std::sqrt(2.) / s * D(call("erfc_inv", {se_exp(-0.5 * S)}));
  if (hi) { double g = se_exp(-0.5 * Hs * Hs * z * z / S), n = se_erfc(-z / (s * std::sqrt(2.)) * Hs); se_assert(std::fabs(v - 0.5 * n) <= 1e-9, "gfi follows the error function"); se_assert(std::fabs(w - Hs / s * 0.39894228040143267794 * g) <= 1e-9 * g, "dgfidx is the derivative of gfi"); se_reach("degenerate"); }
  else { double K = 2 * (1 - Hs / s * std::sqrt(2 / 3.14159265358979323846) * se_exp(0.5 * S * (1 - Hs * Hs))), e1 = se_exp(0.5 * S + z), e2 = se_exp(K * (z + S)); se_assert(std::fabs(v * (e2 + 1) - e1) <= 1e-9 * e1, "gfi follows the analytical form"); se_assert(std::fabs(w * (e2 + 1) * (e2 + 1) - (e1 * (e2 + 1) - e1 * K * e2)) <= 1e-9 * (e1 * (e2 + 1) * (e2 + 1)), "dgfidx is the derivative of gfi"); se_reach("low density"); }
#elif MODE == 4 // whole vectors, in one or several parts, and functions written by the user
  GlobalData &gd = GlobalData::GetInstance(); int threads = 1 + se_choose("threads", 4), task = se_choose("task size", 3), len = 1 + se_choose("length", 5);
  gd.AddDBEntryOnGlobal("threads_available", ObjectHolder(threads)); gd.AddDBEntryOnGlobal("threads_task_size", ObjectHolder(task));
  static const struct { const char *n; int a; } fn[] = {{"abs", 1}, {"min", 2}, {"pow", 2}, {"ifelse", 3}, {"dot2d", 4}, {"up", 2}, {"pow2", 2}}; auto f = fn[se_choose("function", 7)]; std::string nm = f.n, e; MathEval<F> &M = MathEval<F>::GetInstance();
  M.AddTclMath("up", ObjectHolder("proc"), 2, e); se_assert(e.empty(), "user function accepted"); { std::string e2; M.AddTclMath("bad", ObjectHolder("text"), 1, e2); se_assert(!e2.empty(), "what is not callable is refused"); }
  bool sq = nm == "pow2"; if (sq) nm = "pow"; int mask = 1 + se_choose("vectors", (1 << f.a) - 1); if (sq == !!(mask & 2) && nm == "pow") se_stop();
  std::vector<std::vector<F>> vec(f.a); std::vector<const std::vector<F> *> vp(f.a, nullptr); std::vector<F> dv(f.a); static int id = 0; (void)id;
  for (int a = 0; a < f.a; a++) { for (int i = 0; i < len; i++) vec[a].push_back(F(se_real("v"))); dv[a] = F(se_real("d")); if (sq && a == 1) dv[a] = F(2); if (mask >> a & 1) { vp[a] = &vec[a]; dv[a] = F(0); } }
  std::vector<F> out; M.EvaluateMathFunc(nm, dv, vp, e, out, len); se_assert(e.empty(), "function is evaluated"); se_assert(out.size() == size_t(len), "one result per value");
  for (int i = 0; i < len; i++) { std::vector<F> args; for (int a = 0; a < f.a; a++) args.push_back(vp[a] ? vec[a][i] : dv[a]); double want = nm == "up" ? 3 * D(args[0]) + 5 * D(args[1]) : nm == "pow" && !sq ? std::pow(D(args[0]), D(args[1])) : D(call(nm, args)); se_assert_eq(D(out[i]), want, "result of each value"); }
  if (nm == "up") { std::vector<F> args{F(se_real("p")), F(se_real("q"))}; se_assert_eq(D(call("up", args)), 3 * D(args[0]) + 5 * D(args[1]), "user function of numbers"); }
  se_reach("vector");
#endif
}

// Runtime of the symbolic executor: shadow memory, term construction, path forking, queries.
#include "se.h"
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>
#include <malloc.h>
#include <memory>
#include <quadmath.h>
#include <boost/multiprecision/cpp_int.hpp>
typedef __float128 Q;
extern "C" { void *__se_args[128]; void *__se_args_fn; void *__se_ret[16]; void *__se_ret_fn; }

// ---------------------------------------------------------------- shared state
struct Label { char n[120]; std::atomic<long> c; };
struct Fn { long flag; const char *name; const char *file; };
struct Shared {
  std::atomic<long> paths, forks, queries, asserts, proved, failed, unknown, lost, crashed, nanos, unkbranch, cex, tokens, div0, wit, maxns, aborted, syntactic, searched;
  Label reach[256], why[64], lab[512];
  std::atomic<Fn *> fns[65536]; std::atomic<long> nfn;
};
static Shared *SH;
static const char *OUT = ".";
static long OPT_FP = 0, OPT_ITE = 0, OPT_RLIMIT = 60000000, OPT_MAXPATHS = 400000, OPT_MAXCEX = 12, OPT_QSEC = 60, OPT_FASTFEAS = 0, OPT_TEXT = 0;
static void count_label(Label *t, int n, const char *s) {
  for (int i = 0; i < n; i++) {
    if (t[i].n[0] == 0) { if (t[i].c.fetch_add(0) == 0 && t[i].n[0] == 0) { strncpy(t[i].n, s, sizeof t[i].n - 1); } }
    if (!strncmp(t[i].n, s, sizeof t[i].n - 1)) { t[i].c++; return; } }
}
static std::vector<pid_t> kids; static bool mytoken = false;
[[noreturn]] static void path_end() {
  SH->paths++;
  if (mytoken) { SH->tokens++; mytoken = false; }
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (WIFSIGNALED(st)) { SH->crashed++; char b[64]; snprintf(b, 64, "child killed by signal %d", WTERMSIG(st)); count_label(SH->why, 64, b); } }
  _exit(0);
}
[[noreturn]] static void lost(const char *why) { if (getenv("SE_LOST")) { void *b[12]; int n = backtrace(b, 12); char l[300]; int k = 0; for (int i = 1; i < n; i++) k += snprintf(l + k, 20, " %p", b[i]); fprintf(stderr, "LOSTAT%s\n", l); }
  SH->lost++; count_label(SH->why, 64, why);
  if (getenv("SE_DEBUG")) { fprintf(stderr, "LOST %s\n", why); if (getenv("SE_DEBUG")[0] == '2') { void *b[30]; int n = backtrace(b, 30); for (int i = 0; i < n; i++) fprintf(stderr, "BT %p\n", b[i]); _exit(0); } } path_end(); }

// ---------------------------------------------------------------- Z3 terms
typedef Z3_ast T;
static Z3_context C; static Z3_sort RS, FS, F32; static Z3_ast RM, RTZ;
static bool inited = false;
static void init();
static inline T t(void *s) { return (T)s; }
static std::unordered_map<unsigned, int> dummy;
static T num(const std::string &s) { return Z3_mk_numeral(C, s.c_str(), RS); }
struct Big { std::vector<uint32_t> d{0}; void mul2(int k) { while (k > 0) { int s = std::min(k, 20); uint64_t c = 0; for (auto &x : d) { uint64_t v = ((uint64_t)x << s) + c; x = v % 1000000000u; c = v / 1000000000u; } while (c) { d.push_back(c % 1000000000u); c /= 1000000000u; } k -= s; } }
  void set(unsigned __int128 v) { d.clear(); while (v) { d.push_back((uint32_t)(v % 1000000000u)); v /= 1000000000u; } if (d.empty()) d.push_back(0); }
  std::string str() { std::string r; char b[16]; snprintf(b, 16, "%u", d.back()); r = b; for (int i = (int)d.size() - 2; i >= 0; i--) { snprintf(b, 16, "%09u", d[i]); r += b; } return r; } };
static std::string ratstr(bool neg, unsigned __int128 m, int e) {
  if (m == 0) return "0"; while (!(m & 1)) { m >>= 1; e++; }
  Big n; n.set(m); std::string s = neg ? "-" : "";
  if (e >= 0) { n.mul2(e); return s + n.str(); }
  Big dd; dd.set(1); dd.mul2(-e); return s + n.str() + "/" + dd.str(); }
static std::unordered_map<uint64_t, T> constCache;
static bool isinfT(T);
static T POSINF, NEGINF, NANT; // markers (REAL mode): special constants
// a rounded quotient of small integers stands for that quotient; likewise small multiples of pi and pi^2 in double precision
static std::string PIS[2];
static bool nice(Q v, Q tol, std::string &out) {
  if (tol > 1e-20Q && v != 0) for (int k = 1; k <= 2; k++) { Q P = 3.141592653589793Q; P = (Q)(double)P; Q w = fabsq(v); for (int i = 0; i < k; i++) w /= P; for (int d = 1; d <= 12; d++) { Q n = roundq(w * d); if (n >= 1 && n <= 64 && fabsq(w * d - n) <= 3 * tol * n) { if (PIS[0].empty()) { PIS[0] = "884279719003555/281474976710656"; } char b[64]; snprintf(b, 64, "%s%d/%d", v < 0 ? "-" : "", (int)n, d); boost::multiprecision::cpp_rational c(b), pi(PIS[0]); for (int i = 0; i < k; i++) c *= pi; out = c.str(); return true; } } }
  Q a = fabsq(v); if (!(a > 1e-7Q && a < 1e9Q)) return false; { Q m = a * 1073741824.0Q; if (m == floorq(m)) return false; }
  Q x = a; Q p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 24; i++) { Q f = floorq(x); Q p2 = f * p1 + p0, q2 = f * q1 + q0; if (q2 > 100000) return false; p0 = p1; q0 = q1; p1 = p2; q1 = q2; if (fabsq(p1 / q1 - a) <= tol * a) { char b[80]; snprintf(b, 80, "%s%lld/%lld", v < 0 ? "-" : "", (long long)p1, (long long)q1); out = b; return true; } Q r = x - f; if (r == 0) return false; x = 1 / r; }
  return false; }
static T rconst(double v) {
  uint64_t b; memcpy(&b, &v, 8); auto it = constCache.find(b); if (it != constCache.end()) return it->second;
  T r;
  if (std::isnan(v)) r = NANT; else if (std::isinf(v)) r = v > 0 ? POSINF : NEGINF;
  else if (std::string ns; nice(v, 4.5e-16Q, ns)) r = num(ns);
  else { int e; double m = frexp(std::fabs(v), &e); r = num(ratstr(v < 0, (unsigned __int128)(uint64_t)std::ldexp(m, 53), e - 53)); }
  constCache[b] = r; return r; }
static T qconst(Q v) {
  double d = (double)v; if ((Q)d == v || d != d || isinfq(v)) return rconst(d);
  { std::string ns; if (nice(v, 4e-34Q, ns)) return num(ns); }
  unsigned __int128 b; memcpy(&b, &v, 16); bool neg = b >> 127; int e = (int)((b >> 112) & 0x7fff); unsigned __int128 m = b & ((((unsigned __int128)1) << 112) - 1);
  m |= ((unsigned __int128)1) << 112; return num(ratstr(neg, m, e - 16383 - 112)); }
static T fconst(double v) { return OPT_FP ? Z3_mk_fpa_numeral_double(C, v, FS) : rconst(v); }
static bool isnum(T a) { return Z3_is_numeral_ast(C, a); }
static bool special(T a) { return a == POSINF || a == NEGINF || a == NANT; }
static Z3_sort_kind sk(T a) { return Z3_get_sort_kind(C, Z3_get_sort(C, a)); }
static T simp(T a) { return Z3_simplify(C, a); }
static Z3_params SOM;
static T simpsom(T a) { return Z3_simplify_ex(C, a, SOM); }
static bool iszero(T a) { return isnum(a) && !strcmp(Z3_get_numeral_string(C, a), "0"); }
static bool isone(T a) { return isnum(a) && !strcmp(Z3_get_numeral_string(C, a), "1"); }
static T TRUE_, FALSE_;
static T mknot(T a) { if (a == TRUE_) return FALSE_; if (a == FALSE_) return TRUE_; return Z3_mk_not(C, a); }
static T eq(T a, T b) { return a == b ? TRUE_ : Z3_mk_eq(C, a, b); }

// path condition and definitions of auxiliary variables
static std::vector<T> pc;
static std::unordered_map<unsigned, bool> decided;             // AST id -> known truth on this path
struct Def { std::string fn; std::vector<T> args; T var; std::vector<T> cons; bool cleared = false; };
static std::unordered_map<unsigned, int> defOf;                 // var AST id -> index
static std::vector<Def> defs;
static std::map<std::pair<std::string, std::vector<T>>, int> defMemo;
struct Input { std::string name; T var; int kind; unsigned bits; }; // kind 0 real 1 int 2 choose
static std::vector<Input> inputs;
static std::map<std::string, int> nameCount;
static std::vector<std::pair<std::string, std::string>> chosen, notes;
static long uid = 0;
static void assume(T c) { c = simp(c); if (c == TRUE_) return; pc.push_back(c); decided[Z3_get_ast_id(C, c)] = true; }
static T freshReal(const char *p) { std::string n = std::string(p) + "!" + std::to_string(uid++); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), RS); }
static T add(T a, T b), sub(T a, T b), mul(T a, T b), divi(T a, T b), neg(T a);
static T ge(T a, T b) { return Z3_mk_ge(C, a, b); }
static T gt(T a, T b) { return Z3_mk_gt(C, a, b); }
static Def &mkdef(const std::string &fn, std::vector<T> args, bool &isnew) {
  auto k = std::make_pair(fn, args); auto it = defMemo.find(k); if (it != defMemo.end()) { isnew = false; return defs[it->second]; }
  isnew = true; Def d; d.fn = fn; d.args = args; d.var = freshReal(fn.c_str()); defs.push_back(d); int i = (int)defs.size() - 1; defMemo[k] = i; defOf[Z3_get_ast_id(C, d.var)] = i; return defs[i]; }
static void nospecial(T a) { if (special(a)) lost("inf/nan reaches symbolic arithmetic"); }
static T add(T a, T b) { if (iszero(a)) return b; if (iszero(b)) return a; nospecial(a); nospecial(b); T v[2] = {a, b}; T r = Z3_mk_add(C, 2, v); return isnum(a) && isnum(b) ? simp(r) : r; }
static T neg(T a) { nospecial(a); T r = Z3_mk_unary_minus(C, a); return isnum(a) ? simp(r) : r; }
static T sub(T a, T b) { if (a == b) { return num("0"); } if (iszero(b)) return a; nospecial(a); nospecial(b); if (iszero(a)) return neg(b); T v[2] = {a, b}; T r = Z3_mk_sub(C, 2, v); return isnum(a) && isnum(b) ? simp(r) : r; }
static T mul(T a, T b) { nospecial(a); nospecial(b); if (iszero(a)) return a; if (iszero(b)) return b; if (isone(a)) return b; if (isone(b)) return a; T v[2] = {a, b}; T r = Z3_mk_mul(C, 2, v); return isnum(a) && isnum(b) ? simp(r) : r; }
static bool isapp(T a, Z3_decl_kind k) { return Z3_get_ast_kind(C, a) == Z3_APP_AST && Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))) == k; }
static T arg(T a, unsigned i) { return Z3_get_app_arg(C, Z3_to_app(C, a), i); }
static unsigned nargs(T a) { return Z3_get_app_num_args(C, Z3_to_app(C, a)); }
static T invBase(T b) {
  bool nw; Def &d = mkdef("inv", {b}, nw); T v = d.var;
  if (nw) { d.cons.push_back(eq(mul(v, b), num("1"))); T nz = mknot(eq(b, num("0"))); pc.push_back(nz); decided[Z3_get_ast_id(C, simp(nz))] = true; }
  return v; }
static T invFactored(T b);
static T inv(T b) {
  nospecial(b);
  if (isnum(b)) { if (iszero(b)) { SH->div0++; count_label(SH->why, 64, "division by constant zero"); path_end(); } return simp(Z3_mk_div(C, num("1"), b)); }
  if (isapp(b, Z3_OP_MUL)) { T r = num("1"); for (unsigned i = 0; i < nargs(b); i++) r = mul(r, inv(arg(b, i))); return r; }
  if (isapp(b, Z3_OP_UMINUS)) return neg(inv(arg(b, 0)));
  auto it = defOf.find(Z3_get_ast_id(C, b)); if (it != defOf.end() && defs[it->second].fn == "inv") return defs[it->second].args[0];
  if (it != defOf.end() && defs[it->second].fn == "sqrt" && !OPT_FP) { T a = defs[it->second].args[0]; T r = mul(b, inv(a)); T nz = mknot(eq(b, num("0"))); if (decided.emplace(Z3_get_ast_id(C, simp(nz)), true).second) pc.push_back(nz); return r; }
  return invFactored(b); }
static T divi(T a, T b) { nospecial(a); if (b == POSINF || b == NEGINF) return num("0"); T i = inv(b); if (iszero(a)) return a; return mul(a, i); }
static T mkite(T c, T a, T b) { if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a; return Z3_mk_ite(C, c, a, b); }
static bool zeroNF(T x);
static bool sqrtContent(T x, T &u, T &y);
static T mksqrt(T x) {
  nospecial(x);
  if (isnum(x)) { double d = Z3_get_numeral_double(C, x), r = std::sqrt(d); if (d >= 0 && rconst(d) == x) { T rr = rconst(r); if (simp(mul(rr, rr)) == x) return rr; } }
  T xn = simpsom(x); if (isnum(xn) && xn != x) return mksqrt(xn);
  if (zeroNF(xn)) return num("0");
  if (!OPT_FP) { T u, y; if (sqrtContent(xn, u, y)) { if (u) return mul(u, mksqrt(y)); xn = y; if (isnum(xn) && xn != x) return mksqrt(xn); } }
  bool nw; Def &d = mkdef("sqrt", {xn}, nw); T v = d.var;
  if (nw) { d.cons.push_back(eq(mul(v, v), xn)); d.cons.push_back(ge(v, num("0"))); T c = ge(xn, num("0")); pc.push_back(c); decided[Z3_get_ast_id(C, simp(c))] = true; }
  return v; }
static T mabs(T x) { if (isnum(x)) return simp(mkite(ge(x, num("0")), x, simp(Z3_mk_unary_minus(C, x)))); return mkite(ge(x, num("0")), x, neg(x)); }
static bool intval(T a, long &v) { int64_t n; if (!isnum(a)) return false; double d = Z3_get_numeral_double(C, a); n = (long)d; if (std::fabs(d) < 1e6 && (double)n == d && rconst(d) == a) { v = n; return true; } return false; }
static T math1(const std::string &fn, T x) {
  nospecial(x); x = simpsom(x);
  auto it = defOf.find(Z3_get_ast_id(C, x));
  if (fn == "exp" && it != defOf.end() && defs[it->second].fn == "log") return defs[it->second].args[0];
  if (fn == "log" && it != defOf.end() && defs[it->second].fn == "exp") return defs[it->second].args[0];
  if (iszero(x)) { if (fn == "exp" || fn == "cos" || fn == "cosh") return num("1"); if (fn == "sin" || fn == "tan" || fn == "sinh" || fn == "tanh" || fn == "atan" || fn == "asin" || fn == "expm1" || fn == "log1p" || fn == "erf") return num("0"); }
  if (isone(x) && fn == "log") return num("0");
  if (fn == "expm1") return sub(math1("exp", x), num("1"));
  if (fn == "log1p") return math1("log", add(x, num("1")));
  bool nw; Def &d = mkdef(fn, {x}, nw); T v = d.var;
  if (nw) {
    T z = num("0"), o = num("1");
    if (fn == "exp") { d.cons.push_back(gt(v, z)); d.cons.push_back(Z3_mk_iff(C, gt(x, z), gt(v, o))); d.cons.push_back(Z3_mk_iff(C, eq(x, z), eq(v, o))); d.cons.push_back(ge(v, add(x, o))); }
    if (fn == "log") { T c = gt(x, z); d.cons.push_back(Z3_mk_iff(C, gt(x, o), gt(v, z))); d.cons.push_back(Z3_mk_iff(C, eq(x, o), eq(v, z))); d.cons.push_back(Z3_mk_implies(C, c, ge(sub(x, o), v))); pc.push_back(c); }
    if (fn == "cosh") d.cons.push_back(ge(v, o));
    if (fn == "tanh" || fn == "sin" || fn == "cos" || fn == "erf") { d.cons.push_back(ge(o, v)); d.cons.push_back(ge(v, num("-1"))); }
    if (fn == "tanh" || fn == "sinh" || fn == "erf" || fn == "atan" || fn == "asinh" || fn == "cbrt") { d.cons.push_back(Z3_mk_iff(C, gt(x, z), gt(v, z))); d.cons.push_back(Z3_mk_iff(C, eq(x, z), eq(v, z))); }
  }
  return v; }
static bool monotone(const std::string &f) { return f == "exp" || f == "log" || f == "tanh" || f == "sinh" || f == "erf" || f == "atan" || f == "asinh" || f == "cbrt"; }
static T mathpow(T x, T y) {
  nospecial(x); nospecial(y); long n;
  if (intval(y, n) && n >= -12 && n <= 12) { T r = num("1"); for (long i = 0; i < std::labs(n); i++) r = mul(r, x); return n < 0 ? inv(r) : r; }
  if (isnum(y) && y == rconst(0.5)) return mksqrt(x);
  if (isone(x)) return x;
  x = simpsom(x); y = simpsom(y); bool nw; Def &d = mkdef("pow", {x, y}, nw); T v = d.var;
  if (nw) { T z = num("0"); d.cons.push_back(Z3_mk_implies(C, gt(x, z), gt(v, z))); d.cons.push_back(Z3_mk_implies(C, eq(y, z), eq(v, num("1")))); d.cons.push_back(Z3_mk_implies(C, eq(y, num("1")), eq(v, x))); }
  return v; }
static T mfloor(T x) { return Z3_mk_int2real(C, Z3_mk_real2int(C, x)); }

// ---------------------------------------------------------------- queries
static std::unordered_map<unsigned, std::vector<unsigned>> varsMemo; // AST id -> sorted var ids
static std::unordered_map<unsigned, T> varAst;
static std::unordered_map<unsigned, int> flagsMemo; // 1 bv, 2 int, 4 fp, 8 nonlinear-ish, 16 other
static const std::vector<unsigned> &vars(T a) {
  unsigned id = Z3_get_ast_id(C, a); auto it = varsMemo.find(id); if (it != varsMemo.end()) return it->second;
  std::vector<unsigned> r; int fl = 0;
  Z3_sort_kind k = sk(a); if (k == Z3_BV_SORT) fl |= 1; if (k == Z3_INT_SORT) fl |= 2; if (k == Z3_FLOATING_POINT_SORT) fl |= 4;
  if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
    unsigned n = nargs(a); Z3_decl_kind dk = Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a)));
    if (n == 0 && dk == Z3_OP_UNINTERPRETED) { r.push_back(id); varAst[id] = a; }
    int nn = 0;
    for (unsigned i = 0; i < n; i++) { const auto &v = vars(arg(a, i)); fl |= flagsMemo[Z3_get_ast_id(C, arg(a, i))]; if (!v.empty()) nn++; std::vector<unsigned> m; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(m)); r.swap(m); }
    if (n > 0 && dk == Z3_OP_UNINTERPRETED) fl |= 16;
    if (dk == Z3_OP_MUL && nn > 1) fl |= 8; if (dk == Z3_OP_DIV || dk == Z3_OP_POWER) fl |= 8;
  }
  flagsMemo[id] = fl; return varsMemo[id] = r; }
// ---------------------------------------------------------------- polynomial normal form
// Terms over the reals become polynomials with rational coefficients over inputs and auxiliary variables. Denominators
// (auxiliary variables inv, inv*b = 1, b != 0) are cleared, squares of square roots are replaced by their arguments.
typedef boost::multiprecision::cpp_rational Rat;
typedef std::vector<std::pair<unsigned, unsigned>> Mono; // (variable, exponent), sorted
struct MonoLess { bool operator()(const Mono &a, const Mono &b) const { size_t i = 0; for (; i < a.size() && i < b.size(); i++) { if (a[i].first != b[i].first) return a[i].first > b[i].first; if (a[i].second != b[i].second) return a[i].second < b[i].second; } return i < b.size(); } }; // lexicographic monomial order
typedef std::map<Mono, Rat, MonoLess> Poly;
static size_t OPT_TERMS = 6000;
struct TooBig {};
static Mono mmul(const Mono &a, const Mono &b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; } } return r; }
static void padd(Poly &r, const Mono &m, const Rat &c) { if (c == 0) return; auto it = r.find(m); if (it == r.end()) { r.emplace(m, c); if (r.size() > OPT_TERMS) throw TooBig(); } else { it->second += c; if (it->second == 0) r.erase(it); } }
static void paddp(Poly &r, const Poly &p, const Rat &k) { for (auto &e : p) padd(r, e.first, e.second * k); }
static Poly pmul(const Poly &a, const Poly &b) { Poly r; if (a.size() * b.size() > OPT_TERMS * 60) throw TooBig(); for (auto &x : a) for (auto &y : b) padd(r, mmul(x.first, y.first), x.second * y.second); return r; }
static std::unordered_map<unsigned, std::shared_ptr<Poly>> polyMemo; static std::unordered_set<unsigned> polyBad;
static Rat ratOf(T a) { return Rat(std::string(Z3_get_numeral_string(C, a))); }
static const Poly &toPoly(T a) {
  unsigned id = Z3_get_ast_id(C, a); auto it = polyMemo.find(id); if (it != polyMemo.end()) return *it->second; if (polyBad.count(id)) throw TooBig();
  auto p = std::make_shared<Poly>();
  try {
    if (isnum(a)) { Rat c = ratOf(a); if (c != 0) (*p)[Mono()] = c; }
    else { Z3_decl_kind k = Z3_get_ast_kind(C, a) == Z3_APP_AST ? Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))) : Z3_OP_UNINTERPRETED; unsigned n = Z3_get_ast_kind(C, a) == Z3_APP_AST ? nargs(a) : 0; long e;
      if (k == Z3_OP_ADD) for (unsigned i = 0; i < n; i++) paddp(*p, toPoly(arg(a, i)), 1);
      else if (k == Z3_OP_SUB) { *p = toPoly(arg(a, 0)); for (unsigned i = 1; i < n; i++) paddp(*p, toPoly(arg(a, i)), -1); }
      else if (k == Z3_OP_UMINUS) paddp(*p, toPoly(arg(a, 0)), -1);
      else if (k == Z3_OP_MUL) { *p = toPoly(arg(a, 0)); for (unsigned i = 1; i < n; i++) *p = pmul(*p, toPoly(arg(a, i))); }
      else if (k == Z3_OP_POWER && intval(arg(a, 1), e) && e >= 0 && e < 20) { (*p)[Mono()] = 1; for (long i = 0; i < e; i++) *p = pmul(*p, toPoly(arg(a, 0))); }
      else { varAst[id] = a; (*p)[Mono{{id, 1}}] = 1; } } // variable or opaque term
  } catch (TooBig &) { polyBad.insert(id); throw; }
  polyMemo[id] = p; return *p; }
// clears denominators and squares of roots; sign: multiply only by non-negative factors
static Poly elim(Poly P, bool sign, unsigned skip = ~0u, std::vector<std::pair<int, unsigned>> *mult = nullptr) {
  for (;;) {
    int best = -1; unsigned bv = 0; unsigned deg = 0;
    for (auto &e : P) for (auto &f : e.first) { auto it = defOf.find(f.first); if (it == defOf.end()) continue; const Def &d = defs[it->second]; if (f.first == skip || !((d.fn == "sqrt" && f.second >= 2) || d.fn == "inv")) continue; if (it->second > best) { best = it->second; bv = f.first; deg = f.second; } else if (it->second == best) deg = std::max(deg, f.second); }
    if (best < 0) return P;
    const Poly b = toPoly(defs[best].args[0]); bool isinv = defs[best].fn == "inv"; unsigned top = isinv ? (sign && deg % 2 ? deg + 1 : deg) : deg / 2;
    if (mult && isinv) mult->push_back({best, top});
    std::vector<Poly> pw(top + 1); pw[0][Mono()] = 1; for (unsigned i = 1; i <= top; i++) pw[i] = pmul(pw[i - 1], b);
    std::vector<Poly> by(top + 1); // coefficient polynomials per power of b
    for (auto &e : P) { Mono m; unsigned x = 0; for (auto &f : e.first) if (f.first == bv) x = f.second; else m.push_back(f); unsigned q; if (isinv) q = top - x; else { q = x / 2; if (x & 1) { m.push_back({bv, 1}); std::sort(m.begin(), m.end()); } } padd(by[q], m, e.second); }
    Poly R; for (unsigned q = 0; q <= top; q++) if (!by[q].empty()) paddp(R, q ? pmul(by[q], pw[q]) : by[q], 1);
    P.swap(R); } }
static bool zeroNF(T x) { try { return elim(toPoly(x), false).empty(); } catch (TooBig &) { return false; } }
static T ratT(const Rat &r) { std::string s = r.str(); return num(s); }
static T polyT(const Poly &p) { if (p.empty()) return num("0"); std::vector<T> s; for (auto &e : p) { std::vector<T> f; if (e.second != 1 || e.first.empty()) f.push_back(ratT(e.second)); for (auto &v : e.first) for (unsigned i = 0; i < v.second; i++) f.push_back(varAst[v.first]); s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(C, f.size(), f.data())); } return s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data()); }
// x = u^2 y with rational u (null: 1), y in canonical form
static bool sqrtContent(T x, T &u, T &y) {
  size_t keep = OPT_TERMS; OPT_TERMS = std::min<size_t>(keep, 200); bool r = false;
  try { Poly p = toPoly(x); if (!p.empty()) { Rat c = p.rbegin()->second; if (c < 0) c = -c;
      using I = boost::multiprecision::cpp_int; I n = numerator(c), d = denominator(c), un = 1, m = n * d; for (long f = 2; f < 2000 && I(f) * f <= m; f++) while (m % (I(f) * f) == 0) { m /= I(f) * f; un *= f; }
      { I s = sqrt(m); if (s * s == m) { un *= s; } }
      Rat U(un, d); u = nullptr; if (U != 1) { Rat q = 1 / (U * U); for (auto &e : p) e.second *= q; u = ratT(U); } y = polyT(p); r = true; } } catch (TooBig &) {}
  OPT_TERMS = keep; return r; }
// leading coefficient made +-1
static void monic(Poly &p, bool keepsign) { if (p.empty()) return; Rat c = p.rbegin()->second; if (keepsign && c < 0) c = -c; if (c == 1) return; for (auto &e : p) e.second /= c; }
// exact division; false if p does not divide a
static bool pdiv(Poly a, const Poly &p, Poly &q) { q.clear(); if (p.empty()) return false; const Mono &lm = p.rbegin()->first; const Rat &lc = p.rbegin()->second; size_t n = 0;
  while (!a.empty()) { const Mono &am = a.rbegin()->first; Mono m; size_t j = 0; for (auto &f : am) { unsigned e = f.second; if (j < lm.size() && lm[j].first < f.first) return false; if (j < lm.size() && lm[j].first == f.first) { if (lm[j].second > e) return false; e -= lm[j].second; j++; } if (e) m.push_back({f.first, e}); } if (j < lm.size()) return false; Rat c = a.rbegin()->second / lc; padd(q, m, c); for (auto &t : p) padd(a, mmul(t.first, m), -c * t.second); if (++n > 3000) throw TooBig(); }
  return true; }
static T invFactored(T b) {
  auto it = defMemo.find(std::make_pair(std::string("inv"), std::vector<T>{b})); if (it != defMemo.end()) return defs[it->second].var;
  static std::unordered_map<unsigned, T> memo; auto mm = memo.find(Z3_get_ast_id(C, b)); if (mm != memo.end()) return mm->second;
  size_t keep = OPT_TERMS; OPT_TERMS = std::min<size_t>(keep, 3000); T r = nullptr;
  try {
    std::vector<std::pair<int, unsigned>> mult; Poly N = elim(toPoly(b), false, ~0u, &mult);
    if (N.empty()) { OPT_TERMS = keep; SH->div0++; count_label(SH->why, 64, "division by zero"); path_end(); }
    T num_ = num("1"); std::map<int, int> den; // defs index -> power of the inverse
    for (auto &m : mult) den[m.first] -= (int)m.second;
    Mono common = N.begin()->first; for (auto &e : N) { Mono c; for (auto &f : common) for (auto &g : e.first) if (g.first == f.first) c.push_back({f.first, std::min(f.second, g.second)}); common.swap(c); }
    T out = num("1");
    if (!common.empty()) { Poly one; one[common] = 1; Poly q; pdiv(N, one, q); N.swap(q); for (auto &f : common) { T v = varAst[f.first]; auto d = defOf.find(f.first); T iv = d != defOf.end() && defs[d->second].fn == "sqrt" ? inv(v) : invBase(v); for (unsigned i = 0; i < f.second; i++) out = mul(out, iv); } }
    for (size_t i = 0; i < defs.size() && N.size() > 1; i++) if (defs[i].fn == "inv" && !polyBad.count(Z3_get_ast_id(C, defs[i].args[0]))) { const Poly p = toPoly(defs[i].args[0]); if (p.size() < 2) continue; Poly q; while (N.size() > 1 && pdiv(N, p, q)) { N = q; den[(int)i]++; } }
    Rat c = N.rbegin()->second; for (auto &e : N) e.second /= c;
    if (N.size() > 1 || !N.begin()->first.empty()) out = mul(out, invBase(polyT(N)));
    out = mul(out, ratT(Rat(1) / c));
    for (auto &e : den) for (int i = 0; i < std::abs(e.second); i++) out = mul(out, e.second > 0 ? defs[e.first].var : defs[e.first].args[0]);
    r = out;
  } catch (TooBig &) { r = invBase(b); }
  OPT_TERMS = keep; return memo[Z3_get_ast_id(C, b)] = r; }
static std::unordered_map<unsigned, T> clrMemo;
static T clearAtom(T a) {
  Z3_decl_kind k = Z3_get_ast_kind(C, a) == Z3_APP_AST ? Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))) : Z3_OP_UNINTERPRETED;
  if (k != Z3_OP_AND && k != Z3_OP_OR && k != Z3_OP_NOT && k != Z3_OP_IFF && k != Z3_OP_IMPLIES && k != Z3_OP_EQ && k != Z3_OP_LE && k != Z3_OP_LT && k != Z3_OP_GE && k != Z3_OP_GT && k != Z3_OP_DISTINCT) return a;
  unsigned id = Z3_get_ast_id(C, a); auto it = clrMemo.find(id); if (it != clrMemo.end()) return it->second;
  T r = a;
  if (nargs(a) == 2 && sk(arg(a, 0)) == Z3_REAL_SORT && (k == Z3_OP_EQ || k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT || k == Z3_OP_DISTINCT)) {
    if (!special(arg(a, 0)) && !special(arg(a, 1)))
    try { bool e = k == Z3_OP_EQ || k == Z3_OP_DISTINCT; Poly p = toPoly(arg(a, 0)); paddp(p, toPoly(arg(a, 1)), -1); p = elim(p, !e); monic(p, !e); T x = polyT(p), z = num("0");
      r = k == Z3_OP_EQ ? Z3_mk_eq(C, x, z) : k == Z3_OP_DISTINCT ? mknot(Z3_mk_eq(C, x, z)) : k == Z3_OP_LE ? Z3_mk_le(C, x, z) : k == Z3_OP_LT ? Z3_mk_lt(C, x, z) : k == Z3_OP_GE ? Z3_mk_ge(C, x, z) : Z3_mk_gt(C, x, z); if (p.empty() || (p.size() == 1 && p.begin()->first.empty())) r = simp(r); } catch (TooBig &) { } }
  else if (sk(arg(a, 0)) == Z3_BOOL_SORT) { std::vector<T> v; bool ch = false; for (unsigned i = 0; i < nargs(a); i++) { T x = clearAtom(arg(a, i)); ch |= x != arg(a, i); v.push_back(x); }
    if (ch) { r = k == Z3_OP_AND ? Z3_mk_and(C, v.size(), v.data()) : k == Z3_OP_OR ? Z3_mk_or(C, v.size(), v.data()) : k == Z3_OP_NOT ? mknot(v[0]) : k == Z3_OP_IMPLIES ? Z3_mk_implies(C, v[0], v[1]) : Z3_mk_iff(C, v[0], v[1]); r = v.size() == 1 || k != Z3_OP_DISTINCT ? r : a; } }
  if (r != a) { T s = Z3_simplify(C, r); if (s == TRUE_ || s == FALSE_) r = s; }
  return clrMemo[id] = r; }

// ---------------------------------------------------------------- witness: concrete inputs that satisfy the path condition
struct Wit { bool ok = true; std::unordered_map<unsigned, Q> in; };
static Wit W; struct QV { Q v, e; }; /* value, error bound */ static std::unordered_map<unsigned, QV> evMemo;
static uint64_t rngs = 88172645463325252ull; static uint64_t rng() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
static double rndval() { int m = rng() % 8; double g = m < 5 ? 64 : m < 7 ? 8 : 1; double s = m == 7 ? 16 : m == 6 ? 1 : 4; return std::round(((double)(rng() >> 11) / 9007199254740992.0 * 2 - 1) * s * g) / g; }
static Q QN() { return (Q)NAN; }
static int evB(T a);
extern "C" { static double gf(const char *fn, double x, double y); }
static const Q QU = 1e-33Q;
static QV qmul(QV a, QV b) { return {a.v * b.v, fabsq(a.v) * b.e + fabsq(b.v) * a.e + a.e * b.e + fabsq(a.v * b.v) * QU}; }
static QV evR(T a) {
  unsigned id = Z3_get_ast_id(C, a); auto it = evMemo.find(id); if (it != evMemo.end()) return it->second;
  QV r = {QN(), 0};
  if (special(a)) ;
  else if (isnum(a)) { double d = Z3_get_numeral_double(C, a); r.v = d; T k = rconst(d); if (k != a) { T rest = sub(a, k); r.v += (Q)Z3_get_numeral_double(C, rest); Q back = 0; (void)back; } r.e = fabsq(r.v) * 1e-31Q; if (k == a && d == std::floor(d)) r.e = 0; else if (k == a) { double m = std::fabs(d) * 1073741824.0; if (m == std::floor(m)) r.e = 0; else { const char *ns = Z3_get_numeral_string(C, a); const char *sl = strchr(ns, '/'); if (strlen(ns) < 30 && sl) { r.v = strtoflt128(ns, nullptr) / strtoflt128(sl + 1, nullptr); r.e = fabsq(r.v) * QU; } } } }
  else if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
    auto w = W.in.find(id); auto df = defOf.find(id);
    if (w != W.in.end()) r = {w->second, 0};
    else if (df != defOf.end()) { const Def &d = defs[df->second]; const std::string &f = d.fn; QV X = d.args.empty() ? QV{0, 0} : evR(d.args[0]); Q x = X.v; Q sl = 0;
      if (f == "inv") { if (fabsq(x) <= 2 * X.e) r.v = QN(); else r = {1 / x, 2 * X.e / (x * x) + fabsq(1 / x) * QU}; }
      else if (f == "sqrt") { if (x < -X.e || x != x) r.v = QN(); else { Q v = x > 0 ? sqrtq(x) : 0; r = {v, x > 4 * X.e ? X.e / v + v * QU : sqrtq(x > 0 ? x + X.e : X.e)}; } }
      else { if (f == "exp") r.v = expq(x), sl = r.v; else if (f == "log") r.v = logq(x), sl = 1 / x; else if (f == "sin") r.v = sinq(x), sl = 1; else if (f == "cos") r.v = cosq(x), sl = 1; else if (f == "tan") r.v = tanq(x), sl = 1 + r.v * r.v; else if (f == "sinh") r.v = sinhq(x), sl = coshq(x); else if (f == "cosh") r.v = coshq(x), sl = r.v; else if (f == "tanh") r.v = tanhq(x), sl = 1; else if (f == "erf") r.v = erfq(x), sl = 2; else if (f == "atan") r.v = atanq(x), sl = 1; else if (f == "asinh") r.v = asinhq(x), sl = 1; else if (f == "cbrt") r.v = cbrtq(x), sl = 10;
        else if (f == "pow") { QV Y = evR(d.args[1]); r.v = powq(x, Y.v); r.e = fabsq(r.v) * (1e-31Q + 2 * (x != 0 ? X.e / fabsq(x) * fabsq(Y.v) : 0) + 2 * Y.e * (x > 0 ? fabsq(logq(x)) : 0)); } else if (f.compare(0, 3, "uf:") == 0) { r.v = gf(f.c_str() + 3, (double)x, d.args.size() > 1 ? (double)evR(d.args[1]).v : 0); r.e = fabsq(r.v) * 1e-11Q; }
        if (f != "pow" && f.compare(0, 3, "uf:")) r.e = 2 * fabsq(sl) * X.e + fabsq(r.v) * 1e-31Q; } }
    else { Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))); unsigned n = nargs(a);
      switch (k) { case Z3_OP_ADD: case Z3_OP_SUB: { Q m = 0; r = {0, 0}; for (unsigned i = 0; i < n; i++) { QV y = evR(arg(a, i)); r.v = (k == Z3_OP_SUB && i) ? r.v - y.v : r.v + y.v; r.e += y.e; m += fabsq(y.v); } r.e += m * QU; break; } case Z3_OP_UMINUS: r = evR(arg(a, 0)); r.v = -r.v; break; case Z3_OP_MUL: r = evR(arg(a, 0)); for (unsigned i = 1; i < n; i++) r = qmul(r, evR(arg(a, i))); break;
        case Z3_OP_POWER: { long e; if (intval(arg(a, 1), e) && e >= 0) { QV b = evR(arg(a, 0)); r = {1, 0}; for (long i = 0; i < e; i++) r = qmul(r, b); } break; }
        case Z3_OP_ITE: { int c = evB(arg(a, 0)); if (c >= 0) r = evR(arg(a, c ? 1 : 2)); break; } default: break; } } }
  return evMemo[id] = r; }
static int cmpQ(QV A, QV B) { Q a = A.v, b = B.v, e = A.e + B.e; if (a != a || b != b || e != e) return 9; Q d = a - b; if (fabsq(d) <= e * 4) return 0; if (e > 0 && fabsq(d) <= e * 1e6Q) return 9; return d > 0 ? 1 : -1; }
static int evB(T a) { // 1 true 0 false -1 unknown
  if (a == TRUE_) return 1; if (a == FALSE_) return 0; if (Z3_get_ast_kind(C, a) != Z3_APP_AST) return -1;
  Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a))); unsigned n = nargs(a);
  switch (k) {
    case Z3_OP_NOT: { int x = evB(arg(a, 0)); return x < 0 ? -1 : !x; }
    case Z3_OP_AND: { int r = 1; for (unsigned i = 0; i < n; i++) { int x = evB(arg(a, i)); if (x == 0) return 0; if (x < 0) r = -1; } return r; }
    case Z3_OP_OR: { int r = 0; for (unsigned i = 0; i < n; i++) { int x = evB(arg(a, i)); if (x == 1) return 1; if (x < 0) r = -1; } return r; }
    case Z3_OP_IMPLIES: { int x = evB(arg(a, 0)), y = evB(arg(a, 1)); if (x == 0 || y == 1) return 1; return x == 1 && y == 0 ? 0 : -1; }
    case Z3_OP_ITE: { int x = evB(arg(a, 0)); return x < 0 ? -1 : evB(arg(a, x ? 1 : 2)); }
    case Z3_OP_EQ: case Z3_OP_IFF: case Z3_OP_DISTINCT: { int r = -1; Z3_sort_kind s = sk(arg(a, 0)); if (s == Z3_REAL_SORT) { int c = cmpQ(evR(arg(a, 0)), evR(arg(a, 1))); r = c == 9 ? -1 : c == 0; } else if (s == Z3_BOOL_SORT) { int x = evB(arg(a, 0)), y = evB(arg(a, 1)); r = x < 0 || y < 0 ? -1 : x == y; } return k == Z3_OP_DISTINCT && r >= 0 ? !r : r; }
    case Z3_OP_LE: case Z3_OP_LT: case Z3_OP_GE: case Z3_OP_GT: { if (sk(arg(a, 0)) != Z3_REAL_SORT) return -1; int c = cmpQ(evR(arg(a, 0)), evR(arg(a, 1))); if (c == 9) return -1; return k == Z3_OP_LE ? c <= 0 : k == Z3_OP_LT ? c < 0 : k == Z3_OP_GE ? c >= 0 : c > 0; }
    default: return -1; } }
static bool hasReal(T a) { for (unsigned v : vars(a)) if (sk(varAst[v]) == Z3_REAL_SORT) return true; return false; }
// 1 all true; atoms without real variables do not count
static bool pcTrue(const std::vector<T> &extra) { for (T a : extra) if (evB(a) != 1) return false; for (size_t i = pc.size(); i-- > 0;) { int x = evB(pc[i]); if (x == 1) continue; if (x < 0 && !hasReal(pc[i])) continue; return false; } return true; }
static void inVars(T a, std::vector<unsigned> &out) { std::unordered_set<unsigned> seen; std::vector<T> st{a}; while (!st.empty()) { T x = st.back(); st.pop_back(); for (unsigned v : vars(x)) if (seen.insert(v).second) { auto d = defOf.find(v); if (d != defOf.end()) for (T y : defs[d->second].args) st.push_back(y); else if (W.in.count(v)) out.push_back(v); } } }
// looks for inputs that satisfy the path condition and the goal; leaves W there if found
static bool search(const std::vector<T> &goal, int tries) {
  if (OPT_FP || tries <= 0) return false;
  if (W.ok) { evMemo.clear(); if (pcTrue(goal)) return true; }
  std::vector<unsigned> vs; for (T g : goal) inVars(g, vs); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  if (vs.empty()) return false; Wit keep = W; if (!W.ok) { vs.clear(); for (auto &e : W.in) vs.push_back(e.first); std::sort(vs.begin(), vs.end()); }
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (int i = 0; i < tries; i++) {
    W.in = keep.in; int mode = rng() % 4;
    if (mode == 0) for (unsigned v : vs) W.in[v] = rndval(); else { int k = mode == 1 ? 1 : 1 + rng() % vs.size(); for (int j = 0; j < k; j++) { unsigned v = vs[rng() % vs.size()]; int w = rng() % 4; if (w == 0) W.in[v] = rndval(); else if (w == 1) W.in[v] = W.in[vs[rng() % vs.size()]]; else if (w == 2) W.in[v] = -W.in[v]; else W.in[v] = (Q)((double)W.in[v] + rndval() / 8); } }
    evMemo.clear(); if (pcTrue(goal)) { W.ok = true; return true; }
    if ((i & 7) == 7) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > 2.0) break; } }
  W = keep; evMemo.clear(); return false; }
static void witFromModel(Z3_model m) { Wit keep = W; for (auto &i : inputs) if (i.kind == 0) { T r; if (!Z3_model_eval(C, m, i.var, false, &r) || !isnum(r)) { if (r && Z3_is_algebraic_number(C, r)) W.in[Z3_get_ast_id(C, i.var)] = atof(Z3_get_numeral_decimal_string(C, r, 30)); continue; } double d = Z3_get_numeral_double(C, r); W.in[Z3_get_ast_id(C, i.var)] = d; if (!(rconst(d) == r)) { T rest = sub(r, rconst(d)); W.in[Z3_get_ast_id(C, i.var)] += (Q)Z3_get_numeral_double(C, rest); } }
  W.ok = true; evMemo.clear(); if (!pcTrue({})) { W = keep; W.ok = false; } }

static const std::vector<T> &consOf(Def &d) { if (d.fn == "sqrt" && !d.cleared && !OPT_FP) { d.cleared = true; try { unsigned vid = Z3_get_ast_id(C, d.var); Poly p; varAst[vid] = d.var; p[Mono{{vid, 2}}] = 1; paddp(p, toPoly(d.args[0]), -1); d.cons[0] = eq(polyT(elim(p, false, vid)), num("0")); } catch (TooBig &) { } } return d.cons; }
static void sliceA(const std::vector<T> &q, std::vector<T> &out) { // definitions and the conditions over the variables of the goal only
  std::unordered_set<unsigned> seen; std::vector<unsigned> work; std::unordered_set<int> ds;
  auto addv = [&](T a) { for (unsigned v : vars(a)) if (seen.insert(v).second) work.push_back(v); };
  for (T a : q) addv(a);
  while (!work.empty()) { unsigned v = work.back(); work.pop_back(); auto it = defOf.find(v); if (it != defOf.end() && ds.insert(it->second).second) for (T c : consOf(defs[it->second])) { out.push_back(c); addv(c); } }
  for (T p : pc) { T c = OPT_FP ? p : clearAtom(p); bool in = true; for (unsigned v : vars(c)) if (!seen.count(v)) { in = false; break; } if (in) out.push_back(c); } }
static void slice(const std::vector<T> &q, std::vector<T> &out) {
  std::vector<T> pcc; for (T p : pc) { T c = OPT_FP ? p : clearAtom(p); if (c != TRUE_) pcc.push_back(c); }
  std::vector<T> &pc = pcc;
  std::unordered_set<unsigned> seen; std::vector<unsigned> work; std::unordered_set<int> dseen; std::vector<char> used(pc.size(), 0);
  auto addv = [&](T a) { for (unsigned v : vars(a)) if (seen.insert(v).second) work.push_back(v); };
  for (T a : q) addv(a);
  std::vector<int> dl; bool grow = true;
  while (grow) {
    grow = false;
    while (!work.empty()) { unsigned v = work.back(); work.pop_back(); auto it = defOf.find(v);
      if (it != defOf.end() && dseen.insert(it->second).second) { dl.push_back(it->second); for (T c : consOf(defs[it->second])) { out.push_back(c); addv(c); } if (defs[it->second].fn != "sqrt" && defs[it->second].fn != "inv") for (T c : defs[it->second].args) addv(c); } }
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (unsigned v : vars(pc[i])) if (seen.count(v)) { hit = true; break; } if (hit) { used[i] = 1; out.push_back(pc[i]); addv(pc[i]); grow = true; } }
  }
  // congruence / monotonicity between applications of the same function
  std::sort(dl.begin(), dl.end());
  for (size_t i = 0; i < dl.size(); i++) for (size_t j = i + 1; j < dl.size(); j++) { Def &a = defs[dl[i]], &b = defs[dl[j]];
    if (a.fn != b.fn || a.fn == "inv" || a.fn == "sqrt" || a.fn == "fresh") continue;
    if (a.args.size() != b.args.size()) continue;
    if (monotone(a.fn)) { out.push_back(Z3_mk_iff(C, Z3_mk_lt(C, a.args[0], b.args[0]), Z3_mk_lt(C, a.var, b.var))); out.push_back(Z3_mk_iff(C, eq(a.args[0], b.args[0]), eq(a.var, b.var))); }
    else { std::vector<T> e; for (size_t k = 0; k < a.args.size(); k++) e.push_back(eq(a.args[k], b.args[k])); out.push_back(Z3_mk_implies(C, e.size() == 1 ? e[0] : Z3_mk_and(C, e.size(), e.data()), eq(a.var, b.var))); } }
}
static volatile const char *curWhat = "";
static Z3_lbool runSolver(Z3_solver s, const std::vector<T> &as, Z3_model *m, long rl) {
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)rl);
Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (T a : as) Z3_solver_assert(C, s, a);
  Z3_lbool r = Z3_solver_check(C, s);
  if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, s); if (*m) Z3_model_inc_ref(C, *m); }
  Z3_solver_dec_ref(C, s); return r; }
static volatile bool interrupted = false;
static void onalarm(int) { if (interrupted) { SH->unknown++; count_label(SH->why, 64, "query time limit"); SH->paths++; if (mytoken) SH->tokens++; _exit(0); } interrupted = true; Z3_interrupt(C); alarm(20); }
static Z3_lbool check(const std::vector<T> &q0, Z3_model *m = nullptr, long rl = 0, bool hard = false) {
  std::vector<T> as, q; for (T a : q0) { if (!OPT_FP) a = clearAtom(a); if (a == FALSE_) { SH->queries++; return Z3_L_FALSE; } q.push_back(a); }
  if (!rl) rl = OPT_RLIMIT;
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  Z3_lbool r = Z3_L_UNDEF; SH->queries++; interrupted = false;
  alarm(hard ? OPT_QSEC : (OPT_QSEC + 3) / 4);
  int fl = 0; auto flags = [&] { fl = 0; for (T a : as) { vars(a); fl |= flagsMemo[Z3_get_ast_id(C, a)]; } };
  auto one = [&](int strat, long lim) -> Z3_lbool {
    if (interrupted) return Z3_L_UNDEF;
    if (strat == 0) { Z3_tactic tt = Z3_mk_tactic(C, "qfnra-nlsat"); Z3_tactic_inc_ref(C, tt); Z3_lbool x = runSolver(Z3_mk_solver_from_tactic(C, tt), as, m, lim); Z3_tactic_dec_ref(C, tt); return x; }
    return runSolver(Z3_mk_simple_solver(C), as, m, lim); };
  if (!OPT_FP) { // definitions of square roots left out: only their sign
    std::unordered_set<unsigned> seen; bool any = false; for (T a : q) for (unsigned v : vars(a)) { if (!seen.insert(v).second) continue; auto it = defOf.find(v); if (it == defOf.end()) continue; any = true; Def &d = defs[it->second]; if (d.fn == "sqrt") as.push_back(d.cons[1]); }
    if (any) { for (T p : pc) { T c = clearAtom(p); bool in = true; for (unsigned v : vars(c)) if (!seen.count(v)) { in = false; break; } if (in) as.push_back(c); } for (T a : q) as.push_back(a); flags(); if (!(fl & 23)) { Z3_model *mm = m; m = nullptr; r = one((fl & 8) ? 0 : 1, rl / 100); m = mm; if (r != Z3_L_FALSE) r = Z3_L_UNDEF; } as.clear(); } }
  if (!OPT_FP && r == Z3_L_UNDEF) { sliceA(q, as); size_t n = as.size(); for (T a : q) as.push_back(a); flags(); std::vector<T> full; slice(q, full); if (n < full.size() && !(fl & 23)) { Z3_model *mm = m; m = nullptr; if (fl & 8) r = one(0, rl / (hard ? 8 : 40)); else r = one(1, rl / 40); m = mm; if (r != Z3_L_FALSE) r = Z3_L_UNDEF; } as.swap(full); }
  else if (OPT_FP) slice(q, as);
  if (r == Z3_L_UNDEF) { if (hard && interrupted) { interrupted = false; alarm(OPT_QSEC); }
  for (T a : q) as.push_back(a);
  flags();
  if ((fl & 8) && !(fl & 23)) { r = one(0, hard ? rl : rl / 4); if (r == Z3_L_UNDEF) r = one(1, rl / 4); if (r == Z3_L_UNDEF && hard) r = one(0, rl * 4); }
  else { r = one(1, rl); if (r == Z3_L_UNDEF && !(fl & 23)) r = one(0, rl); } }
  alarm(0); interrupted = false;
  clock_gettime(CLOCK_MONOTONIC, &t1); long ns = (t1.tv_sec - t0.tv_sec) * 1000000000L + t1.tv_nsec - t0.tv_nsec; SH->nanos += ns; if (ns > SH->maxns) SH->maxns = ns;
  if (getenv("SE_SLOW") && ns > atol(getenv("SE_SLOW")) * 1000000L) { fprintf(stderr, "slow query %ld ms result %d what=%s n=%zu flags=%d\n", ns / 1000000, r, (const char *)curWhat, as.size(), fl); if (getenv("SE_DUMP")) { for (T a : as) fprintf(stderr, "  %s\n", Z3_ast_to_string(C, a)); } }
  return r; }
// feasibility of a set of goals together with the path condition; fills the witness when it can
static Z3_lbool feasible(const std::vector<T> &g, int tries, bool hard = false, long rl = 0) {
  if (!OPT_FP) { bool real = true; for (T x : g) if (!hasReal(x) && x != TRUE_) real = false; if (real && search(g, tries)) { SH->searched++; return Z3_L_TRUE; } }
  Z3_model m = nullptr; Z3_lbool r = check(g, &m, rl, hard); if (r == Z3_L_TRUE && m && !OPT_FP) { for (T x : g) pc.push_back(x); witFromModel(m); for (size_t i = 0; i < g.size(); i++) pc.pop_back(); }
  return r; }

static bool write_wit(const char *label, bool wit) { // from W
  for (auto &i : inputs) if (i.kind == 1) return false;
  long n = wit ? SH->wit++ : SH->cex++; if (n >= (wit ? 6 : OPT_MAXCEX)) return true;
  char fn[600]; snprintf(fn, 600, "%s/%s_%ld.txt", OUT, wit ? "wit" : "cex", n); FILE *f = fopen(fn, "w"); if (!f) return true;
  fprintf(f, "label %s\n", label); for (auto &c : chosen) fprintf(f, "choose %s %s\n", c.first.c_str(), c.second.c_str());
  for (auto &i : inputs) if (i.kind == 0) { double d = (double)W.in[Z3_get_ast_id(C, i.var)]; fprintf(f, "real %s %.17g %.12g\n", i.name.c_str(), d, d); }
  fclose(f); return true; }
static void write_cex(const char *label, Z3_model m0, const std::vector<T> &goal, bool wit = false) {
  long n = wit ? SH->wit++ : SH->cex++; if (n >= (wit ? 6 : OPT_MAXCEX)) return;
  // try to move the values to short dyadic rationals, so that the replay in floating point follows the same path
  std::vector<T> extra = goal; Z3_model m = m0; std::vector<std::pair<T, T>> pins;
  auto val = [&](Z3_model mm, T v) { T r; if (!Z3_model_eval(C, mm, v, true, &r)) return v; return r; };
  if (!OPT_FP) { int cnt = 0;
    for (auto &i : inputs) { if (i.kind != 0 || ++cnt > 80) continue; T v = val(m, i.var); if (v == i.var) continue;
      const char *ds = Z3_get_numeral_decimal_string(C, v, 20); double d = atof(ds); bool done = false;
      for (double g : {1.0, 16.0, 4096.0}) { double r = std::round(d * g) / g; T c = eq(i.var, rconst(r)); std::vector<T> e = extra; e.push_back(c); Z3_model mm = nullptr;
        if (check(e, &mm, 3000000) == Z3_L_TRUE && mm) { extra = e; m = mm; done = true; break; } }
      (void)done; } }
  // complete model over all constraints
  { std::vector<T> e = extra; for (auto &i : inputs) if (i.kind != 2) e.push_back(eq(i.var, i.var)); for (T p : pc) e.push_back(p); Z3_model mm = nullptr; if (check(e, &mm, 20000000) == Z3_L_TRUE && mm) m = mm; }
  char fn[600]; snprintf(fn, 600, "%s/%s_%ld.txt", OUT, wit ? "wit" : "cex", n); FILE *f = fopen(fn, "w"); if (!f) return;
  fprintf(f, "label %s\n", label);
  for (auto &c : chosen) fprintf(f, "choose %s %s\n", c.first.c_str(), c.second.c_str());
  for (auto &i : inputs) { T v = val(m, i.var);
    if (i.kind == 0) { double d = 0; if (OPT_FP) { if (Z3_fpa_is_numeral_nan(C, v)) d = NAN; else if (Z3_fpa_is_numeral_inf(C, v)) d = Z3_fpa_is_numeral_negative(C, v) ? -INFINITY : INFINITY; else { T bv = simp(Z3_mk_fpa_to_ieee_bv(C, v)); uint64_t u = 0; Z3_get_numeral_uint64(C, bv, &u); memcpy(&d, &u, 8); } }
      else d = atof(Z3_get_numeral_decimal_string(C, v, 25));
      fprintf(f, "real %s %.17g %s\n", i.name.c_str(), d, OPT_FP ? "" : Z3_get_numeral_decimal_string(C, v, 12)); }
    else if (i.kind == 1) { uint64_t u = 0; Z3_get_numeral_uint64(C, v, &u); fprintf(f, "int %s %llu\n", i.name.c_str(), (unsigned long long)u); } }
  fclose(f); }

static int dofork() { // returns 1 in child
  if (SH->paths + SH->forks > OPT_MAXPATHS * 2 || SH->paths > OPT_MAXPATHS) { SH->aborted++; count_label(SH->why, 64, "path limit"); path_end(); }
  SH->forks++;
  bool tok = false; long v = SH->tokens.load(); while (v > 0) if (SH->tokens.compare_exchange_weak(v, v - 1)) { tok = true; break; }
  pid_t p = fork();
  if (p < 0) lost("fork failed");
  if (p == 0) { kids.clear(); mytoken = tok; return 1; }
  if (tok) { kids.push_back(p); if (kids.size() > 64) { int st; for (size_t i = 0; i < kids.size();) { if (waitpid(kids[i], &st, WNOHANG) > 0) { if (WIFSIGNALED(st)) { SH->crashed++; count_label(SH->why, 64, "child killed"); } kids.erase(kids.begin() + i); } else i++; } } }
  else { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { SH->crashed++; char b[64]; snprintf(b, 64, "child killed by signal %d", WTERMSIG(st)); count_label(SH->why, 64, b); } }
  return 0; }
static bool decide(T c) {
  c = simp(c); if (c == TRUE_) return true; if (c == FALSE_) return false;
  auto it = decided.find(Z3_get_ast_id(C, c)); if (it != decided.end()) return it->second;
  T nc = simp(mknot(c)); it = decided.find(Z3_get_ast_id(C, nc)); if (it != decided.end()) return !it->second;
  if (!OPT_FP) { T k = clearAtom(c); if (k == TRUE_) return true; if (k == FALSE_) return false; }
  curWhat = "branch"; Wit w0 = W; 
  Z3_lbool rt = feasible({c}, 60, false, OPT_FASTFEAS); Wit wt = W;
  if (rt == Z3_L_FALSE) { decided[Z3_get_ast_id(C, c)] = false; decided[Z3_get_ast_id(C, nc)] = true; return false; }
  W = w0; evMemo.clear();
  Z3_lbool rf = feasible({nc}, 60, false, OPT_FASTFEAS);
  if (rf == Z3_L_FALSE) { W = wt; evMemo.clear(); decided[Z3_get_ast_id(C, c)] = true; decided[Z3_get_ast_id(C, nc)] = false; return true; }
  if (rt == Z3_L_UNDEF || rf == Z3_L_UNDEF) SH->unkbranch++;
  if (getenv("SE_FORKS")) { void *b[12]; int n = backtrace(b, 12); char l[300]; int k = 0; for (int i = 2; i < n; i++) k += snprintf(l + k, 20, " %p", b[i]); fprintf(stderr, "FORK%s\n", l); }
  bool side = dofork(); if (side) { W = wt; evMemo.clear(); rngs ^= (uint64_t)SH->forks * 0x9e3779b97f4a7c15ull; }
  T x = side ? c : nc; pc.push_back(x); decided[Z3_get_ast_id(C, c)] = side; decided[Z3_get_ast_id(C, nc)] = !side; return side; }

// ---------------------------------------------------------------- shadow memory
struct Cell { uint64_t v; }; // term pointer (48 bit) | byte index << 48 | nbytes << 56
static const int PB = 12; static uint64_t **L1[1 << 10]; // 47 bits: 10 + 25 -> use two-level of 2^10 x 2^12 x 2^13
// level0: bits 46..37 (10) ; level1: 36..24 (13) ; level2: 23..12 (12)
static uint64_t ***D0[1 << 10];
static inline uint64_t *page(uint64_t a, bool mk) {
  unsigned i0 = (a >> 37) & 1023, i1 = (a >> 24) & 8191, i2 = (a >> 12) & 4095;
  uint64_t ***d1 = D0[i0]; if (!d1) { if (!mk) return nullptr; d1 = D0[i0] = (uint64_t ***)calloc(8192, 8); }
  uint64_t **d2 = d1[i1]; if (!d2) { if (!mk) return nullptr; d2 = d1[i1] = (uint64_t **)calloc(4096, 8); }
  uint64_t *p = d2[i2]; if (!p) { if (!mk) return nullptr; p = d2[i2] = (uint64_t *)calloc(4096, 8); }
  return p; }
static inline uint64_t cell(uint64_t a) { uint64_t *p = page(a, false); return p ? p[a & 4095] : 0; }
static void clearRange(uint64_t a, uint64_t n) {
  while (n) { uint64_t k = std::min<uint64_t>(n, 4096 - (a & 4095)); uint64_t *p = page(a, false); if (p) memset(p + (a & 4095), 0, k * 8); a += k; n -= k; } }
static void setCell(uint64_t a, uint64_t v) { uint64_t *p = page(a, v != 0); if (p) p[a & 4095] = v; }
static void copyShadow(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return; std::vector<uint64_t> tmp; bool any = false; // avoid work when nothing is symbolic
  for (uint64_t a = s; a < s + n;) { uint64_t k = std::min<uint64_t>(s + n - a, 4096 - (a & 4095)); if (page(a, false)) { any = true; break; } a += k; }
  if (!any) { clearRange(d, n); return; }
  tmp.resize(n); for (uint64_t i = 0; i < n; i++) tmp[i] = cell(s + i);
  for (uint64_t i = 0; i < n; i++) setCell(d + i, tmp[i]); }
static T cellT(uint64_t v) { return (T)(v & 0xffffffffffffull); }
static T bvnum(uint64_t v, unsigned bits) { if (bits < 64) v &= (1ull << bits) - 1; return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, bits)); }
static T asBV(T a, unsigned bits) { // coerce to BV of width bits
  Z3_sort_kind k = sk(a);
  if (k == Z3_BOOL_SORT) return mkite(a, bvnum(1, bits), bvnum(0, bits));
  if (k == Z3_FLOATING_POINT_SORT) { T b = Z3_mk_fpa_to_ieee_bv(C, a); if (Z3_get_bv_sort_size(C, Z3_get_sort(C, b)) != bits) lost("fp width"); return b; }
  if (k == Z3_BV_SORT) { unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, a)); if (w == bits) return a; if (w > bits) return Z3_mk_extract(C, bits - 1, 0, a); return Z3_mk_zero_ext(C, bits - w, a); }
  lost("real value used as integer"); }
static T loadT(uint64_t a, uint64_t n, int kind) {
  if (n == 0) return nullptr;
  uint64_t c0 = cell(a); 
  if (!c0) { bool any = false; for (uint64_t i = 1; i < n; i++) if (cell(a + i)) { any = true; break; } if (!any) return nullptr; }
  bool whole = c0 && ((c0 >> 48) & 255) == 0 && (c0 >> 56) == n;
  if (whole) for (uint64_t i = 1; i < n; i++) { uint64_t c = cell(a + i); if ((c & 0xffffffffffffull) != (c0 & 0xffffffffffffull) || ((c >> 48) & 255) != i) { whole = false; break; } }
  T r;
  if (whole) r = cellT(c0);
  else {
    r = nullptr; for (int64_t i = n - 1; i >= 0; i--) { uint64_t c = cell(a + i); T b; if (!c) b = bvnum(*(uint8_t *)(a + i), 8); else { unsigned w = 8 * (unsigned)(c >> 56), ix = (unsigned)((c >> 48) & 255); T full = cellT(c); Z3_sort_kind k = sk(full); if (k == Z3_REAL_SORT) lost("partial access to a real value"); full = asBV(full, w); b = Z3_mk_extract(C, ix * 8 + 7, ix * 8, full); } r = r ? Z3_mk_concat(C, r, b) : b; }
    r = simp(r); }
  Z3_sort_kind k = sk(r);
  if (kind == 1) { if (k == Z3_BV_SORT) { if (!OPT_FP) lost("integer bits read as real"); r = Z3_mk_fpa_to_fp_bv(C, r, n == 8 ? FS : F32); } }
  else if (kind == 2) { if (k == Z3_BV_SORT) r = eq(Z3_mk_extract(C, 0, 0, r), bvnum(1, 1)); }
  return r; }
static void storeT(uint64_t a, uint64_t n, T s) {
  if (!s) { clearRange(a, n); return; }
  if (sk(s) == Z3_BOOL_SORT) s = asBV(s, n * 8);
  if (sk(s) == Z3_BV_SORT) s = asBV(s, n * 8);
  for (uint64_t i = 0; i < n; i++) setCell(a + i, (uint64_t)s | (i << 48) | (n << 56)); }

// ---------------------------------------------------------------- hooks called by instrumented code
static T ibits(T s, unsigned bits, int64_t v) { // shadow or constant as BV / Bool
  if (!s) return bits == 1 ? (v & 1 ? TRUE_ : FALSE_) : bvnum((uint64_t)v, bits);
  if (bits == 1) { if (sk(s) == Z3_BOOL_SORT) return s; return eq(asBV(s, 1), bvnum(1, 1)); }
  return asBV(s, bits); }
static T fv(T s, double v) { if (!s) return fconst(v); Z3_sort_kind k = sk(s); if (k == Z3_BV_SORT) { if (OPT_FP) return Z3_mk_fpa_to_fp_bv(C, s, FS); lost("integer bits used as real"); } return s; }
static T fvq(T s, Q v) { if (!s) { if (OPT_FP) lost("wide float in FP mode"); return qconst(v); } return s; }
static T tofp(T a, unsigned k) { return a; }
static T fbin(unsigned op, unsigned k, T a, T b) {
  if (OPT_FP) { if (k != 1) { // float: round through float32
      lost("non-double arithmetic in FP mode"); }
    switch (op) { case 14: case 15: return Z3_mk_fpa_add(C, RM, a, b); case 16: return Z3_mk_fpa_sub(C, RM, a, b); case 17: case 18: return Z3_mk_fpa_mul(C, RM, a, b); case 21: case 22: return Z3_mk_fpa_div(C, RM, a, b); }
    lost("fp op"); }
  return nullptr; }
// LLVM 18 opcodes
enum { OAdd = 13, OFAdd = 14, OSub = 15, OFSub = 16, OMul = 17, OFMul = 18, OUDiv = 19, OSDiv = 20, OFDiv = 21, OURem = 22, OSRem = 23, OFRem = 24, OShl = 25, OLShr = 26, OAShr = 27, OAnd = 28, OOr = 29, OXor = 30 };
static T fop(unsigned op, unsigned k, T a, T b) {
  if (OPT_FP) { if (k != 1) lost("non-double arithmetic in FP mode");
    switch (op) { case OFAdd: return Z3_mk_fpa_add(C, RM, a, b); case OFSub: return Z3_mk_fpa_sub(C, RM, a, b); case OFMul: return Z3_mk_fpa_mul(C, RM, a, b); case OFDiv: return Z3_mk_fpa_div(C, RM, a, b); default: lost("frem"); } }
  T r;
  switch (op) { case OFAdd: r = add(a, b); break; case OFSub: r = sub(a, b); break; case OFMul: r = mul(a, b); break; case OFDiv: r = divi(a, b); break; default: lost("frem"); }
  return r; }
static T fcmp(unsigned p, T a, T b) {
  if (OPT_FP) {
    T un = nullptr; T v[2];
    auto isn = [&](T x) { return Z3_mk_fpa_is_nan(C, x); };
    auto base = [&](unsigned q) -> T { switch (q) { case 1: return Z3_mk_fpa_eq(C, a, b); case 2: return Z3_mk_fpa_gt(C, a, b); case 3: return Z3_mk_fpa_geq(C, a, b); case 4: return Z3_mk_fpa_lt(C, a, b); case 5: return Z3_mk_fpa_leq(C, a, b); } return nullptr; };
    v[0] = isn(a); v[1] = isn(b); un = Z3_mk_or(C, 2, v);
    switch (p) { case 0: return FALSE_; case 15: return TRUE_; case 7: return mknot(un); case 8: return un;
      case 6: { T w[2] = {mknot(un), mknot(base(1))}; return Z3_mk_and(C, 2, w); }
      case 14: return mknot(base(1));
      case 9: { T w[2] = {un, base(1)}; return Z3_mk_or(C, 2, w); }
      case 1: case 2: case 3: case 4: case 5: return base(p);
      case 10: return mknot(base(5)); case 11: return mknot(base(4)); case 12: return mknot(base(3)); case 13: return mknot(base(2)); }
    lost("fcmp"); }
  if (special(a) || special(b)) {
    if (a == NANT || b == NANT) return p >= 8 ? TRUE_ : FALSE_;
    double x = a == POSINF ? 2 : a == NEGINF ? -2 : 0, y = b == POSINF ? 2 : b == NEGINF ? -2 : 0;
    switch (p & 7) { case 1: return x == y ? TRUE_ : FALSE_; case 2: return x > y ? TRUE_ : FALSE_; case 3: return x >= y ? TRUE_ : FALSE_; case 4: return x < y ? TRUE_ : FALSE_; case 5: return x <= y ? TRUE_ : FALSE_; case 6: return x != y ? TRUE_ : FALSE_; case 7: return p == 15 || p == 7 ? TRUE_ : FALSE_; default: return FALSE_; } }
  switch (p) { case 0: return FALSE_; case 15: return TRUE_; case 7: return TRUE_; case 8: return FALSE_;
    case 1: case 9: return eq(a, b); case 2: case 10: return gt(a, b); case 3: case 11: return ge(a, b); case 4: case 12: return gt(b, a); case 5: case 13: return ge(b, a); case 6: case 14: return mknot(eq(a, b)); }
  lost("fcmp"); }
static T fintr(int code, T a, T b, T c) {
  if (OPT_FP) switch (code) { case 1: return Z3_mk_fpa_abs(C, a); case 2: return Z3_mk_fpa_sqrt(C, RM, a); case 3: return Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), a); case 4: return Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), a);
      case 5: return Z3_mk_fpa_min(C, a, b); case 6: return Z3_mk_fpa_max(C, a, b); case 8: return Z3_mk_fpa_fma(C, RM, a, b, c); case 12: return Z3_mk_fpa_round_to_integral(C, RTZ, a);
      case 7: return mkite(Z3_mk_fpa_is_negative(C, b), Z3_mk_fpa_neg(C, Z3_mk_fpa_abs(C, a)), Z3_mk_fpa_abs(C, a)); default: lost("fp intrinsic"); }
  switch (code) { case 1: return mabs(a); case 2: return mksqrt(a); case 3: return mfloor(a); case 4: return neg(mfloor(neg(a))); case 5: if (a == POSINF) return b; if (b == POSINF) return a; return mkite(gt(b, a), a, b); case 6: if (a == NEGINF) return b; if (b == NEGINF) return a; return mkite(gt(a, b), a, b);
    case 7: return mkite(ge(b, num("0")), mabs(a), neg(mabs(a))); case 8: return add(mul(a, b), c); case 9: return math1("exp", a); case 10: return math1("log", a); case 11: return mathpow(a, b); case 12: return mkite(ge(a, num("0")), mfloor(a), neg(mfloor(neg(a)))); default: lost("fp intrinsic"); } }
static uint64_t modelU(Z3_model m, T s, unsigned bits) { T r; Z3_model_eval(C, m, s, true, &r); uint64_t u = 0; if (!Z3_get_numeral_uint64(C, r, &u)) lost("model value"); return u; }
static uint64_t concretize(T s, unsigned bits) {
  s = simp(s); if (isnum(s)) { uint64_t u = 0; Z3_get_numeral_uint64(C, s, &u); return u; }
  for (int guard = 0; guard < 100000; guard++) { Z3_model m = nullptr; curWhat = "concretize"; Z3_lbool r = check({eq(s, s), TRUE_}, &m);
    // the slice is driven by the variables of s
    { std::vector<T> q; q.push_back(Z3_mk_bvuge(C, s, bvnum(0, bits))); if (r == Z3_L_UNDEF || !m) lost("concretize: unknown"); (void)q; }
    uint64_t v; { // model of the slice of s
      T probe = Z3_mk_bvule(C, bvnum(0, bits), s); (void)probe; Z3_model m2 = nullptr; std::string nm = "probe!" + std::to_string(uid++); T pv = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, bits)); if (check({eq(pv, s)}, &m2) != Z3_L_TRUE || !m2) lost("concretize: no model"); v = modelU(m2, pv, bits); }
    if (decide(eq(s, bvnum(v, bits)))) return v; }
  lost("concretize: too many values"); }
extern "C" {
void __se_enter(Fn *f) { if (f->flag || !SH) return; f->flag = 1; unsigned h = ((uintptr_t)f >> 4) * 2654435761u; for (int i = 0; i < 65536; i++) { auto &c = SH->fns[(h + i) & 65535]; Fn *e = nullptr; if (c.compare_exchange_strong(e, f)) { SH->nfn++; return; } if (e == f) return; } }
void __se_lost(void *s, const char *why) { if (s && !(OPT_TEXT && !strcmp(why, "number as text"))) { if (Z3_is_numeral_ast(C, t(s)) && 0) return; lost(why); } }
void __se_load_unsup(void *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) if (cell((uint64_t)p + i)) lost("unsupported load of symbolic data"); }
void *__se_load(void *p, uint64_t n, int kind) { uint64_t a = (uint64_t)p; uint64_t *pg = page(a, false); if (!pg && (a & 4095) + n <= 4096) return nullptr; return loadT(a, n, kind); }
void __se_store(void *p, uint64_t n, void *s) { uint64_t a = (uint64_t)p; if (!s) { uint64_t *pg = page(a, false); if ((a & 4095) + n <= 4096) { if (pg) memset(pg + (a & 4095), 0, n * 8); return; } clearRange(a, n); return; } storeT(a, n, t(s)); }
void __se_clear(void *p, uint64_t n) { clearRange((uint64_t)p, n); }
void __se_byval(void *d, void *s, uint64_t n) { if (s) copyShadow((uint64_t)d, (uint64_t)s, n); else clearRange((uint64_t)d, n); }
void *__se_concptr(void *s, void *p) { if (!s) return p; return (void *)concretize(asBV(t(s), 64), 64); }
uint64_t __se_concint(void *s, uint64_t v, int bits) { if (!s) return v; T x = ibits(t(s), bits, 0); if (bits == 1) return decide(x); return concretize(x, bits); }
void *__se_load_sym(void *sp, void *p, uint64_t n, int kind, void **out) {
  *out = p; if (!sp) return __se_load(p, n, kind);
  T s = simp(asBV(t(sp), 64));
  if (!OPT_ITE || isnum(s)) { p = (void *)concretize(s, 64); *out = p; return __se_load(p, n, kind); }
  std::vector<uint64_t> cand; std::vector<T> excl; std::string nm = "ptr!" + std::to_string(uid++); T pv = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, 64)); excl.push_back(eq(pv, s));
  for (;;) { Z3_model m = nullptr; Z3_lbool r = check(excl, &m); if (r == Z3_L_FALSE) break; if (r != Z3_L_TRUE || !m) lost("ite load: unknown"); uint64_t v = modelU(m, pv, 64); cand.push_back(v); if (cand.size() > 1100) lost("ite load: too many addresses"); excl.push_back(mknot(eq(pv, bvnum(v, 64)))); }
  std::sort(cand.begin(), cand.end()); *out = (void *)cand[0]; T r = nullptr;
  for (uint64_t a : cand) { T v = loadT(a, n, kind);
    if (!v) { if (kind == 1) { double d; if (n == 8) memcpy(&d, (void *)a, 8); else if (n == 4) { float f; memcpy(&f, (void *)a, 4); d = f; } else lost("ite load width"); v = fconst(d); } else { uint64_t u = 0; memcpy(&u, (void *)a, n); v = kind == 2 ? (u & 1 ? TRUE_ : FALSE_) : bvnum(u, n * 8); } }
    r = r ? mkite(eq(s, bvnum(a, 64)), v, r) : v; }
  return r; }
void *__se_gepadd(void *acc, void *s, int64_t v, int bits, uint64_t scale, void *res) {
  if (!s) return acc; T a = acc ? asBV(t(acc), 64) : bvnum((uint64_t)res, 64); T x = asBV(t(s), bits); if (bits < 64) x = Z3_mk_sign_ext(C, 64 - bits, x);
  T d = Z3_mk_bvsub(C, x, bvnum((uint64_t)v, 64)); d = Z3_mk_bvmul(C, d, bvnum(scale, 64)); return simp(Z3_mk_bvadd(C, a, d)); }
void *__se_fbin(int op, int k, void *sa, void *sb, double a, double b) { if (!sa && !sb) return nullptr; return fop(op, k, fv(t(sa), a), fv(t(sb), b)); }
void *__se_fbinq(int op, int k, void *sa, void *sb, Q a, Q b) { if (!sa && !sb) return nullptr; return fop(op, 1, fvq(t(sa), a), fvq(t(sb), b)); }
void *__se_fneg(void *s) { if (!s) return nullptr; return OPT_FP ? Z3_mk_fpa_neg(C, fv(t(s), 0)) : neg(fv(t(s), 0)); }
void *__se_fcmp(int p, int k, void *sa, void *sb, double a, double b) { if (!sa && !sb) return nullptr; return fcmp(p, fv(t(sa), a), fv(t(sb), b)); }
void *__se_fcmpq(int p, int k, void *sa, void *sb, Q a, Q b) { if (!sa && !sb) return nullptr; return fcmp(p, fvq(t(sa), a), fvq(t(sb), b)); }
void *__se_fsel(int k, void *sc, int c, void *sa, void *sb, double a, double b) { if (!sc) return c ? sa : sb; T x = fv(t(sa), a), y = fv(t(sb), b); if (!OPT_FP && (special(x) || special(y))) return decide(t(sc)) ? x : y; return mkite(t(sc), x, y); }
void *__se_fselq(int k, void *sc, int c, void *sa, void *sb, Q a, Q b) { if (!sc) return c ? sa : sb; T x = fvq(t(sa), a), y = fvq(t(sb), b); if (special(x) || special(y)) return decide(t(sc)) ? x : y; return mkite(t(sc), x, y); }
void *__se_isel(int bits, void *sc, int c, void *sa, void *sb, int64_t a, int64_t b) { if (!sc) return c ? sa : sb;
  if ((sa && sk(t(sa)) == Z3_REAL_SORT) || (sb && sk(t(sb)) == Z3_REAL_SORT)) { if (bits != 64) lost("select of raw reals"); double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return mkite(t(sc), sa ? t(sa) : fconst(x), sb ? t(sb) : fconst(y)); }
  return mkite(t(sc), ibits(t(sa), bits, a), ibits(t(sb), bits, b)); }
void *__se_ibin(int op, int bits, void *sa, void *sb, int64_t a, int64_t b) {
  if (!sa && !sb) return nullptr; T x = ibits(t(sa), bits, a), y = ibits(t(sb), bits, b);
  if (bits == 1) { T v[2] = {x, y}; switch (op) { case OAnd: return simp(Z3_mk_and(C, 2, v)); case OOr: return simp(Z3_mk_or(C, 2, v)); case OXor: case OAdd: case OSub: return simp(Z3_mk_xor(C, x, y)); case OMul: return simp(Z3_mk_and(C, 2, v)); default: lost("i1 op"); } }
  T r; switch (op) { case OAdd: r = Z3_mk_bvadd(C, x, y); break; case OSub: r = Z3_mk_bvsub(C, x, y); break; case OMul: r = Z3_mk_bvmul(C, x, y); break; case OUDiv: r = Z3_mk_bvudiv(C, x, y); break; case OSDiv: r = Z3_mk_bvsdiv(C, x, y); break; case OURem: r = Z3_mk_bvurem(C, x, y); break; case OSRem: r = Z3_mk_bvsrem(C, x, y); break;
    case OShl: r = Z3_mk_bvshl(C, x, y); break; case OLShr: r = Z3_mk_bvlshr(C, x, y); break; case OAShr: r = Z3_mk_bvashr(C, x, y); break; case OAnd: r = Z3_mk_bvand(C, x, y); break; case OOr: r = Z3_mk_bvor(C, x, y); break; case OXor: r = Z3_mk_bvxor(C, x, y); break; default: lost("int op"); }
  return simp(r); }
void *__se_icmp(int p, int bits, void *sa, void *sb, int64_t a, int64_t b) {
  if (!sa && !sb) return nullptr; T x = ibits(t(sa), bits, a), y = ibits(t(sb), bits, b);
  if (bits == 1) { if (p == 32) return simp(Z3_mk_iff(C, x, y)); if (p == 33) return simp(Z3_mk_xor(C, x, y)); x = asBV(x, 8); y = asBV(y, 8); if (p >= 38) lost("signed i1 compare"); }
  T r; switch (p) { case 32: r = eq(x, y); break; case 33: r = mknot(eq(x, y)); break; case 34: r = Z3_mk_bvugt(C, x, y); break; case 35: r = Z3_mk_bvuge(C, x, y); break; case 36: r = Z3_mk_bvult(C, x, y); break; case 37: r = Z3_mk_bvule(C, x, y); break; case 38: r = Z3_mk_bvsgt(C, x, y); break; case 39: r = Z3_mk_bvsge(C, x, y); break; case 40: r = Z3_mk_bvslt(C, x, y); break; case 41: r = Z3_mk_bvsle(C, x, y); break; default: lost("icmp"); }
  return simp(r); }
void *__se_fintr(int code, int k, void *sa, void *sb, void *sc, double a, double b, double c) { if (!sa && !sb && !sc) return nullptr; return fintr(code, fv(t(sa), a), fv(t(sb), b), fv(t(sc), c)); }
void *__se_fintrq(int code, int k, void *sa, void *sb, void *sc, Q a, Q b, Q c) { if (!sa && !sb && !sc) return nullptr; return fintr(code, fvq(t(sa), a), fvq(t(sb), b), fvq(t(sc), c)); }
void *__se_fpclass(void *s, int mask) { if (!s) return nullptr; if (OPT_FP) { T x = t(s); std::vector<T> v; if (mask & 3) v.push_back(Z3_mk_fpa_is_nan(C, x)); T ng = Z3_mk_fpa_is_negative(C, x), ps = mknot(ng); auto A = [&](T p, T q) { T w[2] = {p, q}; v.push_back(Z3_mk_and(C, 2, w)); };
    if (mask & 4) A(Z3_mk_fpa_is_infinite(C, x), ng); if (mask & 512) A(Z3_mk_fpa_is_infinite(C, x), ps); if (mask & 8) A(Z3_mk_fpa_is_normal(C, x), ng); if (mask & 256) A(Z3_mk_fpa_is_normal(C, x), ps); if (mask & 16) A(Z3_mk_fpa_is_subnormal(C, x), ng); if (mask & 128) A(Z3_mk_fpa_is_subnormal(C, x), ps); if (mask & 32) A(Z3_mk_fpa_is_zero(C, x), ng); if (mask & 64) A(Z3_mk_fpa_is_zero(C, x), Z3_mk_fpa_is_positive(C, x)); return v.empty() ? FALSE_ : Z3_mk_or(C, v.size(), v.data()); }
  bool fin = (mask & 0x1f8) == 0x1f8, none = (mask & 0x1f8) == 0; if (special(t(s))) lost("fpclass of inf"); if (fin) return TRUE_; if (none) return FALSE_; lost("fpclass"); }
void *__se_iintr(int code, int bits, void *sa, void *sb, void *sc, int64_t a, int64_t b, int64_t c) {
  if (!sa && !sb && !sc) return nullptr; T x = ibits(t(sa), bits, a), y = (code == 5 || code == 10) ? x : ibits(t(sb), bits, b); if (bits == 1) lost("i1 intrinsic");
  unsigned w = bits; auto z = [&](T v) { return Z3_mk_zero_ext(C, w, v); }; auto s = [&](T v) { return Z3_mk_sign_ext(C, w, v); };
  switch (code) { case 1: return mkite(Z3_mk_bvult(C, x, y), x, y); case 2: return mkite(Z3_mk_bvugt(C, x, y), x, y); case 3: return mkite(Z3_mk_bvslt(C, x, y), x, y); case 4: return mkite(Z3_mk_bvsgt(C, x, y), x, y); case 5: return mkite(Z3_mk_bvslt(C, x, bvnum(0, w)), Z3_mk_bvneg(C, x), x);
    case 6: return mkite(Z3_mk_bvult(C, x, y), bvnum(0, w), Z3_mk_bvsub(C, x, y)); case 7: { T r = Z3_mk_bvadd(C, x, y); return mkite(Z3_mk_bvult(C, r, x), bvnum(~0ull, w), r); }
    case 8: case 9: { if (sc) lost("symbolic funnel shift"); unsigned k = (unsigned)((uint64_t)c % w); T cc = Z3_mk_concat(C, x, y); return code == 8 ? simp(Z3_mk_extract(C, 2 * w - 1 - k, w - k, cc)) : simp(Z3_mk_extract(C, w - 1 + k, k, cc)); }
    case 10: { T r = nullptr; for (unsigned i = 0; i < w; i += 8) { T e = Z3_mk_extract(C, i + 7, i, x); r = r ? Z3_mk_concat(C, r, e) : e; } return simp(r); }
    case 20: case 21: return simp(Z3_mk_bvadd(C, x, y)); case 22: case 23: return simp(Z3_mk_bvsub(C, x, y)); case 24: case 25: return simp(Z3_mk_bvmul(C, x, y));
    case 70: return simp(mknot(eq(Z3_mk_bvadd(C, z(x), z(y)), z(Z3_mk_bvadd(C, x, y))))); case 71: return simp(mknot(eq(Z3_mk_bvadd(C, s(x), s(y)), s(Z3_mk_bvadd(C, x, y))))); case 72: return simp(Z3_mk_bvult(C, x, y));
    case 73: return simp(mknot(eq(Z3_mk_bvsub(C, s(x), s(y)), s(Z3_mk_bvsub(C, x, y))))); case 74: return simp(mknot(eq(Z3_mk_bvmul(C, z(x), z(y)), z(Z3_mk_bvmul(C, x, y))))); case 75: return simp(mknot(eq(Z3_mk_bvmul(C, s(x), s(y)), s(Z3_mk_bvmul(C, x, y))))); }
  lost("int intrinsic"); }
// LLVM 18 cast opcodes
enum { CTrunc = 38, CZExt = 39, CSExt = 40, CFPToUI = 41, CFPToSI = 42, CUIToFP = 43, CSIToFP = 44, CFPTrunc = 45, CFPExt = 46, CPtrToInt = 47, CIntToPtr = 48, CBitCast = 49 };
static T fround32(T a) { bool nw; Def &d = mkdef("float32", {a}, nw); return d.var; }
void *__se_cast(int op, int skd, int dk, void *sv) {
  if (!sv) return nullptr; T a = t(sv);
  switch (op) {
    case CTrunc: { if (dk == 1) return simp(eq(Z3_mk_extract(C, 0, 0, ibits(a, skd, 0)), bvnum(1, 1))); return simp(Z3_mk_extract(C, dk - 1, 0, ibits(a, skd, 0))); }
    case CZExt: if (skd == 1) return mkite(ibits(a, 1, 0), bvnum(1, dk), bvnum(0, dk)); return Z3_mk_zero_ext(C, dk - skd, ibits(a, skd, 0));
    case CSExt: if (skd == 1) return mkite(ibits(a, 1, 0), bvnum(~0ull, dk), bvnum(0, dk)); return Z3_mk_sign_ext(C, dk - skd, ibits(a, skd, 0));
    case CPtrToInt: return asBV(a, 64) == a && dk == 64 ? a : simp(asBV(asBV(a, 64), dk)); case CIntToPtr: return asBV(asBV(a, skd), 64);
    case CBitCast: { bool sf = skd >= 100, df = dk >= 100; if (sf == df) return a; if (!OPT_FP) return a; if (sf) return asBV(a, dk); return Z3_mk_fpa_to_fp_bv(C, asBV(a, skd), dk == 101 ? FS : F32); }
    case CFPExt: if (OPT_FP) { if (dk != 101) lost("fpext in FP mode"); return Z3_mk_fpa_to_fp_float(C, RM, a, FS); } return a;
    case CFPTrunc: if (OPT_FP) lost("fptrunc in FP mode"); if (dk == 100) return isnum(a) ? a : fround32(a); return a;
    case CUIToFP: case CSIToFP: { T x = ibits(a, skd, 0); if (skd == 1) return OPT_FP ? mkite(x, fconst(op == CSIToFP ? -1 : 1), fconst(0)) : mkite(x, num(op == CSIToFP ? "-1" : "1"), num("0"));
      if (OPT_FP) return op == CSIToFP ? Z3_mk_fpa_to_fp_signed(C, RM, x, FS) : Z3_mk_fpa_to_fp_unsigned(C, RM, x, FS);
      uint64_t v = concretize(x, skd); if (op == CSIToFP) { int64_t sv2 = skd < 64 && (v >> (skd - 1) & 1) ? (int64_t)(v | (~0ull << skd)) : (int64_t)v; return num(std::to_string(sv2)); } return num(std::to_string(v)); }
    case CFPToUI: case CFPToSI: { a = fv(a, 0); if (OPT_FP) return op == CFPToSI ? Z3_mk_fpa_to_sbv(C, RTZ, a, dk) : Z3_mk_fpa_to_ubv(C, RTZ, a, dk);
      a = simp(a); for (int g = 0; g < 100000; g++) { long n;
        if (isnum(a)) { n = (long)std::trunc(Z3_get_numeral_double(C, a)); return bvnum((uint64_t)n, dk); }
        Z3_model m = nullptr; std::string nm = "probe!" + std::to_string(uid++); T pv = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), RS); if (check({eq(pv, a)}, &m) != Z3_L_TRUE || !m) lost("fptosi: no model");
        T r; Z3_model_eval(C, m, pv, true, &r); n = (long)std::trunc(atof(Z3_get_numeral_decimal_string(C, r, 20)));
        T lo = num(std::to_string(n)), hi = num(std::to_string(n + 1)), c[2]; if (n > 0) { c[0] = ge(a, lo); c[1] = gt(hi, a); } else if (n < 0) { c[0] = gt(a, num(std::to_string(n - 1))); c[1] = ge(lo, a); } else { c[0] = gt(a, num("-1")); c[1] = gt(hi, a); }
        if (decide(Z3_mk_and(C, 2, c))) return bvnum((uint64_t)n, dk); }
      lost("fptosi"); }
  }
  lost("cast"); }
int __se_branch(void *s, int c) { if (!s) return c; T x = ibits(t(s), 1, 0); return decide(x); }
void __se_aftercall(void *callee, int n, uint64_t bymask, const char *name) {
  if (__se_args_fn != callee) return; __se_args_fn = nullptr; if (OPT_TEXT && (!strcmp(name, "_ZNSo9_M_insertIdEERSoT_") || !strcmp(name, "_ZNSolsEd"))) return;
  for (int i = 0; i < n && i < 64; i++) if (!(bymask >> i & 1) && __se_args[i]) { if (Z3_is_numeral_ast(C, t(__se_args[i])) && 0) continue; char b[160]; snprintf(b, 160, "symbolic argument to uninstrumented %s", name); lost(b); } }
void __se_memmove(void *d, void *s, uint64_t n) { copyShadow((uint64_t)d, (uint64_t)s, n); }
void __se_memset(void *d, void *sv, uint64_t n) { if (!sv) clearRange((uint64_t)d, n); else for (uint64_t i = 0; i < n; i++) storeT((uint64_t)d + i, 1, asBV(t(sv), 8)); }
}
// ---------------------------------------------------------------- modelled library functions
static void *takeArg(void *self, int i) { return __se_args_fn == self ? __se_args[i] : nullptr; }
static void doneArgs(void *self) { if (__se_args_fn == self) __se_args_fn = nullptr; }
static void setRet(void *self, T r) { if (r) { __se_ret_fn = self; __se_ret[0] = r; } else __se_ret_fn = nullptr; }
#define M1(name, native, expr) extern "C" double __se_m_##name(double x) { void *self = (void *)&__se_m_##name; T s = t(takeArg(self, 0)); doneArgs(self); T r = nullptr; if (s) { if (OPT_FP) { s = fv(s, x); } r = expr; } setRet(self, r); return native; }
static T nofp(T x) { if (OPT_FP) lost("transcendental function in FP mode"); return x; }
#define MU(name) M1(name, name(x), math1(#name, nofp(s)))
MU(exp) MU(log) MU(sin) MU(cos) MU(tan) MU(sinh) MU(cosh) MU(tanh) MU(asin) MU(acos) MU(atan) MU(asinh) MU(acosh) MU(atanh) MU(expm1) MU(log1p) MU(log10) MU(log2) MU(exp2) MU(erf) MU(erfc) MU(tgamma) MU(lgamma) MU(cbrt)
M1(sqrt, sqrt(x), fintr(2, s, nullptr, nullptr)) M1(fabs, fabs(x), fintr(1, s, nullptr, nullptr)) M1(floor, floor(x), fintr(3, s, nullptr, nullptr)) M1(ceil, ceil(x), fintr(4, s, nullptr, nullptr)) M1(trunc, trunc(x), fintr(12, s, nullptr, nullptr)) M1(round, round(x), (lost("round"), s)) M1(rint, rint(x), (lost("rint"), s)) M1(nearbyint, nearbyint(x), (lost("rint"), s))
#define M2(name, native, expr) extern "C" double __se_m_##name(double x, double y) { void *self = (void *)&__se_m_##name; T a = t(takeArg(self, 0)), b = t(takeArg(self, 1)); doneArgs(self); T r = nullptr; if (a || b) { a = fv(a, x); b = fv(b, y); r = expr; } setRet(self, r); return native; }
M2(pow, pow(x, y), (nofp(a), mathpow(a, b))) M2(fmin, fmin(x, y), fintr(5, a, b, nullptr)) M2(fmax, fmax(x, y), fintr(6, a, b, nullptr)) M2(fmod, fmod(x, y), (lost("fmod"), a)) M2(cabs, hypot(x, y), mksqrt(add(mul(a, a), mul(b, b)))) M2(hypot, hypot(x, y), mksqrt(add(mul(a, a), mul(b, b)))) M2(atan2, atan2(x, y), (lost("atan2"), a))
extern "C" double __se_m_ldexp(double x, int e) { void *self = (void *)&__se_m_ldexp; if (takeArg(self, 0) || takeArg(self, 1)) lost("ldexp"); doneArgs(self); setRet(self, nullptr); return ldexp(x, e); }
extern "C" double __se_m_frexp(double x, int *e) { void *self = (void *)&__se_m_frexp; if (takeArg(self, 0)) lost("frexp"); doneArgs(self); setRet(self, nullptr); return frexp(x, e); }
extern "C" double __se_m_modf(double x, double *e) { void *self = (void *)&__se_m_modf; if (takeArg(self, 0)) lost("modf"); doneArgs(self); setRet(self, nullptr); return modf(x, e); }
#define Q1(name, native, expr) extern "C" Q __se_m_##name(Q x) { void *self = (void *)&__se_m_##name; T s = t(takeArg(self, 0)); doneArgs(self); T r = nullptr; if (s) { r = expr; } setRet(self, r); return (Q)(native); }
Q1(sqrtq, std::sqrt((double)x), mksqrt(s)) Q1(fabsq, x < 0 ? -x : x, mabs(s)) Q1(expq, std::exp((double)x), math1("exp", s)) Q1(logq, std::log((double)x), math1("log", s)) Q1(expm1q, std::expm1((double)x), math1("expm1", s)) Q1(log1pq, std::log1p((double)x), math1("log1p", s)) Q1(sinq, std::sin((double)x), math1("sin", s)) Q1(cosq, std::cos((double)x), math1("cos", s)) Q1(tanhq, std::tanh((double)x), math1("tanh", s)) Q1(floorq, std::floor((double)x), mfloor(s)) Q1(ceilq, std::ceil((double)x), neg(mfloor(neg(s))))
extern "C" Q __se_m_powq(Q x, Q y) { void *self = (void *)&__se_m_powq; T a = t(takeArg(self, 0)), b = t(takeArg(self, 1)); doneArgs(self); T r = nullptr; if (a || b) r = mathpow(fvq(a, x), fvq(b, y)); setRet(self, r); return (Q)std::pow((double)x, (double)y); }
#define QI(name, native) extern "C" int __se_m_##name(Q x) { void *self = (void *)&__se_m_##name; T s = t(takeArg(self, 0)); doneArgs(self); T r = nullptr; if (s) r = bvnum(std::string(#name) == "finiteq", 32); setRet(self, r); return native; }
QI(isnanq, x != x) QI(isinfq, (x == x) && std::isinf((double)x)) QI(finiteq, std::isfinite((double)x))
typedef long double LD;
#define L1M(name, native, expr) extern "C" LD __se_m_##name(LD x) { void *self = (void *)&__se_m_##name; T s = t(takeArg(self, 0)); doneArgs(self); T r = nullptr; if (s) { r = expr; } setRet(self, r); return native; }
L1M(sqrtl, sqrtl(x), mksqrt(s)) L1M(fabsl, fabsl(x), mabs(s)) L1M(expl, expl(x), math1("exp", s)) L1M(logl, logl(x), math1("log", s))
extern "C" LD __se_m_powl(LD x, LD y) { void *self = (void *)&__se_m_powl; T a = t(takeArg(self, 0)), b = t(takeArg(self, 1)); doneArgs(self); T r = nullptr; if (a || b) r = mathpow(fvq(a, (Q)x), fvq(b, (Q)y)); setRet(self, r); return powl(x, y); }
extern "C" void *__se_m_memcpy(void *d, const void *s, size_t n) { void *self = (void *)&__se_m_memcpy; d = __se_concptr(takeArg(self, 0), d); s = __se_concptr(takeArg(self, 1), (void *)s); n = __se_concint(takeArg(self, 2), n, 64); doneArgs(self); setRet(self, nullptr); copyShadow((uint64_t)d, (uint64_t)s, n); return memmove(d, s, n); }
extern "C" void *__se_m_memmove(void *d, const void *s, size_t n) { void *self = (void *)&__se_m_memmove; d = __se_concptr(takeArg(self, 0), d); s = __se_concptr(takeArg(self, 1), (void *)s); n = __se_concint(takeArg(self, 2), n, 64); doneArgs(self); setRet(self, nullptr); copyShadow((uint64_t)d, (uint64_t)s, n); return memmove(d, s, n); }
extern "C" void *__se_m_memset(void *d, int c, size_t n) { void *self = (void *)&__se_m_memset; void *sv = takeArg(self, 1); d = __se_concptr(takeArg(self, 0), d); n = __se_concint(takeArg(self, 2), n, 64); doneArgs(self); setRet(self, nullptr); __se_memset(d, sv, n); return memset(d, c, n); }
static int memcmpM(void *self, const void *a, const void *b, size_t n) {
  a = __se_concptr(takeArg(self, 0), (void *)a); b = __se_concptr(takeArg(self, 1), (void *)b); n = __se_concint(takeArg(self, 2), n, 64); doneArgs(self); setRet(self, nullptr);
  for (size_t i = 0; i < n; i++) { T x = loadT((uint64_t)a + i, 1, 0), y = loadT((uint64_t)b + i, 1, 0);
    if (!x && !y) { int c = (int)((const uint8_t *)a)[i] - (int)((const uint8_t *)b)[i]; if (c) return c; continue; }
    x = ibits(x, 8, ((const uint8_t *)a)[i]); y = ibits(y, 8, ((const uint8_t *)b)[i]); if (decide(eq(x, y))) continue; return decide(Z3_mk_bvult(C, x, y)) ? -1 : 1; }
  return 0; }
extern "C" int __se_m_memcmp(const void *a, const void *b, size_t n) { return memcmpM((void *)&__se_m_memcmp, a, b, n); }
extern "C" int __se_m_bcmp(const void *a, const void *b, size_t n) { return memcmpM((void *)&__se_m_bcmp, a, b, n); }
extern "C" size_t __se_m_strlen(const char *s) { void *self = (void *)&__se_m_strlen; s = (const char *)__se_concptr(takeArg(self, 0), (void *)s); doneArgs(self); setRet(self, nullptr); size_t i = 0; for (;; i++) { T x = loadT((uint64_t)s + i, 1, 0); if (!x) { if (!s[i]) return i; continue; } if (decide(eq(x, bvnum(0, 8)))) return i; } }
extern "C" void *__se_m_memchr(const void *s, int c, size_t n) { void *self = (void *)&__se_m_memchr; T sc = t(takeArg(self, 1)); s = __se_concptr(takeArg(self, 0), (void *)s); n = __se_concint(takeArg(self, 2), n, 64); doneArgs(self); setRet(self, nullptr); T cc = sc ? asBV(asBV(sc, 32), 8) : bvnum((uint8_t)c, 8);
  for (size_t i = 0; i < n; i++) { T x = loadT((uint64_t)s + i, 1, 0); if (!x && !sc) { if (((const uint8_t *)s)[i] == (uint8_t)c) return (char *)s + i; continue; } if (decide(eq(ibits(x, 8, ((const uint8_t *)s)[i]), cc))) return (char *)s + i; } return nullptr; }
extern "C" void *__se_m_realloc(void *p, size_t n) { for (int i = 0; i < 2; i++) if (takeArg((void *)&__se_m_realloc, i)) lost("realloc"); doneArgs((void *)&__se_m_realloc); setRet(nullptr, nullptr); void *q = malloc(n); clearRange((uint64_t)q, n); if (p) { size_t k = std::min(n, (size_t)malloc(0) ? n : n); (void)k; lost("realloc"); } return q; }
typedef double v2d __attribute__((ext_vector_type(2)));
struct CD { double r, i; };
static CD cdiv(double a, double b, double c, double d) { double m = c * c + d * d; return {(a * c + b * d) / m, (b * c - a * d) / m}; }
extern "C" CD __se_m___divdc3(double a, double b, double c, double d) { void *self = (void *)&__se_m___divdc3; T s[4]; bool any = false; for (int i = 0; i < 4; i++) { s[i] = t(takeArg(self, i)); if (s[i]) any = true; } doneArgs(self); __se_ret_fn = nullptr;
  if (any) { T A = fv(s[0], a), B = fv(s[1], b), CC = fv(s[2], c), D = fv(s[3], d); nofp(A); T m = add(mul(CC, CC), mul(D, D)); __se_ret[0] = divi(add(mul(A, CC), mul(B, D)), m); __se_ret[1] = divi(sub(mul(B, CC), mul(A, D)), m); __se_ret_fn = self; } return cdiv(a, b, c, d); }
extern "C" CD __se_m___muldc3(double a, double b, double c, double d) { void *self = (void *)&__se_m___muldc3; T s[4]; bool any = false; for (int i = 0; i < 4; i++) { s[i] = t(takeArg(self, i)); if (s[i]) any = true; } doneArgs(self); __se_ret_fn = nullptr;
  if (any) { T A = fv(s[0], a), B = fv(s[1], b), CC = fv(s[2], c), D = fv(s[3], d); nofp(A); __se_ret[0] = sub(mul(A, CC), mul(B, D)); __se_ret[1] = add(mul(A, D), mul(B, CC)); __se_ret_fn = self; } return {a * c - b * d, a * d + b * c}; }
// heap blocks start without shadow
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (SH) clearRange((uint64_t)p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
static void freeBlock(void *p) { if (p && SH) clearRange((uint64_t)p, malloc_usable_size(p)); free(p); }
void operator delete(void *p) noexcept { freeBlock(p); }
void operator delete[](void *p) noexcept { freeBlock(p); }
void operator delete(void *p, size_t) noexcept { freeBlock(p); }
void operator delete[](void *p, size_t) noexcept { freeBlock(p); }

// ---------------------------------------------------------------- harness interface
static std::string uname(const char *n) { int k = nameCount[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
#define SELF(f) void *self = (void *)&f; (void)self
static T newInput(const char *name, int kind, Z3_sort s, unsigned bits) { std::string n = uname(name); T v = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s); inputs.push_back({n, v, kind, bits}); if (kind == 0) W.in[Z3_get_ast_id(C, v)] = rndval(); return v; }
extern "C" {
double se_real(const char *name) { SELF(se_real); T v = newInput(name, 0, OPT_FP ? FS : RS, 64); setRet(self, v); return 1.0 + 0.37 * (double)inputs.size() / (1.0 + (double)inputs.size()); }
int64_t se_int64(const char *name) { SELF(se_int64); setRet(self, newInput(name, 1, Z3_mk_bv_sort(C, 64), 64)); return 1; }
int32_t se_int32(const char *name) { SELF(se_int32); setRet(self, newInput(name, 1, Z3_mk_bv_sort(C, 32), 32)); return 1; }
uint8_t se_byte(const char *name) { SELF(se_byte); setRet(self, newInput(name, 1, Z3_mk_bv_sort(C, 8), 8)); return 1; }
int se_choose(const char *name, int n) { std::string nm = uname(name); setRet(nullptr, nullptr); int r = n - 1; if (n > 1) { T v = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bv_sort(C, 16)); pc.push_back(Z3_mk_bvult(C, v, bvnum(n, 16))); r = (int)concretize(v, 16); } chosen.push_back({nm, std::to_string(r)}); return r; }
void se_assume(bool c) { SELF(se_assume); T s = t(takeArg(self, 0)); doneArgs(self); if (!s) { if (!c) path_end(); return; } T x = simp(ibits(s, 1, 0)); if (x == TRUE_) return; if (x == FALSE_) path_end(); curWhat = "assume"; if (feasible({x}, 300, false, OPT_FASTFEAS) == Z3_L_FALSE) path_end(); assume(x); }
void se_nz(double x) { SELF(se_nz); T s = t(takeArg(self, 0)); doneArgs(self); if (!s) { if (x == 0) path_end(); return; } T z = mknot(eq(s, num("0"))); curWhat = "nz"; if (feasible({z}, 300) == Z3_L_FALSE) path_end(); assume(z); }
void se_assume_eq(double a, double b) { SELF(se_assume_eq); T x = t(takeArg(self, 0)), y = t(takeArg(self, 1)); doneArgs(self); if (!x && !y) { if (a != b) path_end(); return; } T e = eq(fv(x, a), fv(y, b)); e = simp(e); if (e == FALSE_) path_end(); curWhat = "assume_eq"; if (feasible({e}, 0) == Z3_L_FALSE) path_end(); assume(e); }
static void doassert(T c, const char *label) {
  SH->asserts++; count_label(SH->lab, 512, label); curWhat = label;
  T n = simp(mknot(c)); if (n != FALSE_ && !OPT_FP) n = clearAtom(n);
  if (n == FALSE_) { SH->proved++; SH->syntactic++; SH->queries++; return; }
  if (!OPT_FP && (n == TRUE_ || hasReal(n)) && search({n}, 200)) { SH->failed++; if (getenv("SE_DUMP")) { fprintf(stderr, "FAILED %s: %s\n", label, Z3_ast_to_string(C, n)); for (auto &d : defs) { QV q = evR(d.var); fprintf(stderr, "  %s(%s) = %.17g +- %.3g\n", d.fn.c_str(), d.args.empty() ? "" : Z3_ast_to_string(C, d.args[0]), (double)q.v, (double)q.e); } for (T a : pc) fprintf(stderr, "  pc[%d] %s\n", evB(a), Z3_ast_to_string(C, a)); } if (SH->cex >= OPT_MAXCEX || write_wit(label, false)) return; SH->failed--; }
  Z3_model m = nullptr; Z3_lbool r = check({n}, &m, 0, true);
  if (r == Z3_L_FALSE) { SH->proved++; return; }
  if (r == Z3_L_UNDEF) { SH->unknown++; char b[160]; snprintf(b, 160, "assert undecided: %s", label); count_label(SH->why, 64, b); return; }
  SH->failed++; if (SH->cex < OPT_MAXCEX) write_cex(label, m, {n}); }
static T findIte(T a, std::unordered_set<unsigned> &seen) { if (Z3_get_ast_kind(C, a) != Z3_APP_AST || !seen.insert(Z3_get_ast_id(C, a)).second) return nullptr; if (isapp(a, Z3_OP_ITE) && sk(a) == Z3_REAL_SORT) return a; for (unsigned i = 0; i < nargs(a); i++) if (T r = findIte(arg(a, i), seen)) return r; return nullptr; }
static T splitIte(T d) { for (int i = 0; i < 60; i++) { std::unordered_set<unsigned> seen; T x = findIte(d, seen); if (!x) break; T c = arg(x, 0); T to = decide(c) ? arg(x, 1) : arg(x, 2); d = Z3_substitute(C, d, 1, &x, &to); } return d; }
void se_assert(bool c, const char *label) { SELF(se_assert); T s = t(takeArg(self, 0)); doneArgs(self); doassert(s ? ibits(s, 1, 0) : (c ? TRUE_ : FALSE_), label); }
static void asserteq(T x, T y, double a, double b, const char *label) {
  if (!x && !y) { doassert(a == b || std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) ? TRUE_ : FALSE_, label); return; }
  x = fv(x, a); y = fv(y, b);
  if (OPT_FP) { doassert(eq(x, y), label); return; }
  if (special(x) || special(y)) { doassert(x == y ? TRUE_ : FALSE_, label); return; }
  T d = sub(x, y); if (d != num("0")) { d = splitIte(d); try { Poly p = elim(toPoly(d), false); monic(p, false); d = polyT(p); } catch (TooBig &) { if (getenv("SE_DEBUG")) fprintf(stderr, "normal form too big: %s\n", label); d = simpsom(d); } } if (iszero(d)) { SH->asserts++; SH->proved++; SH->queries++; SH->syntactic++; count_label(SH->lab, 512, label); return; }
  doassert(eq(d, num("0")), label); }
void se_assert_eq(double a, double b, const char *label) { SELF(se_assert_eq); T x = t(takeArg(self, 0)), y = t(takeArg(self, 1)); doneArgs(self); asserteq(x, y, a, b, label); }
void se_assert_eqs(double a, double b, double s, const char *label) { SELF(se_assert_eqs); T x = t(takeArg(self, 0)), y = t(takeArg(self, 1)); doneArgs(self); asserteq(x, y, a, b, label); }
void se_reach(const char *label) { curWhat = label; bool known = false; for (auto &r : SH->reach) if (!strcmp(r.n, label)) known = true; if (known) { count_label(SH->reach, 256, label); return; }
  if (!OPT_FP && search({TRUE_}, 400) && write_wit(label, true)) { count_label(SH->reach, 256, label); return; }
  std::vector<T> q = pc; q.push_back(TRUE_); Z3_model m = nullptr; if (check(q, &m) == Z3_L_TRUE) { count_label(SH->reach, 256, label); if (m) write_cex(label, m, {TRUE_}, true); } else count_label(SH->why, 64, "reach point not shown satisfiable"); }
void se_stop(void) { path_end(); }
int se_native(void) { setRet(nullptr, nullptr); return 0; }
int se_symbolic(double) { SELF(se_symbolic); void *s = takeArg(self, 0); doneArgs(self); setRet(nullptr, nullptr); return s && !Z3_is_numeral_ast(C, t(s)); }
static std::unordered_map<unsigned, T> dmemo; static T dvar;
static T D(T a) {
  if (a == dvar) return num("1"); if (isnum(a)) return num("0"); unsigned id = Z3_get_ast_id(C, a); auto it = dmemo.find(id); if (it != dmemo.end()) return it->second; T r = nullptr;
  auto df = defOf.find(id);
  if (df != defOf.end()) { Def d = defs[df->second]; T z = num("0"), o = num("1"), v = d.var; 
    if (d.fn == "fresh") r = z;
    else if (d.args.size() == 1) { T x = d.args[0], dx = D(x); if (iszero(dx)) r = z; else if (d.fn == "inv") r = neg(mul(mul(v, v), dx)); else if (d.fn == "sqrt") r = mul(dx, inv(mul(num("2"), v))); else if (d.fn == "exp") r = mul(v, dx); else if (d.fn == "log") r = mul(dx, inv(x)); else if (d.fn == "sin") r = mul(math1("cos", x), dx); else if (d.fn == "cos") r = neg(mul(math1("sin", x), dx)); else if (d.fn == "sinh") r = mul(math1("cosh", x), dx); else if (d.fn == "cosh") r = mul(math1("sinh", x), dx); else if (d.fn == "tanh") r = mul(sub(o, mul(v, v)), dx); else { bool nw; T g = mkdef("d:" + d.fn, {x}, nw).var; r = mul(g, dx); } }
    else if (d.fn == "pow") { T dx = D(d.args[0]), dy = D(d.args[1]); r = z; if (!iszero(dx)) r = add(r, mul(mul(d.args[1], mathpow(d.args[0], sub(d.args[1], o))), dx)); if (!iszero(dy)) r = add(r, mul(mul(math1("log", d.args[0]), v), dy)); }
    else { r = z; for (size_t i = 0; i < d.args.size(); i++) { T dx = D(d.args[i]); if (iszero(dx)) continue; bool nw; T g = mkdef("d" + std::to_string(i) + ":" + d.fn, d.args, nw).var; r = add(r, mul(g, dx)); } } }
  else if (Z3_get_ast_kind(C, a) == Z3_APP_AST) { unsigned n = nargs(a); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a)));
    switch (k) { case Z3_OP_UNINTERPRETED: if (n == 0) r = num("0"); break; case Z3_OP_ADD: r = num("0"); for (unsigned i = 0; i < n; i++) r = add(r, D(arg(a, i))); break; case Z3_OP_SUB: r = D(arg(a, 0)); for (unsigned i = 1; i < n; i++) r = sub(r, D(arg(a, i))); break; case Z3_OP_UMINUS: r = neg(D(arg(a, 0))); break;
      case Z3_OP_MUL: r = num("0"); for (unsigned i = 0; i < n; i++) { T p = D(arg(a, i)); if (iszero(p)) continue; for (unsigned j = 0; j < n; j++) if (j != i) p = mul(p, arg(a, j)); r = add(r, p); } break;
      case Z3_OP_ITE: r = mkite(arg(a, 0), D(arg(a, 1)), D(arg(a, 2))); break;
      case Z3_OP_POWER: { long e; if (intval(arg(a, 1), e)) { T b = arg(a, 0); T p = num(std::to_string(e)); for (long i = 1; i < e; i++) p = mul(p, b); r = mul(p, D(b)); } break; }
      case Z3_OP_TO_REAL: r = num("0"); break; default: break; } }
  if (!r) lost("se_diff"); return dmemo[id] = r; }
double se_diff(double, double) { SELF(se_diff); T f = t(takeArg(self, 0)), x = t(takeArg(self, 1)); doneArgs(self); if (!x) lost("se_diff by constant"); if (!f) { setRet(self, num("0")); return 0; } dmemo.clear(); dvar = x; setRet(self, D(f)); return 0.5; }
double se_fresh(double v) { SELF(se_fresh); T f = t(takeArg(self, 0)); doneArgs(self); if (!f) { setRet(nullptr, nullptr); return v; } bool nw; Def &d = mkdef("fresh", {f}, nw); setRet(self, d.var); return v; }
static double gf(const char *fn, double x, double y) { unsigned h = 7; for (const char *p = fn; *p; p++) h = h * 31 + *p; double a = 0.3 + (h % 97) / 97.0, b = 0.2 + (h / 97 % 89) / 89.0; return std::sin(a * x + 1) + b * x * x + 0.5 * y * a + x * y * b; }
double se_uf1(const char *fn, double x) { SELF(se_uf1); T a = t(takeArg(self, 1)); doneArgs(self); if (!a) { a = fv(nullptr, x); } bool nw; setRet(self, mkdef(std::string("uf:") + fn, {simpsom(a)}, nw).var); return gf(fn, x, 0); }
double se_uf2(const char *fn, double x, double y) { SELF(se_uf2); T a = t(takeArg(self, 1)), b = t(takeArg(self, 2)); doneArgs(self); bool nw; setRet(self, mkdef(std::string("uf:") + fn, {simpsom(fv(a, x)), simpsom(fv(b, y))}, nw).var); return gf(fn, x, y); }
void se_opt(const char *k, long v) { std::string s = k; if (s == "fp") OPT_FP = v; else if (s == "ite_loads") OPT_ITE = v; else if (s == "rlimit") OPT_RLIMIT = v; else if (s == "maxpaths") OPT_MAXPATHS = v; else if (s == "qsec") OPT_QSEC = v; else if (s == "fastfeas") OPT_FASTFEAS = v; else if (s == "terms") OPT_TERMS = v; else if (s == "text") OPT_TEXT = v; }
void se_note(const char *l, double v) { SELF(se_note); T s = t(takeArg(self, 1)); doneArgs(self); if (getenv("SE_DEBUG")) fprintf(stderr, "note %s = %s\n", l, s ? Z3_ast_to_string(C, s) : std::to_string(v).c_str()); }
}
static void z3err(Z3_context c, Z3_error_code e) { static char b[200]; snprintf(b, 200, "z3 error: %.150s", Z3_get_error_msg(c, e)); lost(b); }
static bool pathAlive = true;
static void crash(int sig) {
  signal(sig, SIG_DFL); SH->crashed++; char b[64]; snprintf(b, 64, "signal %d on a feasible path", sig); count_label(SH->why, 64, b);
  // the values that lead here are a counterexample: the real code crashes
  static char lab[64]; snprintf(lab, 64, "crash signal %d", sig); alarm(60); Z3_model m = nullptr; std::vector<T> q = pc; q.push_back(TRUE_);
  if (!OPT_FP && search({TRUE_}, 200) && write_wit(lab, false)) { SH->failed++; path_end(); }
  if (check(q, &m) == Z3_L_TRUE || pc.empty()) { SH->failed++; if (m) write_cex(lab, m, {TRUE_}); else { long n = SH->cex++; char fn[600]; snprintf(fn, 600, "%s/cex_%ld.txt", OUT, n); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "label %s\n", lab); for (auto &c : chosen) fprintf(f, "choose %s %s\n", c.first.c_str(), c.second.c_str()); fclose(f); } } }
  path_end(); }
static void init() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_set_error_handler(C, z3err); RS = Z3_mk_real_sort(C); FS = Z3_mk_fpa_sort_double(C); F32 = Z3_mk_fpa_sort_single(C); RM = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C);
  TRUE_ = Z3_mk_true(C); FALSE_ = Z3_mk_false(C); POSINF = Z3_mk_const(C, Z3_mk_string_symbol(C, "+inf"), RS); NEGINF = Z3_mk_const(C, Z3_mk_string_symbol(C, "-inf"), RS); NANT = Z3_mk_const(C, Z3_mk_string_symbol(C, "nan"), RS);
  SOM = Z3_mk_params(C); Z3_params_inc_ref(C, SOM); Z3_params_set_bool(C, SOM, Z3_mk_string_symbol(C, "som"), true); Z3_params_set_uint(C, SOM, Z3_mk_string_symbol(C, "som_blowup"), 1000000u); Z3_params_set_bool(C, SOM, Z3_mk_string_symbol(C, "hoist_ite"), false);
  inited = true; }
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }
int main(int argc, char **argv) {
  OUT = getenv("SE_OUT") ? getenv("SE_OUT") : "."; long jobs = getenv("SE_JOBS") ? atol(getenv("SE_JOBS")) : 8;
  void *mem = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH = (Shared *)mem; SH->tokens = jobs - 1;
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  pid_t p = fork();
  if (p == 0) { init(); signal(SIGALRM, onalarm); 
    stack_t ss; ss.ss_sp = malloc(1 << 22); ss.ss_size = 1 << 22; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    try { se_main(); } catch (...) { doassert(FALSE_, "uncaught exception"); } path_end(); }
  int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { SH->crashed++; count_label(SH->why, 64, "root killed by signal"); }
  clock_gettime(CLOCK_MONOTONIC, &t1);
  char fn[600]; snprintf(fn, 600, "%s/summary.json", OUT); FILE *f = fopen(fn, "w");
  fprintf(f, "{\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"asserts\":%ld,\"proved\":%ld,\"syntactic\":%ld,\"failed\":%ld,\"unknown\":%ld,\"lost\":%ld,\"crashed\":%ld,\"aborted\":%ld,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"unknown_branches\":%ld,\"div0\":%ld,\"searched\":%ld,\"cex\":%ld,\"wall_s\":%.3f,\n", SH->paths.load(), SH->forks.load(), SH->queries.load(), SH->asserts.load(), SH->proved.load(), SH->syntactic.load(), SH->failed.load(), SH->unknown.load(), SH->lost.load(), SH->crashed.load(), SH->aborted.load(), SH->nanos.load() * 1e-9, SH->maxns.load() * 1e-9, SH->unkbranch.load(), SH->div0.load(), SH->searched.load(), SH->cex.load(), (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec));
  auto lst = [&](const char *n, Label *l, int k) { fprintf(f, "\"%s\":{", n); std::map<std::string, long> mm; for (int i = 0; i < k && l[i].n[0]; i++) mm[l[i].n] += l[i].c; bool c = false; for (auto &e : mm) { if (c) fputc(',', f); c = true; json_str(f, e.first.c_str()); fprintf(f, ":%ld", e.second); } fprintf(f, "},\n"); };
  lst("reach", SH->reach, 256); lst("why", SH->why, 64); lst("labels", SH->lab, 512);
  fprintf(f, "\"functions\":["); bool c = false; for (auto &x : SH->fns) { Fn *q = x; if (!q) continue; if (c) fputc(',', f); c = true; fputc('[', f); json_str(f, q->name); fputc(',', f); json_str(f, q->file); fputc(']', f); } fprintf(f, "]}\n"); fclose(f);
  return 0; }

// Calls of one function of the math library are routed through the harness.
#include <cmath>
#include <cstdlib>
#ifdef RENAME_expm1
extern "C" double se_expm1(double);
namespace std { using ::se_expm1; inline float se_expm1(float x) { return __builtin_expm1f(x); } inline long double se_expm1(long double x) { return __builtin_expm1l(x); } }
#define expm1 se_expm1
#endif
#ifdef RENAME_exp
extern "C" double se_exp(double);
namespace std { using ::se_exp; inline float se_exp(float x) { return __builtin_expf(x); } inline long double se_exp(long double x) { return __builtin_expl(x); } }
#define exp se_exp
#endif
#ifdef RENAME_pow
extern "C" double se_pow(double, double);
namespace std { using ::se_pow; inline float se_pow(float x, float y) { return __builtin_powf(x, y); } inline long double se_pow(long double x, long double y) { return __builtin_powl(x, y); } }
#define pow se_pow
#endif
#ifdef RENAME_erfc
extern "C" double se_erfc(double);
namespace std { using ::se_erfc; inline float se_erfc(float x) { return __builtin_erfcf(x); } inline long double se_erfc(long double x) { return __builtin_erfcl(x); } }
#define erfc se_erfc
#endif

// C05: solution updates of the field equations and the errors they report.
#define THREE 1
#include "eq.h"
#include "Permutation.hh"
#include "dsException.hh"
#ifdef DEVSIM_EXTENDED_PRECISION
#include "Float128.hh"
#endif
using EquationEnum::UpdateType;
static double ab(double x) { return x < 0 ? -x : x; }
#ifndef EQT
#define EQT double
#endif
static Equation<EQT> *last;
static EquationHolder mk(Region *r, const char *nm, const char *var, UpdateType u) { last = new ExprEquation<EQT>(nm, r, var, "", "", "", "", "", "", "", u); EquationHolder h(last); r->AddEquation(h); return h; }
struct Check { double aerr, rerr; };
static void rules(int kind, const V &o, const V &u, const V &n, std::vector<double> &step) {
  for (size_t i = 0; i < o.size(); i++) { step.push_back(n[i] - o[i]);
    if (kind == 0) se_assert_eq(n[i], o[i] + u[i], "default update adds the step");
    else if (kind == 1) { se_assert(n[i] > 0, "positive update stays positive"); if (o[i] + u[i] > 0) se_assert_eq(n[i], o[i] + u[i], "positive update adds an allowed step"); else se_assert(n[i] <= o[i], "limited step goes in the direction of the step"); }
    else { double s = n[i] - o[i]; if (u[i] > 0) { se_assert(s > 0, "log damping keeps the sign"); se_assert(s <= u[i], "log damping never enlarges the step"); } else if (u[i] < 0) { se_assert(s < 0, "log damping keeps the sign"); se_assert(s >= u[i], "log damping never enlarges the step"); } else se_assert(s == 0, "log damping keeps the sign");
      if (ab(u[i]) <= 0.0259) se_assert_eq(s, u[i], "small steps are unchanged"); } } }
static void errors(EquationHolder &h, const V &n, const std::vector<double> &step, double me) {
  double a = h.GetAbsError<double>(), r = h.GetRelError<double>(); bool ea = false, er = false; size_t ia = h.GetAbsErrorNodeIndex(), ir = h.GetRelErrorNodeIndex(); se_assert(ia < n.size() && ir < n.size(), "error node exists");
  for (size_t i = 0; i < n.size(); i++) { se_assert(a >= ab(step[i]), "absolute error bounds every step"); se_assert(r * (ab(n[i]) + me) >= ab(step[i]), "relative error bounds every relative step");
    if (i == ia) { se_assert_eq(a, ab(step[i]), "absolute error is the step of its node"); } if (i == ir) se_assert_eq(r * (ab(n[i]) + me), ab(step[i]), "relative error is the relative step of its node"); } }
void se_main() {
  se_opt("text", 1); // numbers in messages are not part of the claim
  Mesh m(1); for (int i = 0; i < NODES; i++) m.coord(i); std::vector<int> idx; std::vector<std::vector<int>> el; for (int i = 0; i < NODES; i++) { idx.push_back(i); if (i) el.push_back({i - 1, i}); } Region *r = m.region("r", idx, el); size_t N = r->GetNumberNodes();
#if MODE == 0 // one equation, every rule
  int kind = se_choose("rule", 3), base = se_choose("base", 2) ? 5 : 0, other = se_choose("other equation first", 2);
  V o = symv("old", N), u = symv("step", N), w = symv("w", N); nsol(r, "u", o); nsol(r, "w", w); if (other) mk(r, "b", "w", UpdateType::DEFAULT);
  EquationHolder h = mk(r, "a", "u", kind == 0 ? UpdateType::DEFAULT : kind == 1 ? UpdateType::POSITIVE : UpdateType::LOGDAMP); r->SetBaseEquationNumber(base); double me = 1e-10;
  if (se_choose("set", 2)) { ((Equation<EQT>*)last)->setMinError(0.125); me = 0.125; }
  V res = symv("x", base + (other ? 2 : 1) * N); size_t ro = base + (other ? N : 0); for (size_t i = 0; i < N; i++) u[i] = res[ro + i];
  bool bad = false, threw = false; if (kind == 1) for (size_t i = 0; i < N; i++) if (o[i] <= 0) bad = true;
  NodeModelPtr nm = std::const_pointer_cast<NodeModel, const NodeModel>(r->GetNodeModel("u"));
#ifdef DEVSIM_EXTENDED_PRECISION
  if (se_choose("precision", 2)) { std::vector<float128> q; for (double x : res) q.push_back(float128(x)); try { h.Update(*nm, q); } catch (const dsException &) { threw = true; } } else
#endif
  { try { h.Update(*nm, res); } catch (const dsException &) { threw = true; } }
  se_assert(threw == bad, "non-positive starting values are refused"); V n = nval(r, "u");
  if (threw) { for (size_t i = 0; i < N; i++) se_assert_eq(n[i], o[i], "a refused update changes nothing"); se_reach("refused"); return; }
  std::vector<double> step; rules(kind, o, u, n, step); errors(h, n, step, me); V w2 = nval(r, "w"); for (size_t i = 0; i < N; i++) se_assert_eq(w2[i], w[i], "other variables stay"); se_reach("updated");
#elif MODE == 1 // errors of regions and devices
  std::vector<Region *> rs = {r, m.region("s", idx, el)}; std::vector<EquationHolder> hs; std::vector<V> ns; const char *V_[2] = {"u", "w"}; size_t total = 0; int ne[2] = {1 + se_choose("equations", 2), se_choose("second", 2)}; std::vector<V> O;
  for (int k = 0; k < 2; k++) for (int j = 0; j < ne[k]; j++) { O.push_back(symv("old", N)); nsol(rs[k], V_[j], O.back()); hs.push_back(mk(rs[k], j ? "e1" : "e0", V_[j], UpdateType::DEFAULT)); total += N; }
  m.dev->SetBaseEquationNumber(0); size_t mx = m.dev->CalcMaxEquationNumber(false); se_assert(mx + 1 == total, "unknowns"); V res = symv("x", total);
  m.dev->Update(res); double A = m.dev->GetAbsError<double>(), R = m.dev->GetRelError<double>(); size_t q = 0; double zero = 0;
  for (int k = 0; k < 2; k++) for (int j = 0; j < ne[k]; j++, q++) { V n = nval(rs[k], V_[j]); size_t b = rs[k]->GetBaseEquationNumber() + rs[k]->GetEquationIndex(j ? "e1" : "e0") * N; for (size_t i = 0; i < N; i++) { se_assert_eq(n[i], O[q][i] + res[b + i], "every equation takes its own steps"); zero = zero + ab(res[b + i]);
      se_assert(rs[k]->GetAbsError<double>() >= ab(res[b + i]), "region error bounds every step"); se_assert(A >= ab(res[b + i]), "device error bounds every step"); } se_assert(R >= hs[q].GetRelError<double>() && rs[k]->GetRelError<double>() >= hs[q].GetRelError<double>(), "device error bounds the relative error of every equation"); }
  if (zero == 0) se_assert(A == 0 && R == 0, "no step, no error"); se_reach("device");
#else // small signal and noise results
  std::vector<std::complex<double>> x; for (size_t i = 0; i < 2 * N; i++) { double a = se_real("re"), b = se_real("im"); x.push_back({a, b}); }
  V o = symv("old", N); nsol(r, "u", o); nsol(r, "w", symv("w", N)); mk(r, "b", "w", UpdateType::DEFAULT); EquationHolder h = mk(r, "a", "u", UpdateType::DEFAULT); r->SetBaseEquationNumber(0);
  NodeModelPtr nm = std::const_pointer_cast<NodeModel, const NodeModel>(r->GetNodeModel("u"));
  if (se_choose("kind", 2) == 0) { h.ACUpdate<double>(*nm, x); if (se_choose("again", 2)) { for (auto &c : x) { double a = se_real("re2"), b = se_real("im2"); c = {a, b}; } h.ACUpdate<double>(*nm, x); } V a = nval(r, "u_Real"), b = nval(r, "u_Imag"), n = nval(r, "u"); for (size_t i = 0; i < N; i++) { se_assert_eq(a[i], x[N + i].real(), "real part"); se_assert_eq(b[i], x[N + i].imag(), "imaginary part"); se_assert_eq(n[i], o[i], "bias point stays"); } se_reach("ac"); }
  else { std::vector<PermutationEntry> p; for (size_t i = 0; i < 2 * N; i++) { int c = i < N ? 0 : se_choose("row", 3); p.push_back(PermutationEntry(c == 0 ? i : c == 1 ? size_t(-1) : 2 * N - 1 - i, false)); }
    h.NoiseUpdate<double>("out", p, x); V a = nval(r, "out_a_real"), b = nval(r, "out_a_imag"); for (size_t i = 0; i < N; i++) { size_t row = p[N + i].GetRow(); se_assert_eq(a[i], row == size_t(-1) ? 0.0 : x[row].real(), "noise real part"); se_assert_eq(b[i], row == size_t(-1) ? 0.0 : x[row].imag(), "noise imaginary part"); } se_reach("noise"); }
#endif
}

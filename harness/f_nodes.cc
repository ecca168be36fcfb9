// F02: numbering, solutions and updates of the circuit.
#include "se.h"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#include "dsException.hh"
#include <set>
#include <map>
#include <string>
static double ab(double x) { return x < 0 ? -x : x; }
void se_main() {
  se_opt("text", 1); NodeKeeper &nk = NodeKeeper::instance(); const char *N[4] = {"0", "b", "a", "c"}; std::map<std::string, std::pair<bool, int>> ref; std::map<std::string, std::string> alias;
#ifndef THOROUGH
  nk.AddNode("aa"); ref["aa"] = {false, 0};
#endif
  for (int i = 0; i < OPS; i++) { int op = se_choose("operation", 9); if (op < 8) { static const int K[8] = {0, 0, 1, 1, 2, 2, 3, 3}, U[8] = {0, 0, 0, 0, 1, 2, 1, 2}; int k = K[op], u = U[op]; bool g = op % 2 && k < 2; auto ut = u == 0 ? CircuitUpdateType::DEFAULT : u == 1 ? CircuitUpdateType::LOGDAMP : CircuitUpdateType::POSITIVE; nk.AddNode(N[k], g ? CircuitNodeType::GROUND : k == 3 ? CircuitNodeType::INTERNAL : CircuitNodeType::DEFAULT, ut); if (!ref.count(N[k])) ref[N[k]] = {g, u}; }
    else { bool ok = ref.count("b") && !ref.count("z"), threw = false; try { nk.AddNodeAlias("z", "b"); } catch (const dsException &) { threw = true; } se_assert(threw == !ok, "alias of an unknown node is refused"); if (ok) alias["z"] = "b"; } }
  bool ground = false; size_t n = 0; for (auto &e : ref) if (e.second.first) ground = true; else n++; if (!ground) { nk.AddNode("g", CircuitNodeType::GROUND); ref["g"] = {true, 0}; } if (!n) return;
  size_t base = se_choose("start", 2) ? 5 : 0; nk.SetNodeNumbers(base, false); se_assert(nk.getNumberNodes() == n && nk.GetMinEquationNumber() == base && nk.GetMaxEquationNumber() == base + n - 1, "range of rows"); std::set<size_t> rows;
  for (auto &e : ref) { size_t q = nk.GetEquationNumber(e.first); se_assert(nk.IsCircuitNode(e.first), "node exists"); if (e.second.first) se_assert(q == size_t(-1) && nk.GetIndexNumber(e.first) == size_t(-1), "ground has no row"); else { se_assert(q >= base && q < base + n, "row in range"); se_assert(rows.insert(q).second, "rows are distinct"); if (q < base || q >= base + n) return; } }
  for (auto &e : alias) se_assert(nk.IsCircuitNode(e.first) && nk.GetEquationNumber(e.first) == nk.GetEquationNumber(e.second), "alias has the row of its node");
  for (const char *x : {"q", "z"}) if (!ref.count(x) && !alias.count(x)) se_assert(!nk.IsCircuitNode(x) && nk.GetEquationNumber(x) == size_t(-1), "unknown node has no row");
  se_assert(!nk.IsCircuitSolution("dc"), "no solution yet"); nk.CreateSolution("dc"); nk.InitializeSolution("dc"); nk.InitializeSolution("two"); se_assert(nk.IsCircuitSolution("dc") && nk.IsCircuitSolution("two"), "solutions exist"); bool threw = false; try { nk.AddNode("late"); } catch (const dsException &) { threw = true; } se_assert(threw, "no node after an analysis");
  std::map<std::string, double> o; for (auto &e : ref) { se_assert_eq(nk.GetNodeValue("dc", e.first), 0.0, "solutions start at zero"); double v = se_real("old"); if (e.second.second == 2) se_assume(v > 0); nk.SetNodeValue("dc", e.first, v); o[e.first] = e.second.first ? 0.0 : v; }
  if (alias.count("z") && se_choose("through the alias", 2)) { double v = se_real("alias"); if (ref["b"].second == 2) se_assume(v > 0); nk.SetNodeValue("dc", "z", v); o["b"] = ref["b"].first ? 0.0 : v; }
  for (auto &e : ref) { se_assert_eq(nk.GetNodeValue("dc", e.first), o[e.first], "values are read back"); se_assert_eq(nk.GetNodeValue("two", e.first), 0.0, "other solutions are independent"); } for (auto &e : alias) se_assert_eq(nk.GetNodeValue("dc", e.first), o[e.second], "values are read back through an alias");
#if MODE == 1
  { std::vector<std::complex<double>> x(base + n); for (auto &c : x) { double a = se_real("re"), b = se_real("im"); c = {a, b}; } nk.ACUpdateSolution("dc", "two", x); for (auto &e : ref) { size_t q = nk.GetEquationNumber(e.first); se_assert_eq(nk.GetNodeValue("dc", e.first), q == size_t(-1) ? 0.0 : x[q].real(), "real part"); se_assert_eq(nk.GetNodeValue("two", e.first), q == size_t(-1) ? 0.0 : x[q].imag(), "imaginary part"); } se_reach("ac"); return; }
#else
  std::vector<double> x(base + n); for (auto &v : x) v = se_real("step"); for (auto &e : ref) if (e.second.second == 2) se_assume(x[nk.GetEquationNumber(e.first)] > -6 * o[e.first]);
  nk.UpdateSolution("dc", x); double A = nk.GetAbsError("dc"), R = nk.GetRelError("dc"), S = 0; bool some = false;
  for (auto &e : ref) { double v = nk.GetNodeValue("dc", e.first), s = v - o[e.first]; if (e.second.first) { se_assert_eq(v, 0.0, "ground stays"); continue; } double u = x[nk.GetEquationNumber(e.first)];
    if (e.second.second == 0) se_assert_eq(s, u, "default update adds the step"); else if (e.second.second == 2) { se_assert(v > 0, "positive update stays positive"); if (o[e.first] + u > 0) se_assert_eq(s, u, "positive update adds an allowed step"); else se_assert(s <= 0 && s >= u, "limited step goes in the direction of the step"); }
    else { if (u > 0) se_assert(s > 0 && s <= u, "log damping keeps the sign and never enlarges"); else if (u < 0) se_assert(s < 0 && s >= u, "log damping keeps the sign and never enlarges"); else se_assert(s == 0, "log damping keeps the sign and never enlarges"); if (ab(u) <= 0.0259) se_assert_eq(s, u, "small steps are unchanged"); }
    se_assert(A >= ab(s), "absolute error bounds every step"); se_assert(R * (ab(v) + 1e-10) >= ab(s), "relative error bounds every relative step"); S = S + ab(s); }
  se_assert_eq(A, S, "absolute error is the sum of the steps"); if (S == 0) se_assert(R == 0, "no step, no error");
  nk.CopySolution("dc", "two"); for (auto &e : ref) se_assert_eq(nk.GetNodeValue("two", e.first), nk.GetNodeValue("dc", e.first), "copy of a solution"); nk.SetNodeValue("dc", "a", 3.5); if (ref.count("a") && !ref["a"].first) se_assert_eq(nk.GetNodeValue("dc", "a"), 3.5, "values are read back after an update"); se_reach("updated");
#endif
}

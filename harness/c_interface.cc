// C04: interface equations. Models linear in the variables of both regions with arbitrary coefficients (see c_contact.cc).
#define THREE 1
#include "eq.h"
#include "Permutation.hh"
#include "InterfaceExprEquation.hh"
#include "InterfaceEquationHolder.hh"
#include "ExprContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "dsException.hh"
#include <set>
using namespace dsMathEnum;
static const char *VARS[2] = {"u", "w"};
struct Given : InterfaceNodeModel { V v; Given(const std::string &n, InterfacePtr i, const V &x) : InterfaceNodeModel(n, i), v(x) {} void derived_init() override {} void calcNodeScalarValues() const override { InterfaceNodeModel::SetValues(v); } void Serialize(std::ostream &) const override {} };
static void given(Interface *i, const std::string &n, const V &v) { InterfaceNodeModelPtr p = std::make_shared<Given>(n, i, v); i->AddInterfaceNodeModel(p); }
static void contact(Mesh &m, const char *nm, Region *r, const Node *n, const char *eq) { ConstNodeList_t l = {n}; Contact *c = new Contact(nm, r, l, "metal"); m.dev->AddContact(c); if (*eq) { nsol(r, "zero", V(r->GetNumberNodes(), 0.0)); auto *q = new ExprContactEquation<double>(eq, "", c, r, "zero", "", "", "", "", "", "", "", "", "", "", ""); ContactEquationHolder h(static_cast<ContactEquation<double> *>(q)); c->AddEquation(h); } }
void se_main() {
  Mesh m(2); m.coord(0, 0); m.coord(1, 0); m.coord(0, 1); m.coord(1.25, 1.5); m.coord(-1, 0.25);
  Region *r[2] = {m.region("a", {0, 1, 2}, {{0, 1, 2}}), m.region("b", {3, 2, 1}, {{0, 1, 2}})}, *r3 = m.region("c", {0, 2, 4}, {{0, 1, 2}}); int order = se_choose("order", 2); if (order) std::swap(r[0], r[1]);
  auto node = [&](int k, int c) -> const Node * { for (auto *n : r[k]->GetNodeList()) if (&n->GetCoordinate() == m.coords[c]) return n; return nullptr; };
  ConstNodeList_t n0 = {node(0, 1), node(0, 2)}, n1 = {node(1, 1), node(1, 2)}; Interface *it = new Interface("i", r[0], r[1], n0, n1); m.dev->AddInterface(it);
  V X[2][2], sa[2]; for (int k = 0; k < 2; k++) { for (int v = 0; v < 2; v++) { X[k][v] = symv("x", 3); nsol(r[k], VARS[v], X[k][v]); } sa[k] = symv("sa", 3); nsol(r[k], "area", sa[k]); par(r[k], "surface_area_model", "area"); }
  int names = se_choose("names", 2), type = se_choose("type", 3), claim = se_choose("claim", 11), w = se_choose("load", 4), missing = se_choose("missing derivatives", 3); const char *E0 = "e", *E1 = names ? "f" : "e";
  size_t base[2] = {4, 10}; if (order) std::swap(base[0], base[1]);
  for (int k = 0; k < 2; k++) { const char *own = k ? E1 : E0; bool first = k == 0; if (!first) equation(r[k], "other", VARS[1]); equation(r[k], own, VARS[0]); if (first) equation(r[k], "other", VARS[1]); r[k]->SetBaseEquationNumber(base[k]); }
  equation(r3, "e", VARS[0]);
  V f(2, 0.0); for (int k = 0; k < 2; k++) for (int v = 0; v < 2; v++) { if (missing == 1 + k && v) continue; V d = symv("d", 2); given(it, std::string("M:") + VARS[v] + (k ? "@r1" : "@r0"), d); for (int i = 0; i < 2; i++) f[i] = f[i] + d[i] * X[k][v][(k ? n1 : n0)[i]->GetIndex()]; } given(it, "M", f);
  // claims on the interface node 1: contact with the equation of region 0 / 1, contact with another equation, contact without equation, another interface with the same / another equation
  bool active[2] = {true, true};
  if (claim == 1) { contact(m, "k", r[0], n0[1], E0); active[1] = false; } if (claim == 2) { contact(m, "k", r[1], n1[1], E1); active[1] = false; } if (claim == 3) contact(m, "k", r[0], n0[1], "other"); if (claim == 4) contact(m, "k", r[1], n1[1], "");
  InterfaceExprEquationEnum::EquationType T = type == 0 ? InterfaceExprEquationEnum::CONTINUOUS : type == 1 ? InterfaceExprEquationEnum::FLUXTERM : InterfaceExprEquationEnum::HYBRID;
  if (claim >= 5) { // 5/6 region 0 first, 7/8 region 0 second, 9/10 region 1 second; odd: the same equation, even: another one (whose partner in the third region has the name of the own equation)
    const Node *o = nullptr; for (auto *n : r3->GetNodeList()) if (&n->GetCoordinate() == m.coords[2]) o = n; int k = claim >= 9; bool same = claim % 2; const char *own = k ? E1 : E0; ConstNodeList_t a = {k ? n1[1] : n0[1]}, b = {o};
    Interface *i2 = claim < 7 ? new Interface("j", r[k], r3, a, b) : new Interface("j", r3, r[k], b, a); m.dev->AddInterface(i2); const char *x = same ? own : "other", *y = claim < 7 ? "e" : same ? "foreign" : own;
    auto *q = new InterfaceExprEquation<double>("z", claim < 7 ? x : y, claim < 7 ? y : x, i2, "M2", T); InterfaceEquationHolder h(static_cast<InterfaceEquation<double> *>(q)); i2->AddInterfaceEquation(h); if (same) active[1] = false; }
  auto *q = new InterfaceExprEquation<double>("q", E0, E1, it, "M", T); InterfaceEquationHolder h(static_cast<InterfaceEquation<double> *>(q)); it->AddInterfaceEquation(h);
  WhatToLoad W = w == 0 ? WhatToLoad::RHS : w == 1 ? WhatToLoad::MATRIXONLY : w == 2 ? WhatToLoad::MATRIXANDRHS : WhatToLoad::PERMUTATIONSONLY;
  MV mm; RV rr; PermutationMap p; it->Assemble(mm, rr, p, W, TimeMode::DC); { MV a; RV b; PermutationMap c; it->Assemble(a, b, c, w == 3 ? WhatToLoad::MATRIXANDRHS : W, TimeMode::TIME); se_assert(a.empty() && b.empty() && c.empty(), "no time dependent terms"); }
  auto row = [&](int k, int i) { return r[k]->GetEquationNumber(r[k]->GetEquationIndex(k ? E1 : E0), (k ? n1 : n0)[i]); };
  if (w == 3) { se_assert(mm.empty() && rr.empty(), "no entries with the permutations"); size_t want = 0; for (int i = 0; i < 2; i++) if (active[i] && type != 1) { want++; auto s = p.find(row(1, i)); se_assert(s != p.end(), "row of the second region is moved"); if (s == p.end()) return; se_assert(s->second.GetRow() == row(0, i) && s->second.KeepCopy() == (type == 2), "row goes to the node of the first region"); } se_assert(p.size() == want, "no other row is moved"); se_reach("permutation"); return; }
  se_assert(p.empty(), "no permutations with the entries"); if (w == 0) se_assert(mm.empty(), "no matrix entries asked for"); if (w == 1) se_assert(rr.empty(), "no residual asked for");
  Row R = sum(rr), x; Mat J = sum(mm);
  for (int i = 0; i < 2; i++) if (active[i]) { if (type == 1) add(x, row(0, i), f[i] * sa[0][n0[i]->GetIndex()]); add(x, row(1, i), type == 0 ? f[i] : -(f[i] * sa[1][n1[i]->GetIndex()])); }
  for (auto &e : R) se_assert(x.count(e.first), "only rows of the interface are touched"); for (auto &e : J) se_assert(x.count(e.first.first), "only rows of the interface are touched");
  for (auto &y : x) { if (w != 1) se_assert_eq(at(R, y.first), y.second, "residual of the interface rows");
    if (w > 0) { double s = 0; for (int k = 0; k < 2; k++) for (int v = 0; v < 2; v++) for (size_t n = 0; n < 3; n++) s = s + at(J, y.first, r[k]->GetEquationNumber(r[k]->GetEquationIndex(r[k]->GetEquationNameFromVariable(VARS[v])), r[k]->GetNodeList()[n])) * X[k][v][n]; se_assert_eq(s, y.second, "matrix entries are derivatives of the interface terms"); } }
  for (auto &e : J) { size_t c = e.first.second; se_assert((c >= 4 && c < 16), "columns are unknowns of the two regions"); }
  se_reach("interface");
}

// C03: contact equations. As in c_bulk.cc all models are linear in the variables (and the value of the circuit node) with
// arbitrary coefficients, so the matrix entries are the derivatives iff residual = matrix * values for all values.
#include "eq.h"
#include "ExprContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#include "Permutation.hh"
#include <set>
using namespace dsMathEnum;
static Region *r; static size_t N; static std::vector<V> X; static double C; static bool circ;
static const char *VARS[2] = {"u", "w"};
static V nodeModel(const char *nm) { V f(N, 0.0); for (int v = 0; v < NV; v++) { V d = symv("dn", N); nsol(r, std::string(nm) + ":" + VARS[v], d); for (size_t i = 0; i < N; i++) f[i] = f[i] + d[i] * X[v][i]; }
  if (circ) { V d = symv("dc", N); nsol(r, std::string(nm) + ":cn", d); for (size_t i = 0; i < N; i++) f[i] = f[i] + d[i] * C; } nsol(r, nm, f); return f; }
static V edgeModel(const char *nm) { size_t n = r->GetNumberEdges(); V f(n, 0.0);
  for (int v = 0; v < NV; v++) for (int k = 0; k < 2; k++) { V d = symv("de", n); esol(r, std::string(nm) + ":" + VARS[v] + "@n" + std::to_string(k), d); for (size_t i = 0; i < n; i++) { auto *e = r->GetEdgeList()[i]; f[i] = f[i] + d[i] * X[v][(k ? e->GetTail() : e->GetHead())->GetIndex()]; } }
  if (circ) { V d = symv("dc", n); esol(r, std::string(nm) + ":cn", d); for (size_t i = 0; i < n; i++) f[i] = f[i] + d[i] * C; } esol(r, nm, f); return f; }
static void put(const std::string &nm, const V &v) { if (r->GetDimension() == 2) tsol(r, nm, v); else ttsol(r, nm, v); }
static V elemModel(const char *nm, const std::vector<EE> &E) { size_t n = E.size(); V f(n, 0.0);
  for (int v = 0; v < NV; v++) for (int k = 0; k < E[0].k; k++) { V d = symv("dt", n); put(std::string(nm) + ":" + VARS[v] + "@en" + std::to_string(k), d); for (size_t i = 0; i < n; i++) f[i] = f[i] + d[i] * X[v][E[i].n[k]]; }
  if (circ) { V d = symv("dc", n); put(std::string(nm) + ":cn", d); for (size_t i = 0; i < n; i++) f[i] = f[i] + d[i] * C; } put(nm, f); return f; }
struct CE { Contact *c; ContactEquation<double> *p; std::set<size_t> nodes, own; };
void se_main() {
  Mesh m(DIM); r = eqmesh(m); N = r->GetNumberNodes(); size_t M = r->GetNumberEdges(); auto E = elemEdges(r);
  for (int v = 0; v < 2; v++) { X.push_back(symv("x", N)); nsol(r, VARS[v], X[v]); } C = se_real("c");
  // kinds of internal terms: 0 node only, 1 edge, 2 edge volume, 3 two edge volumes, 4 element, 5 element volume, 6 two of them; kinds of terminal terms: 0 none, 1 node, 2 edge, 3 element, 4 all
  int kind = se_choose("kind", DIM == 1 ? 4 : 7), term = kind ? 0 : se_choose("terminal", 5), time = term ? se_choose("time", 2) : 0, cn = se_choose("circuit", 3), w = se_choose("load", 3); // circuit: none, node, ground
  if (DIM == 1 && term == 3) return;
  int layout = se_choose("contacts", 3); // one contact; two sharing a node, one of them without the equation; two sharing a node with the same equation
  circ = cn == 1; bool two = kind == 6;
  V nv = symv("nv", N), ec = symv("ec", M), e0 = symv("e0", M), e1 = kind == 3 ? symv("e1", M) : e0, tc = symv("tc", E.size()), t0 = symv("t0", E.size()), t1 = two ? symv("t1", E.size()) : t0;
  nsol(r, "nvol", nv); esol(r, "ecpl", ec); esol(r, "ev0", e0); esol(r, "ev1", e1); par(r, "node_volume_model", "nvol"); par(r, "edge_couple_model", "ecpl"); par(r, "edge_node0_volume_model", "ev0"); par(r, "edge_node1_volume_model", kind == 3 ? "ev1" : "ev0");
  if (DIM > 1) { put("tcpl", tc); put("tv0", t0); put("tv1", t1); } par(r, "element_edge_couple_model", "tcpl"); par(r, "element_node0_volume_model", "tv0"); par(r, "element_node1_volume_model", two ? "tv1" : "tv0");
  bool he = kind == 1, hv = kind == 2 || kind == 3, hl = kind == 4, hw = kind >= 5, qn = term == 1 || term == 4, qe = term == 2 || term == 4, ql = DIM > 1 && (term == 3 || term == 4);
  V fn = nodeModel("N"), fe, fv, fl, f0, f1, cnm, cem, clm; if (he) fe = edgeModel("F"); if (hv) fv = edgeModel("Q"); if (hl) fl = elemModel("L", E); if (hw) { f0 = elemModel("A", E); f1 = two ? elemModel("B", E) : f0; }
  if (qn) cnm = nodeModel("CN"); if (qe) cem = edgeModel("CE"); if (ql) clm = elemModel("CL", E);
  size_t base = 3; r->SetBaseEquationNumber(base); equation(r, "other", VARS[1]); equation(r, "eq", VARS[0]);
  NodeKeeper &nk = NodeKeeper::instance(); nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("aa"); nk.AddNode("cn"); nk.SetNodeNumbers(50, false); size_t crow = nk.GetEquationNumber("cn"); se_assert(crow == 51, "circuit row");
  const std::string cname = cn == 0 ? "" : cn == 1 ? "cn" : "0";
  std::vector<std::vector<int>> sets = DIM == 1 ? std::vector<std::vector<int>>{{0}, {0, 2}} : DIM == 2 ? std::vector<std::vector<int>>{{2, 0}, {2, 3}} : std::vector<std::vector<int>>{{0, 2, 1}, {1, 3}};
  std::vector<CE> ces; bool S = term && !time, Q = term && time;
  for (int k = 0; k < (layout ? 2 : 1); k++) { ConstNodeList_t cl; CE ce; for (int i : sets[k]) { cl.push_back(r->GetNodeList()[i]); ce.nodes.insert(i); }
    ce.c = new Contact(k ? "b" : "a", r, cl, "metal"); m.dev->AddContact(ce.c); ce.p = nullptr; ces.push_back(ce); }
  for (int k = 0; k < (int)ces.size(); k++) { if (layout == 1 && k == 0) { // only the second one has the equation "eq"; the first has another one
      auto *q = new ExprContactEquation<double>("other", "", ces[k].c, r, "N", "", "", "", "", "", "", "", "", "", "", ""); ContactEquationHolder h(static_cast<ContactEquation<double> *>(q)); ces[k].c->AddEquation(h); continue; }
    auto *q = new ExprContactEquation<double>("eq", k == (layout ? 1 : 0) ? cname : std::string(), ces[k].c, r, "N", he ? "F" : "", hv ? "Q" : "", hl ? "L" : "", hw ? "A" : "", hw ? (two ? "B" : "A") : "",
      S && qn ? "CN" : "", S && qe ? "CE" : "", S && ql ? "CL" : "", Q && qn ? "CN" : "", Q && qe ? "CE" : "", Q && ql ? "CL" : "");
    ces[k].p = q; ContactEquationHolder h(static_cast<ContactEquation<double> *>(q)); ces[k].c->AddEquation(h); }
  size_t co = base, ro = base + N; // columns of w, rows and columns of u
  std::set<size_t> want, got;
  for (auto &ce : ces) if (ce.p) { MV a; RV b; PermutationMap p; ce.p->Assemble(a, b, p, WhatToLoad::PERMUTATIONSONLY, TimeMode::DC); se_assert(a.empty() && b.empty(), "no entries with the permutations");
    for (auto &x : p) { se_assert(x.first >= ro && x.first < ro + N && x.second.GetRow() == size_t(-1) && !x.second.KeepCopy(), "replaced row belongs to the equation"); size_t i = x.first - ro; ce.own.insert(i); se_assert(ce.nodes.count(i), "only rows of contact nodes are replaced"); se_assert(!got.count(i), "a row is replaced by one contact only"); got.insert(i); }
    for (size_t i : ce.nodes) want.insert(i); }
  se_assert(want == got, "every row of a contact with the equation is replaced");
  WhatToLoad W = w == 0 ? WhatToLoad::RHS : w == 1 ? WhatToLoad::MATRIXONLY : WhatToLoad::MATRIXANDRHS;
  CE &ce = ces.back(); const std::set<size_t> &A = ce.own; MV mm; RV rr; PermutationMap p; ce.p->Assemble(mm, rr, p, W, time ? TimeMode::TIME : TimeMode::DC);
  if (w == 0) se_assert(mm.empty(), "no matrix entries asked for"); if (w == 1) se_assert(rr.empty(), "no residual asked for");
  Row R = sum(rr), x; Mat J = sum(mm);
  for (auto &q : R) se_assert((q.first >= ro && q.first < ro + N && A.count(q.first - ro) && !time) || (circ && q.first == crow), "only rows of the contact and its circuit node are touched");
  for (auto &q : J) { size_t a = q.first.first, b = q.first.second; se_assert((a >= ro && a < ro + N && A.count(a - ro) && !time) || (circ && a == crow), "only rows of the contact and its circuit node are touched"); se_assert((b >= base && b < base + 2 * N) || (circ && b == crow), "columns are unknowns"); }
  auto in = [&](size_t i) { return A.count(i) != 0; };
  if (!time) { for (size_t i : A) add(x, ro + i, nv[i] * fn[i]);
    for (auto *e : r->GetEdgeList()) { size_t i = e->GetIndex(), a = e->GetHead()->GetIndex(), b = e->GetTail()->GetIndex(); if (he) { if (in(a)) add(x, ro + a, ec[i] * fe[i]); if (in(b)) add(x, ro + b, -(ec[i] * fe[i])); } if (hv) { if (in(a)) add(x, ro + a, e0[i] * fv[i]); if (in(b)) add(x, ro + b, e1[i] * fv[i]); } }
    for (size_t i = 0; i < E.size(); i++) { size_t a = E[i].n[0], b = E[i].n[1]; if (hl) { if (in(a)) add(x, ro + a, tc[i] * fl[i]); if (in(b)) add(x, ro + b, -(tc[i] * fl[i])); } if (hw) { if (in(a)) add(x, ro + a, t0[i] * f0[i]); if (in(b)) add(x, ro + b, t1[i] * f1[i]); } } }
  double q = 0; // flux through the contact
  if (qn) for (size_t i : A) q = q + nv[i] * cnm[i];
  if (qe) for (auto *e : r->GetEdgeList()) { size_t i = e->GetIndex(); bool a = in(e->GetHead()->GetIndex()), b = in(e->GetTail()->GetIndex()); if (a && !b) q = q + ec[i] * cem[i]; if (b && !a) q = q - ec[i] * cem[i]; }
  if (ql) for (size_t i = 0; i < E.size(); i++) { bool a = in(E[i].n[0]), b = in(E[i].n[1]); if (a && !b) q = q + tc[i] * clm[i]; if (b && !a) q = q - tc[i] * clm[i]; }
  if (circ && term) add(x, crow, q);
  for (auto &y : x) { if (w != 1) se_assert_eq(at(R, y.first), y.second, y.first == crow ? "circuit node gets the flux through the contact" : "residual of a contact row");
    if (w > 0) { double s = 0; for (size_t j = 0; j < N; j++) s = s + at(J, y.first, ro + j) * X[0][j] + at(J, y.first, co + j) * X[1][j]; s = s + at(J, y.first, crow) * C; se_assert_eq(s, y.second, y.first == crow ? "circuit matrix entries are derivatives of the injected flux" : "matrix entries are derivatives of the contact residual"); } }
  ce.p->UpdateContact(); se_assert_eq(ce.p->GetCurrent(), S ? q : 0, "reported current"); se_assert_eq(ce.p->GetCharge(), Q ? q : 0, "reported charge");
  se_reach("contact");
}

// C01: conservation and weights of the assembled residual; C02: the assembled matrix is its derivative.
// The models are linear functions of the values x of the two solution variables with arbitrary coefficients, their derivative
// models are the coefficients; then the matrix is the derivative of the residual iff residual(x) = matrix * x for all x.
#include "eq.h"
using namespace dsMathEnum;
static Region *r; static size_t N; static std::vector<V> X; static V coef; // values of the variables
static const char *VARS[2] = {"u", "w"};
static double lin(const std::vector<std::pair<int, double>> &c, int v) { double s = 0; for (auto &p : c) s = s + p.second * X[v][p.first]; return s; }
#if JAC
static bool dep(int v) { return v == 0 || TWO; }
static std::vector<bool> used(2);
#endif
static V nodeModel(const char *nm) { V f(N, 0.0);
#if JAC
  for (int v = 0; v < 2; v++) if (dep(v)) { V d = symv("dn", N); nsol(r, std::string(nm) + ":" + VARS[v], d); for (size_t i = 0; i < N; i++) f[i] = f[i] + d[i] * X[v][i]; }
#else
  f = symv("n", N);
#endif
  nsol(r, nm, f); return f; }
static V edgeModel(const char *nm) { size_t n = r->GetNumberEdges(); V f(n, 0.0);
#if JAC
  for (int v = 0; v < 2; v++) if (dep(v)) for (int k = 0; k < 2; k++) { V d = symv("de", n); esol(r, std::string(nm) + ":" + VARS[v] + "@n" + std::to_string(k), d); for (size_t i = 0; i < n; i++) { auto *e = r->GetEdgeList()[i]; f[i] = f[i] + d[i] * X[v][(k ? e->GetTail() : e->GetHead())->GetIndex()]; } }
#else
  f = symv("e", n);
#endif
  esol(r, nm, f); return f; }
static void put(const std::string &nm, const V &v) { if (r->GetDimension() == 2) tsol(r, nm, v); else ttsol(r, nm, v); }
static V elemModel(const char *nm, const std::vector<EE> &E) { size_t n = E.size(); V f(n, 0.0);
#if JAC
  for (int v = 0; v < 2; v++) if (dep(v)) for (int k = 0; k < E[0].k; k++) { V d = symv("dt", n); put(std::string(nm) + ":" + VARS[v] + "@en" + std::to_string(k), d); for (size_t i = 0; i < n; i++) f[i] = f[i] + d[i] * X[v][E[i].n[k]]; }
#else
  f = symv("t", n);
#endif
  put(nm, f); return f; }
void se_main() {
  Mesh m(DIM); r = eqmesh(m); N = r->GetNumberNodes(); size_t M = r->GetNumberEdges(); auto E = elemEdges(r);
  for (int v = 0; v < 2; v++) { X.push_back(symv("x", N)); nsol(r, VARS[v], X[v]); }
  // kinds: 0 node, 1 edge, 2 edge volume (one model), 3 edge volume (two), 4 time node, 5 element, 6 element volume (one), 7 element volume models differ, 8 two volume models, 9 everything
  int kind = se_choose("kind", DIM == 1 ? 6 : 10); if (DIM == 1 && kind == 5) kind = 9; int w = se_choose("load", 3), first = se_choose("first", 2);
  WhatToLoad W = w == 0 ? WhatToLoad::RHS : w == 1 ? WhatToLoad::MATRIXONLY : WhatToLoad::MATRIXANDRHS;
  bool all = kind == 9;
  V nv = symv("nv", N), ec = symv("ec", M), e0 = symv("e0", M), e1 = kind == 3 ? symv("e1", M) : e0, tc = symv("tc", E.size()), t0 = symv("t0", E.size()), t1 = kind == 7 || kind == 8 ? symv("t1", E.size()) : t0;
  nsol(r, "nvol", nv); esol(r, "ecpl", ec); esol(r, "ev0", e0); esol(r, "ev1", e1); par(r, "node_volume_model", "nvol"); par(r, "edge_couple_model", "ecpl"); par(r, "edge_node0_volume_model", "ev0"); par(r, "edge_node1_volume_model", kind == 3 ? "ev1" : "ev0");
  if (DIM > 1) { put("tcpl", tc); put("tv0", t0); put("tv1", t1); par(r, "element_edge_couple_model", "tcpl"); par(r, "element_node0_volume_model", "tv0"); par(r, "element_node1_volume_model", kind == 7 || kind == 8 ? "tv1" : "tv0"); }
  bool hn = all || kind == 0, he = all || kind == 1, hv = all || kind == 2 || kind == 3, ht = kind == 4, hl = DIM > 1 && (all || kind == 5), hw = DIM > 1 && (all || (kind >= 6 && kind <= 8)), two = kind == 8;
  V fn, fe, fv, ft, fl, f0, f1; if (hn) fn = nodeModel("N"); if (ht) ft = nodeModel("T"); if (he) fe = edgeModel("F"); if (hv) fv = edgeModel("Q"); if (hl) fl = elemModel("L", E); if (hw) { f0 = elemModel("A", E); f1 = two ? elemModel("B", E) : f0; }
  size_t base = se_choose("base", 2) ? 7 : 0; r->SetBaseEquationNumber(base);
  if (!first) equation(r, "other", VARS[1]);
  EquationHolder eq = equation(r, "eq", VARS[0], hn ? "N" : "", he ? "F" : "", hv ? "Q" : "", hl ? "L" : "", hw ? "A" : "", hw ? (two ? "B" : "A") : "", ht ? "T" : "");
  if (first) equation(r, "other", VARS[1]);
  size_t ro = base + (first ? 0 : N), co = base + (first ? N : 0);
  MV mm; RV rr; eq.Assemble(mm, rr, W, ht ? TimeMode::TIME : TimeMode::DC);
  MV m2; RV r2; eq.Assemble(m2, r2, W, ht ? TimeMode::DC : TimeMode::TIME); se_assert(m2.empty() && r2.empty(), "static and time terms are kept apart");
  if (w == 0) se_assert(mm.empty(), "no matrix entries asked for"); if (w == 1) se_assert(rr.empty(), "no residual asked for");
  Row R = sum(rr); Mat J = sum(mm);
  for (auto &p : R) se_assert(p.first >= ro && p.first < ro + N, "row belongs to the equation"); for (auto &p : J) se_assert(p.first.first >= ro && p.first.first < ro + N && p.first.second >= base && p.first.second < base + 2 * N, "row belongs to the equation");
  Row x; // expected residual
  for (size_t i = 0; i < N; i++) { if (hn) add(x, i, nv[i] * fn[i]); if (ht) add(x, i, nv[i] * ft[i]); }
  for (auto *e : r->GetEdgeList()) { size_t i = e->GetIndex(), a = e->GetHead()->GetIndex(), b = e->GetTail()->GetIndex(); if (he) { add(x, a, ec[i] * fe[i]); add(x, b, -(ec[i] * fe[i])); } if (hv) { add(x, a, e0[i] * fv[i]); add(x, b, e1[i] * fv[i]); } }
  for (size_t i = 0; i < E.size(); i++) { size_t a = E[i].n[0], b = E[i].n[1]; if (hl) { add(x, a, tc[i] * fl[i]); add(x, b, -(tc[i] * fl[i])); } if (hw) { add(x, a, t0[i] * f0[i]); add(x, b, t1[i] * f1[i]); } }
#if JAC
  if (w > 0) for (size_t i = 0; i < N; i++) { double s = 0; for (int v = 0; v < 2; v++) for (size_t j = 0; j < N; j++) s = s + at(J, ro + i, (v ? co : ro) + j) * X[v][j];
    se_assert_eq(s, w == 2 ? at(R, ro + i) : at(x, i), "matrix is the derivative of the residual"); }
#endif
  if (w != 1) { for (size_t i = 0; i < N; i++) se_assert_eq(at(R, ro + i), at(x, i), "residual row is the sum of its weighted terms");
    if (he && !all) { double s = 0; for (size_t i = 0; i < N; i++) s = s + at(R, ro + i); se_assert_eq(s, 0, "flux leaving one node enters another"); } if (hl && !all) { double s = 0; for (size_t i = 0; i < N; i++) s = s + at(R, ro + i); se_assert_eq(s, 0, "flux leaving one node enters another"); } }
  se_reach("assembled");
}

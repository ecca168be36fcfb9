// D04: vector fields on the edges of elements, from scalar data on the edges.
#include "mesh.h"
#include "TriangleEdgeFromEdgeModel.hh"
#include "TriangleEdgeFromEdgeModelDerivative.hh"
#include "TriangleEdgePairFromEdgeModel.hh"
#include "TriangleEdgePairFromEdgeModelDerivative.hh"
#include "TetrahedronEdgeFromEdgeModel.hh"
#include "TetrahedronEdgeFromEdgeModelDerivative.hh"
#include "TetrahedronEdgePairFromEdgeModel.hh"
#include "TetrahedronEdgePairFromEdgeModelDerivative.hh"
#include "TriangleElementField.hh"
#include "TetrahedronElementField.hh"
#include "Vector.hh"
// The direction of every edge is arbitrary: only that three (two) edges meeting in a corner are independent is needed.
void se_main() {
  const int D = DIM, NE = D == 2 ? 3 : 6; Mesh m(D); for (int i = 0; i < D + 1 + TWO; i++) m.coord(i, i * i, i * i * i);
  std::vector<std::vector<int>> el = D == 2 ? std::vector<std::vector<int>>{{0, 1, 2}, {1, 2, 3}} : std::vector<std::vector<int>>{{0, 1, 2, 3}, {1, 2, 3, 4}}; if (!TWO) el.pop_back();
  static const unsigned F[3] = {0, 0x15, 0x3ea}; m.flip = F[se_choose("orientation", 3)]; std::vector<int> nn; for (int i = 0; i < D + 1 + TWO; i++) nn.push_back(i);
  Region *r = m.region("r", nn, el); size_t ne = r->GetNumberEdges(), nt = el.size(), n = nn.size(); const char *ax[3] = {"x", "y", "z"};
  std::vector<double> s[3]; for (int k = 0; k < D; k++) { s[k].resize(ne); for (size_t e = 0; e < ne; e++) s[k][e] = k == 2 && e > 2 ? 1.0 / (e + 1) : se_real("direction"); esol(r, std::string("unit") + ax[k], s[k]); }
  if (D == 2) { std::vector<double> w(3 * nt); for (auto &x : w) { x = se_real("couple"); se_assume(x > 0); } tsol(r, "ElementEdgeCouple", w); }
  double g[3] = {0, 0, 0}; for (int k = 0; k < D; k++) g[k] = se_real("field"); std::vector<double> f(ne), c0 = symv("c0", ne), c1 = symv("c1", ne), v = symv("v", n), u(ne);
  for (size_t e = 0; e < ne; e++) { f[e] = 0; for (int k = 0; k < D; k++) f[e] = f[e] + g[k] * s[k][e]; auto *ed = r->GetEdgeList()[e]; u[e] = c0[e] * v[ed->GetHead()->GetIndex()] + c1[e] * v[ed->GetTail()->GetIndex()]; }
  esol(r, "F", f); esol(r, "U", u); esol(r, "U:v@n0", c0); esol(r, "U:v@n1", c1);
  auto get = [&](const std::string &nm) { return D == 2 ? tval(r, nm) : ttval(r, nm); };
  auto edge = [&](size_t t, int e) -> const Edge * { return D == 2 ? r->GetTriangleToEdgeList()[t][e] : r->GetTetrahedronToEdgeDataList()[t][e]->edge; };
  auto node = [&](size_t t, int e, int d) { auto *x = edge(t, e); if (d == 0) return x->GetHead()->GetIndex(); if (d == 1) return x->GetTail()->GetIndex(); if (D == 3) return r->GetTetrahedronToEdgeDataList()[t][e]->nodeopp[d - 2]->GetIndex();
    for (auto *p : r->GetTriangleList()[t]->GetNodeList()) if (p != x->GetHead() && p != x->GetTail()) return p->GetIndex(); return size_t(-1); };
#if KIND == 0
  for (const char *nm : {"F", "U"}) if (D == 2) CreateTriangleEdgeFromEdgeModel(nm, r); else CreateTetrahedronEdgeFromEdgeModel(nm, r);
  if (D == 2) CreateTriangleEdgeFromEdgeModelDerivative("U", "v", r); else CreateTetrahedronEdgeFromEdgeModelDerivative("U", "v", r);
  const char *P[1] = {"_"}; const int np = 1;
#else
  for (const char *nm : {"F", "U"}) if (D == 2) CreateTriangleEdgePairFromEdgeModel(nm, r); else CreateTetrahedronEdgePairFromEdgeModel(nm, r);
  if (D == 2) CreateTriangleEdgePairFromEdgeModelDerivative("U", "v", r); else CreateTetrahedronEdgePairFromEdgeModelDerivative("U", "v", r);
  const char *P[2] = {"_node0_", "_node1_"}; const int np = 2;
#endif
  for (int p = 0; p < np; p++) for (int k = 0; k < D; k++) {
    auto F = get(std::string("F") + P[p] + ax[k]), U = get(std::string("U") + P[p] + ax[k]); se_assert(F.size() == nt * NE && U.size() == nt * NE, "size"); std::vector<std::vector<double>> dU; for (int d = 0; d <= D; d++) dU.push_back(get(std::string("U") + P[p] + ax[k] + ":v@en" + std::to_string(d)));
    for (size_t t = 0; t < nt; t++) for (int e = 0; e < NE; e++) { size_t i = t * NE + e; se_assert_eqs(F[i], g[k], 1, "a uniform field is reconstructed");
      double x = 0; for (int d = 0; d <= D; d++) x = x + dU[d][i] * v[node(t, e, d)]; se_assert_eqs(U[i], x, 1, "derivative models are the derivatives of the field"); } }
#if KIND == 1
  // the value of the pair at an end depends only on the edges that meet there
  for (int p = 0; p < 2; p++) { for (size_t t = 0; t < nt; t++) for (int e = 0; e < NE; e++) { size_t i = t * NE + e, q = node(t, e, p); const Node *nq = r->GetNodeList()[q];
      for (int j = 0; j < NE; j++) { auto *o = edge(t, j); if (o->GetHead() != nq && o->GetTail() != nq) continue; double x = 0; for (int k = 0; k < D; k++) x = x + get(std::string("U") + P[p] + ax[k])[i] * s[k][o->GetIndex()]; se_assert_eqs(x, u[o->GetIndex()], 1, "the pair reproduces the data of the edges meeting in its node"); } } }
#else
  { std::vector<double> te(nt * NE); for (size_t t = 0; t < nt; t++) for (int e = 0; e < NE; e++) te[t * NE + e] = f[edge(t, e)->GetIndex()];
    if (D == 2) { auto m0 = tsol(r, "TE", te); TriangleElementField<double>::EdgeVectors_t o; auto eec = r->GetTriangleEdgeModel("ElementEdgeCouple"); for (size_t t = 0; t < nt; t++) { r->GetTriangleElementField<double>().GetTriangleElementField(*r->GetTriangleList()[t], *eec, *m0, o); for (int e = 0; e < NE; e++) { se_assert_eqs(o[e].Getx(), g[0], 1, "field from element data"); se_assert_eqs(o[e].Gety(), g[1], 1, "field from element data"); } } }
    else { auto m0 = ttsol(r, "TE", te); TetrahedronElementField<double>::EdgeVectors_t o; for (size_t t = 0; t < nt; t++) { r->GetTetrahedronElementField<double>().GetTetrahedronElementField(*r->GetTetrahedronList()[t], *m0, o); for (int e = 0; e < NE; e++) { se_assert_eqs(o[e].Getx(), g[0], 1, "field from element data"); se_assert_eqs(o[e].Gety(), g[1], 1, "field from element data"); se_assert_eqs(o[e].Getz(), g[2], 1, "field from element data"); } } } }
#endif
  se_reach("field");
}

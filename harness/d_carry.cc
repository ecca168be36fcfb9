// D03: node data carried to edges and elements; averages; their derivative models.
#include "mesh.h"
#include "EdgeFromNodeModel.hh"
#include "TriangleEdgeFromNodeModel.hh"
#include "TetrahedronEdgeFromNodeModel.hh"
#include "AverageEdgeModel.hh"
void se_main() {
  const int N = DIM == 1 ? 3 : DIM + 2; Mesh m(DIM); for (int i = 0; i < N; i++) m.coord(i, i * i, i * i * i);
  std::vector<std::vector<int>> el = DIM == 1 ? std::vector<std::vector<int>>{{0, 1}, {1, 2}} : DIM == 2 ? std::vector<std::vector<int>>{{0, 1, 2}, {1, 2, 3}} : std::vector<std::vector<int>>{{0, 1, 2, 3}, {1, 2, 3, 4}};
  std::vector<int> nn; for (int i = 0; i < N; i++) nn.push_back(i); m.flip = (const unsigned[]){0, 0x155, 0x2e}[se_choose("orientation", 3)]; Region *r = m.region("r", nn, el); size_t ne = r->GetNumberEdges();
  std::vector<double> v = symv("v", N), x = symv("x", N), d = symv("d", N), il = symv("inverse length", ne); int again = se_choose("again", 2);
  int kind = se_choose("average", 4); if (kind == 1) for (auto &z : x) se_assume(z > 0);
  auto V = nsol(r, "V", v), X = nsol(r, "X", x), XD = nsol(r, "X:V", d); esol(r, "EdgeInverseLength", il);
  CreateEdgeFromNodeModel("V@n0", "V@n1", "V", r); const char *an[4] = {"arithmetic", "geometric", "gradient", "negative_gradient"}; std::string err; auto at = AverageEdgeModelEnum::GetTypeName(an[kind], err); se_assert(err.empty(), "name of the average");
  CreateAverageEdgeModel("A", "X", at, r); CreateAverageEdgeModel("A", "X", "V", at, r); CreateAverageEdgeModel("A", "X", "X", at, r);
  if (DIM == 2) CreateTriangleEdgeFromNodeModel("V@en0", "V@en1", "V@en2", "V", r); if (DIM == 3) CreateTetrahedronEdgeFromNodeModel("V@en0", "V@en1", "V@en2", "V@en3", "V", r);
  for (int pass = 0; pass <= again; pass++) {
    if (pass) { v = symv("v2", N); x = symv("x2", N); d = symv("d2", N); if (kind == 1) for (auto &z : x) se_assume(z > 0); V->SetValues(v); X->SetValues(x); XD->SetValues(d); }
    auto e1 = eval(r, "V@n1"), e0 = eval(r, "V@n0"), A = eval(r, "A"), D1 = eval(r, "A:V@n1"), D0 = eval(r, "A:V@n0"), S0 = eval(r, "A:X@n0"), S1 = eval(r, "A:X@n1");
    se_assert(e0.size() == ne && e1.size() == ne && A.size() == ne && D0.size() == ne && D1.size() == ne && S0.size() == ne && S1.size() == ne, "size");
    for (size_t e = 0; e < ne; e++) { auto *ed = r->GetEdgeList()[e]; int h = ed->GetHead()->GetIndex(), t = ed->GetTail()->GetIndex(); se_assert_eq(e0[e], v[h], "@n0 is the value at the first node"); se_assert_eq(e1[e], v[t], "@n1 is the value at the second node");
      if (kind == 0) { se_assert_eq(A[e], (x[h] + x[t]) / 2, "arithmetic mean"); se_assert_eq(D0[e], d[h] / 2, "derivative of the arithmetic mean"); se_assert_eq(D1[e], d[t] / 2, "derivative of the arithmetic mean"); se_assert_eq(S0[e], 0.5, "derivative of the arithmetic mean"); se_assert_eq(S1[e], 0.5, "derivative of the arithmetic mean"); }
      else if (kind == 1) { se_assert(A[e] > 0, "geometric mean"); se_assert_eq(A[e] * A[e], x[h] * x[t], "geometric mean"); se_assert_eq(2 * A[e] * D0[e], d[h] * x[t], "derivative of the geometric mean"); se_assert_eq(2 * A[e] * D1[e], d[t] * x[h], "derivative of the geometric mean"); se_assert_eq(2 * A[e] * S0[e], x[t], "derivative of the geometric mean"); se_assert_eq(2 * A[e] * S1[e], x[h], "derivative of the geometric mean"); }
      else { double s = kind == 2 ? il[e] : -il[e]; se_assert_eq(A[e], s * (x[t] - x[h]), "gradient"); se_assert_eq(D0[e], -s * d[h], "derivative of the gradient"); se_assert_eq(D1[e], s * d[t], "derivative of the gradient"); se_assert_eq(S0[e], -s, "derivative of the gradient"); se_assert_eq(S1[e], s, "derivative of the gradient"); } }
    if (DIM >= 2) { std::vector<std::vector<double>> q; for (int k = DIM; k >= 0; k--) q.push_back(DIM == 2 ? tval(r, "V@en" + std::to_string(k)) : ttval(r, "V@en" + std::to_string(k))); std::reverse(q.begin(), q.end());
      for (size_t t = 0; t < el.size(); t++) for (int e = 0; e < DIM * (DIM + 1) / 2; e++) { size_t i = t * (DIM * (DIM + 1) / 2) + e; const Edge *ed = DIM == 2 ? r->GetTriangleToEdgeList()[t][e] : r->GetTetrahedronToEdgeDataList()[t][e]->edge;
        int h = ed->GetHead()->GetIndex(), tl = ed->GetTail()->GetIndex(); se_assert(std::count(el[t].begin(), el[t].end(), h) && std::count(el[t].begin(), el[t].end(), tl), "edge of the element"); se_assert_eq(q[0][i], v[h], "@en0 is the value at the first node"); se_assert_eq(q[1][i], v[tl], "@en1 is the value at the second node");
        std::vector<int> o; for (int k : el[t]) if (k != h && k != tl) o.push_back(k); if (DIM == 2) se_assert_eq(q[2][i], v[o[0]], "@en2 is the value at the opposite node");
        else { auto &p = r->GetTetrahedronToEdgeDataList()[t][e]->nodeopp; int a = p[0]->GetIndex(), b = p[1]->GetIndex(); se_assert((a == o[0] && b == o[1]) || (a == o[1] && b == o[0]), "opposite nodes"); se_assert_eq(q[2][i], v[a], "@en2 is the value at the first opposite node"); se_assert_eq(q[3][i], v[b], "@en3 is the value at the second opposite node"); } } }
  }
  se_reach(again ? "changed" : "first");
}

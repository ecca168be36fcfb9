// D05: gradients at the nodes.
#include "mesh.h"
#include "ModelCreate.hh"
#include "VectorGradient.hh"
extern int se_lapack_check;
static void grad(const std::vector<int> &e, const std::vector<P3> &p, const std::vector<double> &v, double *g) { // Cramer
  P3 d[3] = {{0, 0, 0}, {0, 1, 0}, {0, 0, 1}}; double b[3] = {0, 0, 0}; for (int i = 0; i < DIM; i++) { d[i] = sub(p[e[i + 1]], p[e[0]]); b[i] = v[e[i + 1]] - v[e[0]]; }
  double D = det3(d[0], d[1], d[2]); for (int k = 0; k < DIM; k++) { P3 q[3] = {d[0], d[1], d[2]}; for (int i = 0; i < DIM; i++) q[i][k] = b[i]; g[k] = det3(q[0], q[1], q[2]) / D; } }
void se_main() {
  se_lapack_check = 1; const int N = DIM + 2; Mesh m(DIM); std::vector<double> X[3] = {std::vector<double>(N), std::vector<double>(N), std::vector<double>(N)};
  int fr = DIM == 3 ? se_choose("free", N) : 0, fr2 = SYM == 2 ? (fr + 1) % N : fr;
  for (int i = 0; i < N; i++) { for (int k = 0; k < DIM; k++) X[k][i] = DIM == 3 && i != fr && i != fr2 ? (double[5][3]){{0, 0.25, 0.5}, {1, 0.125, -0.25}, {0.25, 1, 0.0625}, {0.5, 1.25, 2}, {2, 1.5, 1.75}}[i][k] : se_real("x"); m.coord(X[0][i], X[1][i], X[2][i]); }
  std::vector<std::vector<int>> el = DIM == 1 ? std::vector<std::vector<int>>{{0, 1}, {1, 2}} : DIM == 2 ? std::vector<std::vector<int>>{{0, 1, 2}, {1, 2, 3}} : std::vector<std::vector<int>>{{0, 1, 2, 3}, {1, 2, 3, 4}};
  for (auto &e : el) { P3 d[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int i = 0; i < DIM; i++) d[i] = sub(m.pos[e[i + 1]], m.pos[e[0]]); se_nz(det3(d[0], d[1], d[2])); }
  std::vector<int> nn; for (int i = 0; i < N; i++) nn.push_back(i); m.flip = se_choose("orientation", 2) ? 0x155 : 0; Region *r = m.region("r", nn, el); if (DIM == 1) CreateDefaultModels(r); else for (int k = 0; k < DIM; k++) { nsol(r, k == 0 ? "x" : k == 1 ? "y" : "z", X[k]); esol(r, k == 0 ? "unitx" : k == 1 ? "unity" : "unitz", std::vector<double>(r->GetNumberEdges())); if (!k) esol(r, "EdgeInverseLength", std::vector<double>(r->GetNumberEdges())); }
  int avoid = se_choose("avoid", 2), lin = se_choose("linear", 2), zero = se_choose("zero", N + 1) - 1; std::vector<double> v(N); double g[3] = {0, 0, 0}; if (lin) for (int k = 0; k < DIM; k++) g[k] = se_real("slope"); double c = se_real("constant");
  for (int i = 0; i < N; i++) { if (lin) { v[i] = zero < 0 ? c : 0; for (int k = 0; k < DIM; k++) v[i] = v[i] + g[k] * (X[k][i] - (zero < 0 ? 0 : X[k][zero])); } else v[i] = i == zero ? 0 : se_real("value"); if (i != zero) se_assume(v[i] * v[i] > 1.0 / 4096); }
  nsol(r, "V", v); auto G = CreateVectorGradient(r, "V", avoid ? VectorGradientEnum::AVOIDZERO : VectorGradientEnum::DEFAULT);
  std::vector<double> o[3]; const char *nm[3] = {"V_gradx", "V_grady", "V_gradz"}; for (int k = 0; k < DIM; k++) o[k] = nval(r, nm[k]);
  for (int i = 0; i < N; i++) { int cnt = 0; double s[3] = {0, 0, 0}; for (auto &e : el) { if (std::find(e.begin(), e.end(), i) == e.end() || (avoid && std::find(e.begin(), e.end(), zero) != e.end())) continue; cnt++; if (lin) continue; double h[3]; grad(e, m.pos, v, h); for (int k = 0; k < DIM; k++) s[k] = s[k] + h[k]; }
    for (int k = 0; k < DIM; k++) if (!cnt) se_assert_eq(o[k][i], 0, "no contributing element: zero"); else if (lin) se_assert_eqs(o[k][i], g[k], 1, "linear field: exact slope"); else se_assert_eqs(o[k][i], s[k] / cnt, 1, "mean of the gradients of the contributing elements"); }
  se_reach(lin ? "linear" : "general");
}

// E02: circumcentres, couplings, node volumes in 1/2/3 dimensions.
#include "mesh.h"
#include "ModelCreate.hh"
#include "EdgeData.hh"
#include "Vector.hh"
template <class V> static P3 cv(const V &v) { return {(double)v.Getx(), (double)v.Gety(), (double)v.Getz()}; }
static double n2(const P3 &a) { return dot(a, a); }
static P3 mid(const P3 &a, const P3 &b) { return {(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2}; }
static void sums(Region *r, int n) {
  // per edge models are the sums of the per element models, node volumes the sums over the edges of the node
  auto ec = eval(r, "EdgeCouple"), ev = eval(r, "EdgeNodeVolume"), nv = nval(r, "NodeVolume");
  std::vector<double> c, v; std::vector<std::vector<size_t>> el;
  if (r->GetDimension() == 2) { c = tval(r, "ElementEdgeCouple"); v = tval(r, "ElementNodeVolume"); for (auto &x : r->GetTriangleToEdgeList()) for (auto *e : x) el.push_back({e->GetIndex()}); }
  if (r->GetDimension() == 3) { c = ttval(r, "ElementEdgeCouple"); v = ttval(r, "ElementNodeVolume"); for (auto &x : r->GetTetrahedronToEdgeDataList()) for (auto *e : x) el.push_back({e->edge->GetIndex()}); }
  for (size_t e = 0; e < ec.size() && c.size(); e++) { double sc = 0, sv = 0; for (size_t k = 0; k < el.size(); k++) if (el[k][0] == e) { sc += c[k]; sv += v[k]; } se_assert_eq(ec[e], sc, "EdgeCouple is the sum over the elements"); se_assert_eq(ev[e], sv, "EdgeNodeVolume is the sum over the elements"); }
  for (int i = 0; i < n; i++) { double s = 0; for (auto *e : r->GetEdgeList()) if ((int)e->GetHead()->GetIndex() == i || (int)e->GetTail()->GetIndex() == i) s += ev[e->GetIndex()]; se_assert_eq(nv[i], s, "NodeVolume is the sum over the edges of the node"); }
}
void se_main() {
#ifdef D3
  Mesh m(3); se_opt("terms", 60000);
  m.coord(0, 0, 0); double a = se_real("a"), b = se_real("b"), c = se_real("c"), d = se_real("d");
#if D3 == 1
  b = 3; m.coord(a, 0.25, -0.5); m.coord(0.5, b, 0.75); m.coord(-0.25, 0.375, c); se_assume(std::abs(a) > 1 && std::abs(b) > 1 && std::abs(c) > 1 && std::abs(a) < 8 && std::abs(b) < 8 && std::abs(c) < 8);
#else
  d = 0.75; b = 1.5; m.coord(a, 0, 0); m.coord(0, b, 0); m.coord(d, 0, c); se_assume(std::abs(a) > 0.125 && std::abs(b) > 0.125 && std::abs(c) > 0.125 && std::abs(d) > 0.125 && std::abs(d - a) > 0.125);
#endif
  m.coord(0.5, 0.625, 10);
  int two = se_choose("tets", 2);
  std::vector<std::vector<int>> el = {{0, 1, 2, 3}}; if (two) el.push_back({1, 2, 3, 4}); int n = two ? 5 : 4;
  std::vector<int> nodes; for (int i = 0; i < n; i++) nodes.push_back(i);
  Region *r = m.region("r", nodes, el); CreateDefaultModels(r);
  const auto &tc = r->GetTetrahedronCenters<double>(); const auto &fc = r->GetTriangleCenters<double>();
  for (auto *t : r->GetTriangleList()) { P3 C = cv(fc[t->GetIndex()]); std::vector<P3> p; for (auto *q : t->GetNodeList()) p.push_back(m.pos[q->GetIndex()]);
    double r0 = n2(sub(C, p[0])); se_assert_eqs(r0, n2(sub(C, p[1])), 1, "triangle centre equidistant"); se_assert_eqs(r0, n2(sub(C, p[2])), 1, "triangle centre equidistant"); se_assert_eqs(det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(C, p[0])), 0, 1, "triangle centre in the plane"); }
  auto L = eval(r, "EdgeLength"), ec = ttval(r, "ElementEdgeCouple"), ev = ttval(r, "ElementNodeVolume");
  for (auto *t : r->GetTetrahedronList()) { size_t ti = t->GetIndex(); if (ti) continue; P3 C = cv(tc[ti]); std::vector<int> nn; for (auto *q : t->GetNodeList()) nn.push_back(q->GetIndex());
    double r0 = n2(sub(C, m.pos[nn[0]])); for (int k = 1; k < 4; k++) se_assert_eqs(r0, n2(sub(C, m.pos[nn[k]])), 1, "tetrahedron centre equidistant");
    const auto &ed = r->GetTetrahedronToEdgeDataList()[ti]; se_assert(ed.size() == 6, "six edges");
    for (int k = 0; k < 6; k++) { int i = ed[k]->edge->GetHead()->GetIndex(), j = ed[k]->edge->GetTail()->GetIndex(); P3 M = mid(m.pos[i], m.pos[j]);
      double ar[2]; int q = 0; for (int o : nn) if (o != i && o != j) { P3 F; bool f = false; for (auto *tr : r->GetTriangleList()) { int h = 0; for (auto *x : tr->GetNodeList()) { int y = x->GetIndex(); if (y == i || y == j || y == o) h++; } if (h == 3) { F = cv(fc[tr->GetIndex()]); f = true; } } se_assert(f, "face found"); ar[q++] = n2(sub(F, M)) * n2(sub(C, F)); }
      double x = 2 * ec[6 * ti + k]; double y = x * x - ar[0] - ar[1];
      se_assert(x >= 0, "coupling not negative"); se_assert_eqs(y * y, 4 * ar[0] * ar[1], 1e-3, "coupling is the area of the two kite pieces");
      se_assert_eqs(ev[6 * ti + k] * 6, ec[6 * ti + k] * L[ed[k]->edge->GetIndex()], 0, "element node volume is coupling * length / 6"); } }
  sums(r, n); se_reach(two ? "3d two" : "3d one");
#else
  int dim = 1 + se_choose("dim", 2); Mesh m(dim);
  if (dim == 1) {
    for (int i = 0; i < 4; i++) m.coord(se_real("x")); Region *r = m.region("r", {0, 1, 2, 3}, {{0, 1}, {1, 2}, {2, 3}}); CreateDefaultModels(r);
    auto ec = eval(r, "EdgeCouple"), ev = eval(r, "EdgeNodeVolume"), L = eval(r, "EdgeLength"), nv = nval(r, "NodeVolume");
    for (size_t e = 0; e < 3; e++) { se_assert_eq(ec[e], 1, "1d coupling"); se_assert_eq(ev[e] * 2, L[e], "1d half length"); }
    se_assert_eq(nv[0] + nv[1] + nv[2] + nv[3], L[0] + L[1] + L[2], "1d node volumes partition the line"); sums(r, 4); se_reach("1d"); return; }
  int two = se_choose("triangles", 2), special = two ? 0 : se_choose("axis", 4); int n = two ? 4 : 3;
  std::vector<double> X = symv("x", n), Y = symv("y", n);
  if (special == 1) Y[1] = Y[0]; if (special == 2) Y[2] = Y[1]; if (special == 3) X[2] = X[0];
  for (int i = 0; i < n; i++) m.coord(X[i], Y[i]); m.generic();
  std::vector<std::vector<int>> el = {{0, 1, 2}}; if (two) el.push_back({1, 2, 3}); std::vector<int> nodes; for (int i = 0; i < n; i++) nodes.push_back(i);
  for (auto &e : el) { P3 u = sub(m.pos[e[1]], m.pos[e[0]]), v = sub(m.pos[e[2]], m.pos[e[0]]); se_nz(u[0] * v[1] - u[1] * v[0]); }
  Region *r = m.region("r", nodes, el); CreateDefaultModels(r);
  const auto &tc = r->GetTriangleCenters<double>(); auto L = eval(r, "EdgeLength"), c = tval(r, "ElementEdgeCouple"), v = tval(r, "ElementNodeVolume");
  for (auto *t : r->GetTriangleList()) { size_t ti = t->GetIndex(); P3 C = cv(tc[ti]); std::vector<P3> p; std::vector<int> nn; for (auto *q : t->GetNodeList()) { nn.push_back(q->GetIndex()); p.push_back(m.pos[q->GetIndex()]); }
    double R2 = n2(sub(C, p[0])); se_assert_eqs(R2, n2(sub(C, p[1])), 1, "circumcentre equidistant"); se_assert_eqs(R2, n2(sub(C, p[2])), 1, "circumcentre equidistant");
    double A2 = det3(sub(p[1], p[0]), sub(p[2], p[0]), {0, 0, 1}); double tot = 0;
    const auto &tel = r->GetTriangleToEdgeList()[ti];
    for (int k = 0; k < 3; k++) { // edge opposite to corner k
      P3 a = p[(k + 1) % 3], b = p[(k + 2) % 3]; double l2 = n2(sub(a, b)), dt = dot(sub(a, p[k]), sub(b, p[k])); size_t e = tel[k]->GetIndex();
      double cp = c[3 * ti + k], vo = v[3 * ti + k];
      se_assert(cp >= 0, "coupling not negative"); se_assert_eqs(4 * cp * cp * A2 * A2, l2 * dt * dt, 1e-3, "coupling is half the length times the cotangent of the opposite angle");
      se_assert_eqs(vo * 4, cp * L[e], 0, "element node volume is a quarter of coupling times length"); se_assert_eq(L[e] * L[e], l2, "edge k is opposite to corner k"); tot += l2 * dt; }
    se_assert_eqs(tot, 2 * A2 * A2, 1, "lemma: the pieces add up to the area when all angles are acute"); }
  sums(r, n); if (two) se_reach("2d two"); else se_reach("2d one");
#endif
}

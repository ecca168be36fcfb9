// E03: cylindrical volumes, couplings and surface areas against Pappus' theorem.
#include "mesh.h"
#include "ModelCreate.hh"
#include "Vector.hh"
#include "TriangleCylindricalNodeVolume.hh"
#include "TriangleCylindricalEdgeCouple.hh"
#include "CylindricalNodeVolume.hh"
#include "CylindricalEdgeCouple.hh"
#include "CylindricalEdgeNodeVolume.hh"
#include "CylindricalSurfaceArea.hh"
static double n2(const P3 &a) { return dot(a, a); }
void se_main() {
  se_opt("terms", 30000);
  int ax = se_choose("axis", 2); Mesh m(2); GlobalData &g = GlobalData::GetInstance();
#ifdef SURF
  const int nn = 4;
  std::vector<double> X = symv("x", nn), Y = symv("y", nn);
#else
#ifdef TWO
  const int nn = 4;
#else
  const int nn = 3;
#endif
  std::vector<double> X(nn), Y(nn);
#ifdef TWO
  X = {0.5, 1.25, 2, 0}; Y = {0, 1.5, 0.25, 0}; X[3] = se_real("x"); Y[3] = 2.5;
#else
  int c = se_choose("config", 3);
  // acute, obtuse and right triangles (kinds decided by the symbolic coordinates), one or two corners move
  if (c == 0) { X = {0, 0, 2}; Y = {0, 0, -0.5}; X[1] = se_real("x1"); Y[1] = 1.5; }
  if (c == 1) { X = {0, 2, 1}; Y = {0, 0, 0}; Y[2] = se_real("y2"); }
  if (c == 2) { X = {0, 0.5, 0}; Y = {0, 1, 2}; X[2] = se_real("x2"); }
#endif
#endif
  for (int i = 0; i < nn; i++) { m.coord(X[i], Y[i]); if (nn == 3) se_assume(std::abs(X[i]) < 64 && std::abs(Y[i]) < 64); }
  if (nn == 3) m.generic();
  std::vector<std::vector<int>> el = {{0, 1, 2}}; std::vector<int> nodes = {0, 1, 2}; if (nn == 4) { el.push_back({1, 2, 3}); nodes.push_back(3); }
#ifndef SURF
  for (auto &e : el) { P3 u = sub(m.pos[e[1]], m.pos[e[0]]), v = sub(m.pos[e[2]], m.pos[e[0]]); double d = u[0] * v[1] - u[1] * v[0]; se_assume(std::abs(d) > 1.0 / 16); }
#endif
#ifdef SURF
  Region *r = new Region("r", "mat", 2, m.dev); std::vector<NodePtr> N; for (int i = 0; i < nn; i++) { N.push_back(new Node(i, m.coords[i])); r->AddNode(N.back()); }
  int es[5][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}}; std::vector<Edge *> E; for (int i = 0; i < 5; i++) { E.push_back(new Edge(i, N[es[i][0]], N[es[i][1]])); r->AddEdge(E.back()); }
  r->AddTriangle(new Triangle(0, N[0], N[1], N[2])); r->AddTriangle(new Triangle(1, N[1], N[2], N[3])); m.dev->AddRegion(r);
#else
  Region *r = m.region("r", nodes, el); CreateDefaultModels(r);
#endif
  double R0 = se_real("raxis"); auto &rc = ax ? Y : X; auto &zc = ax ? X : Y;
  if (ax) { g.AddDBEntryOnRegion(r, "raxis_zero", ObjectHolder(R0)); g.AddDBEntryOnGlobal("raxis_variable", ObjectHolder("y")); }
  else { g.AddDBEntryOnGlobal("raxis_zero", ObjectHolder(R0)); g.AddDBEntryOnDevice(m.dev->GetName(), "raxis_variable", ObjectHolder("x")); }
  for (int i = 0; i < nn; i++) se_assume(rc[i] - R0 > 0);
#ifdef SURF
  auto cedge = [&](const char *nm, std::vector<int> k, Region *rg) { ConstNodeList_t nl; ConstEdgeList_t ell; for (int e : k) { ell.push_back(E[e]); nl.push_back(E[e]->GetHead()); nl.push_back(E[e]->GetTail()); } auto *ct = new Contact(nm, rg, nl, "metal"); ct->AddEdges(ell); m.dev->AddContact(ct); };
  int sc = se_choose("boundary", 2); cedge("c1", {0}, r); cedge("c2", sc ? std::vector<int>{0, 3} : std::vector<int>{3, 4}, r);
  Region *r2 = new Region("r2", "mat", 2, m.dev); m.dev->AddRegion(r2);
  { ConstNodeList_t n0{N[0], N[2]}; ConstEdgeList_t e0{E[1]}; auto *i = new Interface("i", sc ? r : r2, sc ? r2 : r, n0, n0); i->AddEdges(e0, e0); m.dev->AddInterface(i); }
  CreateCylindricalSurfaceArea(r); auto a = nval(r, "CylindricalSurfaceArea"); std::vector<int> used = sc ? std::vector<int>{0, 3, 1} : std::vector<int>{0, 3, 4, 1};
  double tot = 0; std::vector<double> want(4, 0.0);
  for (int e : used) { int i = es[e][0], j = es[e][1]; double L = std::sqrt(n2(sub(m.pos[i], m.pos[j]))), ri = rc[i] - R0, rj = rc[j] - R0; tot += M_PI * (ri + rj) * L; double rm = (ri + rj) / 2; want[i] += M_PI * (rm + ri) * L / 2; want[j] += M_PI * (rm + rj) * L / 2; }
  for (int i = 0; i < 4; i++) se_assert_eq(a[i], want[i], "surface of the half edge revolved"); se_assert_eq(a[0] + a[1] + a[2] + a[3], tot, "areas add up to the surface of revolution"); se_reach("surface");
#else
  CreateTriangleCylindricalNodeVolume(r); CreateTriangleCylindricalEdgeCouple(r); CreateCylindricalNodeVolume(r); CreateCylindricalEdgeNodeVolume(r); CreateCylindricalEdgeCouple(r);
  const auto &tc = r->GetTriangleCenters<double>(); int nt = el.size();
  for (int t = 0; t < nt; t++) se_assume((ax ? tc[t].Gety() : tc[t].Getx()) - R0 > 0);
  auto v0 = tval(r, "ElementCylindricalNodeVolume@en0"), v1 = tval(r, "ElementCylindricalNodeVolume@en1"), ec = tval(r, "ElementCylindricalEdgeCouple"), ce = eval(r, "CylindricalEdgeCouple"), e0 = eval(r, "CylindricalEdgeNodeVolume@n0"), e1 = eval(r, "CylindricalEdgeNodeVolume@n1"), nv = nval(r, "CylindricalNodeVolume");
  std::vector<double> s0(5, 0.0), s1(5, 0.0), sc(5, 0.0), sn(4, 0.0);
  for (int t = 0; t < nt; t++) { auto &te = r->GetTriangleToEdgeList()[t];
    double cr = (ax ? tc[t].Gety() : tc[t].Getx()) - R0, cz = ax ? tc[t].Getx() : tc[t].Gety();
    for (int k = 0; k < 3; k++) { int i = te[k]->GetHead()->GetIndex(), j = te[k]->GetTail()->GetIndex(), e = te[k]->GetIndex();
      double ri = rc[i] - R0, rj = rc[j] - R0, rm = (ri + rj) / 2, zm = (zc[i] + zc[j]) / 2;
      auto vol = [&](double val, double rr, double z, const char *l) { double x = (cr - rr) * (zm - z) - (cz - z) * (rm - rr); double s = rr + cr + rm; se_assert(val >= 0, "volume not negative"); se_assert_eqs(9 * val * val, M_PI * M_PI * x * x * s * s, 1e-3, l); };
      if (nt == 1) { vol(v0[3 * t + k], ri, zc[i], "volume at the first node (Pappus)"); vol(v1[3 * t + k], rj, zc[j], "volume at the second node (Pappus)"); }
      double qq = ec[3 * t + k]; if (nt == 1) { double l2 = (cr - rm) * (cr - rm) + (cz - zm) * (cz - zm), q = qq; se_assert(q >= 0, "coupling not negative"); se_assert_eqs(q * q, M_PI * M_PI * (cr + rm) * (cr + rm) * l2, 1e-3, "coupling is the surface of revolution"); }
      s0[e] += v0[3 * t + k]; s1[e] += v1[3 * t + k]; sc[e] += qq; sn[i] += v0[3 * t + k]; sn[j] += v1[3 * t + k]; } }
  for (size_t e = 0; e < ce.size(); e++) { se_assert_eq(ce[e], sc[e], "CylindricalEdgeCouple is the sum over the elements"); se_assert_eq(e0[e], s0[e], "CylindricalEdgeNodeVolume@n0 is the sum over the elements"); se_assert_eq(e1[e], s1[e], "CylindricalEdgeNodeVolume@n1 is the sum over the elements"); }
  for (int i = 0; i < nn; i++) se_assert_eq(nv[i], sn[i], "CylindricalNodeVolume is the sum over the node");
  se_reach(nt == 1 ? "one" : "two");
#endif
}

// E04: surface areas and normals of contacts and interfaces; distance to an interface.
#include "mesh.h"
#include "ModelCreate.hh"
#include "Vector.hh"
#include "InterfaceNormal.hh"
template <class V> static P3 cv(const V &v) { return {(double)v.Getx(), (double)v.Gety(), (double)v.Getz()}; }
static double n2(const P3 &a) { return dot(a, a); }
static ConstNodeList_t nl(Region *r, std::vector<int> k) { ConstNodeList_t o; for (int i : k) o.push_back(r->GetNodeList()[i]); return o; }
static void contact(Mesh &m, Region *r, const char *nm, std::vector<int> k, const ConstEdgeList_t &e, const ConstTriangleList_t &t) { auto *c = new Contact(nm, r, nl(r, k), "metal"); c->AddEdges(e); c->AddTriangles(t); m.dev->AddContact(c); }
static void interface(Mesh &m, Region *a, Region *b, const char *nm, std::vector<int> ka, std::vector<int> kb, const ConstEdgeList_t &ea, const ConstEdgeList_t &eb, const ConstTriangleList_t &ta, const ConstTriangleList_t &tb) { auto *i = new Interface(nm, a, b, nl(a, ka), nl(b, kb)); i->AddEdges(ea, eb); i->AddTriangles(ta, tb); m.dev->AddInterface(i); }
void se_main() {
#if DIM == 1
  Mesh m(1); for (int i = 0; i < 4; i++) m.coord(se_real("x"));
  Region *r = m.region("r", {0, 1, 2}, {{0, 1}, {1, 2}}), *s = m.region("s", {2, 3}, {{0, 1}}); CreateDefaultModels(r); CreateDefaultModels(s);
  int both = se_choose("both", 2); contact(m, r, "c", {0}, {}, {}); if (both) contact(m, r, "c2", {2}, {}, {}); interface(m, r, s, "i", {2}, {0}, {}, {}, {}, {});
  auto a = nval(r, "SurfaceArea"), c = nval(r, "ContactSurfaceArea"), as = nval(s, "SurfaceArea");
  for (int i = 0; i < 3; i++) { se_assert_eq(a[i], i == 2 ? 1 : 0, "interface area 1d"); se_assert_eq(c[i], i == 0 || (both && i == 2) ? 1 : 0, "contact area 1d"); }
  se_assert_eq(as[0], 1, "interface area second region"); se_assert_eq(as[1], 0, "interface area second region");
  double x = a[0] + se_real("x"); se_assert_eq(x, x, "lemma"); se_reach("1d");
#elif DIM == 2
  Mesh m(2); int n = 4; std::vector<double> X = symv("x", n), Y = symv("y", n);
  for (int i = 0; i < n; i++) m.coord(X[i], Y[i]);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { if (i == 3 && j == 0) continue; se_assume(std::abs(X[i] - X[j]) >= 1.0 / 64); se_assume(std::abs(Y[i] - Y[j]) >= 1.0 / 64); }
  for (auto &e : {std::array<int, 3>{0, 1, 2}, {1, 2, 3}}) { P3 u = sub(m.pos[e[1]], m.pos[e[0]]), v = sub(m.pos[e[2]], m.pos[e[0]]); se_nz(u[0] * v[1] - u[1] * v[0]); }
  Region *r = m.region("r", {0, 1, 2, 3}, {{0, 1, 2}, {1, 2, 3}}), *q = m.region("q", {0, 2, 3}, {}, false); CreateDefaultModels(r);
  std::vector<const Edge *> E; for (auto *e : r->GetEdgeList()) E.push_back(e); // 01 02 12 13 23
  auto find = [&](int i, int j) -> const Edge * { for (auto *e : E) if ((int)e->GetHead()->GetIndex() == i && (int)e->GetTail()->GetIndex() == j) return e; return nullptr; };
  const Edge *e01 = find(0, 1), *e02 = find(0, 2), *e23 = find(2, 3), *e13 = find(1, 3); se_assert(e01 && e02 && e23 && e13, "edges");
  int k = se_choose("kind", 2);
  contact(m, r, "c1", {0, 1}, {e01}, {}); contact(m, r, "c2", {0, 1, 3}, {e01, e13}, {}); // an edge listed twice counts once
  if (k) interface(m, q, r, "i", {0, 1, 2}, {0, 2, 3}, {}, {e02, e23}, {}, {}); else interface(m, r, q, "i", {0, 2, 3}, {0, 1, 2}, {e02, e23}, {}, {}, {});
  auto L = eval(r, "EdgeLength"); auto len = [&](const Edge *e) { return L[e->GetIndex()]; };
  auto chk = [&](const char *an, const char *nx, const char *ny, const Edge *ea, const Edge *eb, int i0, int i1, int i2) { // path i0 -ea- i1 -eb- i2
    auto a = nval(r, an), ux = nval(r, nx), uy = nval(r, ny);
    for (int i = 0; i < 4; i++) { double w = 0; if (i == i0 || i == i1) w += len(ea) / 2; if (i == i1 || i == i2) w += len(eb) / 2; se_assert_eq(a[i], w, "node area is half of its boundary edges"); if (i != i0 && i != i1 && i != i2) { se_assert_eq(ux[i], 0, "no normal away from the boundary"); se_assert_eq(uy[i], 0, "no normal away from the boundary"); } }
    auto dir = [&](const Edge *e) { return sub(m.pos[e->GetTail()->GetIndex()], m.pos[e->GetHead()->GetIndex()]); };
    P3 da = dir(ea), db = dir(eb);
    for (int i : {i0, i2}) { P3 d = i == i0 ? da : db; se_assert_eqs(ux[i] * d[0] + uy[i] * d[1], 0, 1, "normal is perpendicular to the boundary"); se_assert_eq(ux[i] * ux[i] + uy[i] * uy[i], 1, "normal has unit length"); }
    P3 na = {da[1], -da[0], 0}, nb = {db[1], -db[0], 0}; double t = dot(na, nb), s; if (t < 0) s = -1; else s = 1;
    P3 w = {na[0] + s * nb[0], na[1] + s * nb[1], 0};
    se_assert_eqs(ux[i1] * w[1] - uy[i1] * w[0], 0, 1, "normal between two edges is their weighted mean"); se_assert_eq(ux[i1] * ux[i1] + uy[i1] * uy[i1], 1, "normal has unit length"); };
  chk("SurfaceArea", "NSurfaceNormal_x", "NSurfaceNormal_y", e02, e23, 0, 2, 3); chk("ContactSurfaceArea", "ContactNSurfaceNormal_x", "ContactNSurfaceNormal_y", e01, e13, 0, 1, 3);
  se_reach("2d");
#else
  Mesh m(3); se_opt("terms", 60000); double a = se_real("a"), c = se_real("c"); m.coord(0, 0, 0); m.coord(a, 0, 0); m.coord(0, 1.5, 0); m.coord(0.75, 0, c); se_assume(std::abs(a) > 0.125 && std::abs(c) > 0.125 && std::abs(a - 0.75) > 0.125);
  int k = se_choose("kind", 2);
  Region *r = m.region("r", {0, 1, 2, 3}, {{0, 1, 2, 3}}), *q = m.region("q", {k, 2, 3}, {}, false); CreateDefaultModels(r);
  auto tri = [&](int i, int j, int k) -> const Triangle * { for (auto *t : r->GetTriangleList()) { auto &n = t->GetNodeList(); if ((int)n[0]->GetIndex() == i && (int)n[1]->GetIndex() == j && (int)n[2]->GetIndex() == k) return t; } return nullptr; };
  const Triangle *tc = tri(0, 1, 2), *ti = tri(k, 2, 3); se_assert(tc && ti, "triangles"); ConstTriangleList_t T{ti, ti};
  contact(m, r, "c", {0, 1, 2}, {}, {tc}); interface(m, k ? q : r, k ? r : q, "i", k ? std::vector<int>{0, 1, 2} : std::vector<int>{k, 2, 3}, k ? std::vector<int>{k, 2, 3} : std::vector<int>{0, 1, 2}, {}, {}, k ? ConstTriangleList_t{} : T, k ? T : ConstTriangleList_t{});
  const auto &fc = r->GetTriangleCenters<double>();
  auto chk = [&](const Triangle *t, const char *an, const char *nx, const char *ny, const char *nz) { auto ar = nval(r, an), ux = nval(r, nx), uy = nval(r, ny), uz = nval(r, nz); std::vector<int> id; for (auto *x : t->GetNodeList()) id.push_back(x->GetIndex());
    double x2[3]; P3 C = cv(fc[t->GetIndex()]); for (int j = 0; j < 3; j++) { const P3 &p = m.pos[id[(j + 1) % 3]], &q = m.pos[id[(j + 2) % 3]]; P3 w = crs(sub(p, q), sub(p, C)); x2[j] = std::sqrt(n2(w)) / 4; } // piece of the edge opposite to corner j
    for (int i = 0; i < 4; i++) { double w = 0; bool on = false; for (int j = 0; j < 3; j++) if (id[j] == i) { w = x2[(j + 1) % 3] + x2[(j + 2) % 3]; on = true; } se_assert_eq(ar[i], w, "node area is the sum of the pieces of its two boundary edges");
      if (on) { for (int j = 1; j < 3; j++) { P3 d = sub(m.pos[id[j]], m.pos[id[0]]); se_assert_eqs(ux[i] * d[0] + uy[i] * d[1] + uz[i] * d[2], 0, 1, "normal is perpendicular to the face"); } }
      else { se_assert_eq(ux[i], 0, "no normal away from the boundary"); se_assert_eq(uy[i], 0, "no normal away from the boundary"); se_assert_eq(uz[i], 0, "no normal away from the boundary"); } } };
  chk(tc, "ContactSurfaceArea", "ContactNSurfaceNormal_x", "ContactNSurfaceNormal_y", "ContactNSurfaceNormal_z"); chk(ti, "SurfaceArea", "NSurfaceNormal_x", "NSurfaceNormal_y", "NSurfaceNormal_z");
  se_reach("3d");
#endif
}

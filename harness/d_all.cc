// D01, every kind of derived model: after any of its inputs changes it holds what newly created models compute from the current inputs.
#include "mesh.h"
#include "ModelCreate.hh"
#include "EdgeFromNodeModel.hh"
#include "AverageEdgeModel.hh"
#include "VectorGradient.hh"
#include "TriangleEdgeFromNodeModel.hh"
#include "TriangleEdgeFromEdgeModel.hh"
#include "TriangleEdgeFromEdgeModelDerivative.hh"
#include "TriangleEdgePairFromEdgeModel.hh"
#include "TriangleEdgePairFromEdgeModelDerivative.hh"
#include "VectorTriangleEdgeModel.hh"
#include "TetrahedronEdgeFromNodeModel.hh"
#include "TetrahedronEdgeFromEdgeModel.hh"
#include "TetrahedronEdgeFromEdgeModelDerivative.hh"
#include "TetrahedronEdgePairFromEdgeModel.hh"
#include "TetrahedronEdgePairFromEdgeModelDerivative.hh"
#include "VectorTetrahedronEdgeModel.hh"
#include "CylindricalNodeVolume.hh"
#include "CylindricalEdgeCouple.hh"
#include "CylindricalEdgeNodeVolume.hh"
#include "CylindricalSurfaceArea.hh"
#include "TriangleCylindricalNodeVolume.hh"
#include "TriangleCylindricalEdgeCouple.hh"
#include "InterfaceNormal.hh"
#include "Vector.hh"
#include <map>
namespace A = AverageEdgeModelEnum;
typedef std::vector<double> V;
typedef std::map<std::string, V> All;
static void readall(Region *r, int order, All &o) { for (int k = 0; k < 4; k++) { int w = (order & 1) ? 3 - k : k; std::vector<std::string> l;
  if (w == 0) for (auto &e : r->GetNodeModelList()) l.push_back(e.first); if (w == 1) for (auto &e : r->GetEdgeModelList()) l.push_back(e.first); if (w == 2) for (auto &e : r->GetTriangleEdgeModelList()) l.push_back(e.first); if (w == 3) for (auto &e : r->GetTetrahedronEdgeModelList()) l.push_back(e.first);
  if (order & 2) std::reverse(l.begin(), l.end()); for (auto &n : l) o[n] = w == 0 ? nval(r, n) : w == 1 ? eval(r, n) : w == 2 ? tval(r, n) : ttval(r, n); } }
static void same(const All &a, const All &b, const char *l) { se_assert(a.size() == b.size(), "the same models"); for (auto &e : b) { auto f = a.find(e.first); se_assert(f != a.end() && f->second.size() == e.second.size(), "the same models"); if (f == a.end()) continue; for (size_t i = 0; i < e.second.size() && i < f->second.size(); i++) { se_assert_eqs(f->second[i], e.second[i], 1, l); } } }
#if PART == 0
static const int D = DIM, NN = D + 1, NE = D == 1 ? 1 : D == 2 ? 3 : 6;
enum { iV, iW, iWV, iE, iE0, iE1, iT, NI };
static const char *const IN[NI] = {"V", "W", "W:V", "E", "E:V@n0", "E:V@n1", "T"};
static void put(Region *r, int k, const V &v) { if (k <= iWV) std::const_pointer_cast<NodeModel>(r->GetNodeModel(IN[k]))->SetValues(v); else if (k < iT) std::const_pointer_cast<EdgeModel>(r->GetEdgeModel(IN[k]))->SetValues(v); else if (D == 2) std::const_pointer_cast<TriangleEdgeModel>(r->GetTriangleEdgeModel("T"))->SetValues(v); else if (D == 3) std::const_pointer_cast<TetrahedronEdgeModel>(r->GetTetrahedronEdgeModel("T"))->SetValues(v); }
static void build(Region *r, const V *s) {
  CreateDefaultModels(r); for (int k = 0; k <= iWV; k++) nsol(r, IN[k], s[k]); for (int k = iE; k <= iE1; k++) esol(r, IN[k], s[k]); if (D == 2) tsol(r, "T", s[iT]); if (D == 3) ttsol(r, "T", s[iT]);
  CreateEdgeFromNodeModel("V@n0", "V@n1", "V", r); CreateAverageEdgeModel("A", "V", A::GRADIENT, r); CreateAverageEdgeModel("A", "V", "V", A::GRADIENT, r); CreateAverageEdgeModel("B", "W", A::ARITHMETIC, r); CreateAverageEdgeModel("B", "W", "V", A::ARITHMETIC, r); CreateAverageEdgeModel("C", "W", A::NEGATIVE_GRADIENT, r); CreateAverageEdgeModel("C", "W", "V", A::NEGATIVE_GRADIENT, r); CreateAverageEdgeModel("G", "W", A::GEOMETRIC, r); CreateAverageEdgeModel("G", "W", "V", A::GEOMETRIC, r); CreateVectorGradient(r, "V", VectorGradientEnum::DEFAULT);
#if DIM == 2
  CreateTriangleEdgeFromNodeModel("V@en0", "V@en1", "V@en2", "V", r); CreateTriangleEdgeFromEdgeModel("E", r); CreateTriangleEdgeFromEdgeModelDerivative("E", "V", r); CreateTriangleEdgePairFromEdgeModel("E", r); CreateTriangleEdgePairFromEdgeModelDerivative("E", "V", r); CreateVectorTriangleEdgeModel("T", r);
#elif DIM == 3
  CreateTetrahedronEdgeFromNodeModel("V@en0", "V@en1", "V@en2", "V@en3", "V", r); CreateTetrahedronEdgeFromEdgeModel("E", r); CreateTetrahedronEdgeFromEdgeModelDerivative("E", "V", r); CreateTetrahedronEdgePairFromEdgeModel("E", r); CreateTetrahedronEdgePairFromEdgeModelDerivative("E", "V", r); CreateVectorTetrahedronEdgeModel("T", r);
#endif
}
void se_main() {
  Mesh m(D); m.coord(0, 0, 0); m.coord(1, 0.125, 0.25); if (D > 1) m.coord(0.25, 1, 0.125); if (D > 2) m.coord(0.125, 0.25, 1); std::vector<int> nn; for (int i = 0; i < NN; i++) nn.push_back(i);
  Region *r = m.region("r", nn, {nn}), *q = m.region("q", nn, {nn}); V s[NI]; for (int k = 0; k < NI; k++) { int n = k <= iWV ? NN : NE; for (int i = 0; i < n; i++) s[k].push_back(1 + 0.5 * ((i * 3 + k) % 5)); }
  build(r, s); All a, b; int first = se_choose("read first", 3); if (first) readall(r, first, a);
  for (int i = 0; i < LL; i++) { int k = se_choose("input", NI); if (k == iT && D == 1) return; for (auto &x : s[k]) { x = se_real(IN[k]); if (k == iW) se_assume(x > 0); } put(r, k, s[k]); if (i + 1 < LL && se_choose("read between", 2)) { a.clear(); readall(r, first, a); } }
  a.clear(); readall(r, se_choose("order", 4), a); build(q, s); readall(q, 0, b); same(a, b, "a model holds the values computed from the current inputs"); All c; readall(r, 0, c); same(c, b, "reading again changes nothing"); se_reach("read");
}
#else
// what is computed from contacts, interfaces and the axis of symmetry
static ConstNodeList_t nl(Region *r, std::vector<int> k) { ConstNodeList_t o; for (int i : k) o.push_back(r->GetNodeList()[i]); return o; }
static void geo(Region *r, bool normal) { CreateDefaultModels(r); 
#if DIM == 2
  CreateTriangleCylindricalNodeVolume(r); CreateTriangleCylindricalEdgeCouple(r); CreateCylindricalNodeVolume(r); CreateCylindricalEdgeCouple(r); CreateCylindricalEdgeNodeVolume(r); CreateCylindricalSurfaceArea(r);
#endif
  if (normal && DIM > 1) CreateInterfaceNormal("i", "dist", "nx", "ny", "nz", r); }
void se_main() {
  const int D = DIM; Mesh m(D); m.coord(1, 1, 0); m.coord(2, 1.125, 0.25); if (D > 1) m.coord(1.25, 2, 0.125); if (D > 2) m.coord(1.125, 1.25, 1); if (D == 1) m.coord(3); if (D == 2) m.coord(2.5, 2.125); if (D == 3) m.coord(2.25, 2.5, 2.125);
  std::vector<int> a, b; for (int i = 0; i <= D; i++) { a.push_back(i); b.push_back(i + 1); } Region *r = m.region("r", a, {a}), *o = m.region("o", b, {[&] { std::vector<int> x; for (int i = 0; i <= D; i++) x.push_back(i); return x; }()});
  GlobalData &g = GlobalData::GetInstance(); if (D == 2) { g.AddDBEntryOnGlobal("raxis_zero", ObjectHolder(0.5)); g.AddDBEntryOnGlobal("raxis_variable", ObjectHolder("x")); }
  auto node = [&](Region *x, int c) { for (int i = 0; i <= D; i++) if (&x->GetNodeList()[i]->GetCoordinate() == m.coords[c]) return i; return -1; }; std::vector<int> n0, n1, k0; for (int i = 1; i <= D; i++) { n0.push_back(node(r, i)); n1.push_back(node(o, i)); k0.push_back(i - 1); }
  bool shared = se_choose("interface first", 2), have = shared, cont = false; auto link = [&] { m.dev->AddInterface(new Interface("i", r, o, nl(r, n0), nl(o, n1))); }; if (shared) link(); geo(r, shared); geo(o, shared); All x, y; if (se_choose("read first", 2)) { readall(r, 0, x); readall(o, 0, x); }
  Region *w = se_choose("region", 2) ? o : r; Contact *c = nullptr;
  for (int i = 0; i < LL; i++) { switch (se_choose("change", 8)) {
    case 0: if (cont) return; cont = true; c = new Contact("c", w, nl(w, k0), "metal"); m.dev->AddContact(c); break;
    case 1: if (have) return; have = true; link(); break;
    case 2: if (!c) return; if (D < 3) c->AddEdges({w->GetEdgeList()[0]}); else c->AddTriangles({w->GetTriangleList()[0]}); break;
    case 3: if (!have) return; { auto *in = m.dev->GetInterface("i"); if (D < 3) in->AddEdges({}, {}); else in->AddTriangles({}, {}); } break;
    case 4: if (D != 2) return; { double v = se_real("raxis"); se_assume(v < 0.75); g.AddDBEntryOnGlobal("raxis_zero", ObjectHolder(v)); } break;
    case 5: if (D != 2) return; g.AddDBEntryOnGlobal("raxis_variable", ObjectHolder("y")); break;
    case 6: if (D != 2) return; { double v = se_real("raxis"); se_assume(v < 0.75); g.AddDBEntryOnRegion(w, "raxis_zero", ObjectHolder(v)); } break;
    case 7: if (D != 2) return; g.AddDBEntryOnDevice(m.dev->GetName(), "raxis_variable", ObjectHolder("y")); break; }
    if (i + 1 < LL && se_choose("read between", 2)) { readall(r, 0, x); readall(o, 0, x); } }
  for (Region *z : {r, o}) { x.clear(); y.clear(); readall(z, z == w ? 0 : 3, x); geo(z, shared); readall(z, 0, y); same(x, y, "geometric models follow contacts, interfaces and the axis"); }
  se_reach("geometry");
}
#endif

// D01: after any history of changes, every model holds what the same models of a new region compute from the current inputs.
#include "mesh.h"
#include "EdgeFromNodeModel.hh"
#include "TriangleEdgeFromNodeModel.hh"
#include "AverageEdgeModel.hh"
#include "VectorGradient.hh"
#include "TriangleEdgeFromEdgeModel.hh"
namespace E = AverageEdgeModelEnum;
static const char *const TX[3] = {"unitx", "unity", "ElementEdgeCouple"};
struct In { std::vector<double> V, W, L; int a, of; };
static void avg(Region *r, const In &s) { CreateAverageEdgeModel("A", s.of ? "W" : "V", s.a == 0 ? E::GRADIENT : E::ARITHMETIC, r); }
static void build(Region *r, const In &s) {
  esol(r, TX[0], {0.6, 0.8, 0}); esol(r, TX[1], {0.8, -0.6, 1}); tsol(r, TX[2], {1, 2, 3}); nsol(r, "x", {0, 1, 2}); nsol(r, "y", {0, 1, 0});
  nsol(r, "V", s.V); nsol(r, "W", s.W); esol(r, "EdgeInverseLength", s.L); avg(r, s);
  CreateEdgeFromNodeModel("V@n0", "V@n1", "V", r); CreateTriangleEdgeFromNodeModel("V@en0", "V@en1", "V@en2", "V", r); CreateTriangleEdgeFromEdgeModel("A", r); CreateVectorGradient(r, "V", VectorGradientEnum::DEFAULT); }
static const char *const NM[] = {"V", "W", "V_gradx", "V_grady"}, *const EM[] = {"A", "V@n0", "V@n1", "EdgeInverseLength"}, *const TM[] = {"A_x", "A_y", "V@en0", "V@en1", "V@en2"};
void se_main() {
  Mesh m(2); m.coord(0, 0); m.coord(1, 1); m.coord(2, 0); Region *r = m.region("r", {0, 1, 2}, {{0, 1, 2}}), *q = m.region("q", {0, 1, 2}, {{0, 1, 2}});
  In s = {symv("V", 3), symv("W", 3), symv("L", 3), 0, 0}; build(r, s);
  auto readall = [&](Region *g, int order, std::vector<double> &o) { auto add = [&](const std::vector<double> &v) { o.insert(o.end(), v.begin(), v.end()); };
    std::vector<double> p[3]; for (int k = 0; k < 3; k++) { int w = (order + 2 * k) % 3; std::vector<double> &d = p[w]; auto ad = [&](const std::vector<double> &v) { d.insert(d.end(), v.begin(), v.end()); }; if (w == 0) for (auto *n : NM) ad(nval(g, n)); else if (w == 1) for (auto *n : EM) ad(eval(g, n)); else for (auto *n : TM) ad(tval(g, n)); } for (auto &d : p) add(d); };
  if (se_choose("read first", 2)) { std::vector<double> o; readall(r, 0, o); }
  for (int i = 0; i < LL; i++) switch (se_choose("operation", 12)) {
    case 0: s.V = symv("V", 3); r->GetNodeModel("V"); std::const_pointer_cast<NodeModel>(r->GetNodeModel("V"))->SetValues(s.V); break;
    case 1: s.V[1] = se_real("V1"); std::const_pointer_cast<NodeModel>(r->GetNodeModel("V"))->SetNodeValue(1, s.V[1]); break;
    case 2: { double u = se_real("U"); s.V = {u, u, u}; std::const_pointer_cast<NodeModel>(r->GetNodeModel("V"))->SetValues(u); break; }
    case 3: s.V = {0, 0, 0}; nsol(r, "V"); se_reach("replaced"); break;
    case 4: s.a = 1 - s.a; avg(r, s); break;
    case 5: s.of = 1 - s.of; avg(r, s); break;
    case 6: s.V = {0, 0, 0}; r->DeleteNodeModel("V"); nsol(r, "V"); se_reach("deleted"); break;
    case 7: tval(r, "A_y"); break;
    case 8: eval(r, "A"); break;
    case 9: nval(r, "V_grady"); eval(r, "V@n1"); tval(r, "V@en2"); break;
    case 10: s.W[2] = se_real("W2"); std::const_pointer_cast<NodeModel>(r->GetNodeModel("W"))->SetNodeValue(2, s.W[2]); break;
    case 11: s.L = symv("L", 3); std::const_pointer_cast<EdgeModel>(r->GetEdgeModel("EdgeInverseLength"))->SetValues(s.L); break; }
  build(q, s); std::vector<double> a, b; readall(r, se_choose("order", 3), a); readall(q, 1, b); se_assert(a.size() == b.size(), "sizes");   for (size_t i = 0; i < a.size() && i < b.size(); i++) se_assert_eqs(a[i], b[i], 1, "a model holds the values computed from the current inputs");
  a.clear(); readall(r, 0, a); for (size_t i = 0; i < a.size() && i < b.size(); i++) se_assert_eqs(a[i], b[i], 1, "reading again changes nothing"); se_reach("read");
}

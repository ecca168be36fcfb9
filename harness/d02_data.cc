// D02: model storage and model arithmetic keep values exactly.
#include "mesh.h"
#include "ScalarData.hh"
#include "ParallelOpEqual.hh"
#ifdef DEVSIM_EXTENDED_PRECISION
#include "Float128.hh"
#endif
typedef std::vector<double> V;
static void eq(const V &a, const V &b, const char *l) { se_assert(a.size() == b.size(), "length"); for (size_t i = 0; i < b.size(); i++) se_assert_eq(a[i], b[i], l); }
#ifdef HOLDER
static std::vector<float128> up(const V &v) { std::vector<float128> o; for (double x : v) o.push_back(x); return o; }
static V down(const std::vector<float128> &v) { V o; for (auto &x : v) o.push_back((double)x); return o; }
template <class M> static void read(const M &m, const V &w, const char *l) {
  switch (se_choose("read", 3)) { case 0: eq(m->template GetScalarValues<double>(), w, l); break; case 1: eq(down(m->template GetScalarValues<float128>()), w, l); break;
    case 2: if (m->IsUniform()) for (double x : w) { se_assert_eq(m->template GetUniformValue<double>(), x, l); se_assert_eq((double)m->template GetUniformValue<float128>(), x, l); } break; } }
template <class M> static bool write(const M &m, V &w, int op) { // whole-model writes
  switch (op) { case 0: { double x = se_real("u"); m->SetValues(x); w.assign(w.size(), x); return true; } case 1: { double x = se_real("u"); m->SetValues(float128(x)); w.assign(w.size(), x); return true; }
    case 2: { w = symv("v", w.size()); m->SetValues(w); return true; } case 3: { w = symv("v", w.size()); m->SetValues(up(w)); return true; } } return false; }
void se_main() {
  int kind = se_choose("kind", 5);
  if (kind < 2) {
    Mesh m(1); for (int i = 0; i < 3; i++) m.coord(i); Region *r = m.region("r", {0, 1, 2}, {{0, 1}, {1, 2}});
    auto n = nsol(r, "n"); V w(3, 0.0);
    if (kind == 1) { ConstNodeList_t cn{r->GetNodeList()[2], r->GetNodeList()[0]}; Contact *c = new Contact("c", r, cn, "metal"); m.dev->AddContact(c); n->SetContact(c); }
    for (int k = 0; k < LL; k++) { int op = se_choose("op", kind == 1 ? 5 : 7);
      if (op == 4) read(n, w, "stored values");
      else if (op > 4) { int i = se_choose("index", 2); double x = se_real("x"); if (op == 5) n->SetNodeValue<double>(i, x); else n->SetNodeValue<float128>(i, x); w[i] = x; }
      else { write(n, w, op); if (kind == 1) w[1] = 0; } }
    read(n, w, "stored values"); eq(n->GetScalarValues<double>(), w, "stored values"); eq(down(n->GetScalarValues<float128>()), w, "stored values"); se_reach("node"); return; }
  Mesh m(kind == 4 ? 3 : 2); m.coord(0, 0, 0); m.coord(1, 0, 0); m.coord(0, 1, 0); if (kind == 4) m.coord(0, 0, 1);
  auto run = [&](auto M, size_t n) { V w(n, 0.0); for (int k = 0; k < 2; k++) { int op = se_choose("op", 5); if (op == 4) read(M, w, "stored values"); else write(M, w, op); } read(M, w, "stored values"); eq(M->template GetScalarValues<double>(), w, "stored values"); };
  if (kind == 4) { Region *r = m.region("r", {0, 1, 2, 3}, {{0, 1, 2, 3}}); run(CreateTetrahedronEdgeSubModel("m", r, TetrahedronEdgeModel::DisplayType::SCALAR), 6); }
  else { Region *r = m.region("r", {0, 1, 2}, {{0, 1, 2}}); if (kind == 2) run(CreateEdgeSubModel("m", r, EdgeModel::DisplayType::SCALAR), 3); else run(CreateTriangleEdgeSubModel("m", r, TriangleEdgeModel::DisplayType::SCALAR), 3); }
  se_reach("element");
}
#elif defined(ARITH)
static double f(bool t, double a, double b) { return t ? a * b : a + b; }
template <class Mo, class MP> static void run(MP a, MP b, MP c, size_t n) { // a, b, c: models (shared pointers)
  typedef ScalarData<Mo, double> S; MP ms[3] = {a, b, c}; V vs[3];
  for (int i = 0; i < 3; i++) switch (se_choose("model", i == 2 ? 2 : 4)) { case 0: vs[i] = symv("v", n); ms[i]->SetValues(vs[i]); break; case 1: { double x = se_real("u"); ms[i]->SetValues(x); vs[i] = V(n, x); break; } case 2: { vs[i] = V(n, 0.0); ms[i]->SetValues(0.0); break; } case 3: vs[i] = V(n, 1.0); ms[i]->SetValues(1.0); break; }
  S s(*ms[0]); V w = vs[0];
  if (se_choose("explicit", 2)) { double x = se_real("x"); s[1] = x; w[1] = x; }
  for (int k = 0; k < 2; k++) { bool t = se_choose("times", 2); V o;
    switch (se_choose("operand", k ? 3 : 4)) {
      case 0: o = vs[1 + k]; if (t) s.times_equal_model(*ms[1 + k]); else s.plus_equal_model(*ms[1 + k]); break;
      case 1: { S d(*ms[1 + k]); o = vs[1 + k]; if (t) s.times_equal_data(d); else s.plus_equal_data(d); eq(d.GetScalarList(), o, "operand unchanged"); break; }
      case 2: { double x = se_real("y"); o = V(n, x); if (t) s.times_equal_scalar(x); else s.plus_equal_scalar(x); break; }
      case 3: { o = symv("e", n); S d(o); if (t) s.times_equal_data(d); else s.plus_equal_data(d); break; } }
    for (size_t i = 0; i < n; i++) w[i] = f(t, w[i], o[i]); }
  const S &cs = s; if (se_choose("list", 2)) eq(cs.GetScalarList(), w, "element-wise result"); for (size_t i = 0; i < n; i++) se_assert_eq(cs[i], w[i], "element-wise result"); se_assert(cs.GetLength() == n, "length");
  if (cs.IsUniform()) se_assert_eq(cs.GetUniformValue(), w[0], "element-wise result");
  for (int i = 0; i < 3; i++) eq(ms[i]->template GetScalarValues<double>(), vs[i], "models unchanged");
}
void se_main() {
  int d3 = DIM == 3; Mesh m(d3 ? 3 : 2); m.coord(0, 0, 0); m.coord(1, 0, 0); m.coord(0, 1, 0); if (d3) m.coord(0, 0, 1);
  Region *r = d3 ? m.region("r", {0, 1, 2, 3}, {{0, 1, 2, 3}}) : m.region("r", {0, 1, 2}, {{0, 1, 2}});
  V z(3, 0.0);
#if DIM == 0
  run<NodeModel>(nsol(r, "a"), nsol(r, "b"), nsol(r, "c"), 3);
#elif DIM == 1
  run<EdgeModel>(esol(r, "a", z), esol(r, "b", z), esol(r, "c", z), 3);
#elif DIM == 2
  run<TriangleEdgeModel>(tsol(r, "a", z), tsol(r, "b", z), tsol(r, "c", z), 3);
#else
  z.resize(6); run<TetrahedronEdgeModel>(ttsol(r, "a", z), ttsol(r, "b", z), ttsol(r, "c", z), 6);
#endif
  se_reach("arith");
}
#else
#include "ParallelOpEqual.cc"
struct Rec { std::vector<std::pair<size_t, size_t>> *v; void operator()(size_t b, size_t e) { v->push_back({b, e}); } };
namespace ThreadInfo { static size_t nt, ts; size_t GetNumberOfThreads() { return nt; } size_t GetMinimumTaskSize() { return ts; } }
void se_main() {
  std::vector<std::pair<size_t, size_t>> v; Rec rec{&v};
  ThreadInfo::nt = se_choose("threads", NT); ThreadInfo::ts = (uint32_t)se_int32("task_size"); size_t n = (uint32_t)se_int32("length"); se_assume(n >= 1);
  OpEqualRun(rec, n);
  size_t at = 0; for (auto &p : v) { se_assert(p.first == at, "ranges follow each other without gap or overlap"); se_assert(p.second > p.first && p.second <= n, "range is not empty and inside"); at = p.second; }
  se_assert(at == n, "everything is covered"); if (v.size() > 1) se_reach("split"); else se_reach("whole");
}
#endif

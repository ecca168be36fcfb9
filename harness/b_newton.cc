// B03, B04, B05: the real solve command (Newton, linear solver, external preconditioner) with a solver procedure that returns arbitrary results.
// CFG 0: routing of boundary rows (direct current, small signal, noise, export); 1: time integration; 2: failure and convergence.
#define THREE 1
#include "eq.h"
#include "cmd.h"
#include "ExprContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "InterfaceExprEquation.hh"
#include "InterfaceEquationHolder.hh"
#include "Permutation.hh"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#include "InstanceKeeper.hh"
#include "InstanceModel.hh"
#include "IdealResistor.hh"
#include "IdealCapacitor.hh"
#include "IdealVoltage.hh"
#include "Signal.hh"
#include "Interpreter.hh"
#include "ControlGIL.hh"
#include "dsTimer.hh"
#include "MathCommands.hh"
#include <complex>
#include <functional>
using namespace dsMathEnum;
MasterGILControl::MasterGILControl() {} MasterGILControl::~MasterGILControl() {} void MasterGILControl::allow_threading() {} void MasterGILControl::end_allow_threading() {} void *MasterGILControl::thread_state_;
dsTimer::dsTimer(const std::string &, OutputStream::OutputType) {} dsTimer::~dsTimer() {}
static ObjectHolder ints(const std::vector<int> &l) { ObjectHolderList_t o; for (int i : l) o.push_back(ObjectHolder(i)); return ObjectHolder(o); }
static ObjectHolder dbls(const V &l) { ObjectHolderList_t o; for (double i : l) o.push_back(ObjectHolder(i)); return ObjectHolder(o); }
ObjectHolder CreateIntPODArray(const std::vector<int> &l) { return ints(l); }
ObjectHolder CreateDoublePODArray(const V &l) { return dbls(l); }
ObjectHolder CreateComplexDoublePODArray(const std::vector<std::complex<double>> &l) { V v; for (auto &c : l) { v.push_back(c.real()); v.push_back(c.imag()); } return dbls(v); }
bool ObjectHolder::GetComplexDoubleList(std::vector<std::complex<double>> &v) const { V d; if (!GetDoubleList(d)) return false; v.clear(); for (size_t i = 0; i + 1 < d.size(); i += 2) v.push_back({d[i], d[i + 1]}); return true; }
Interpreter::Interpreter() {} Interpreter::~Interpreter() {}
static bool solver(ObjectHolderMap_t &, ObjectHolderMap_t &); static bool custom(const std::string &, const std::string &, const std::string &, ObjectHolder &);
bool Interpreter::RunCommand(ObjectHolder &c, ObjectHolderMap_t &a) { ObjectHolderMap_t r; if (c.GetString() != "proc solver" || !solver(a, r)) { error_string_ = "failed"; return false; } result_ = ObjectHolder(r); return true; }
bool Interpreter::RunCommand(ObjectHolder &c, std::vector<ObjectHolder> &a) { if (a.size() != 2) { error_string_ = "arguments"; return false; } if (!custom(c.GetString(), a[0].GetString(), a[1].GetString(), result_)) { error_string_ = "failed"; return false; } return true; }
bool Interpreter::RunInternalCommand(const std::string &, const std::vector<std::pair<std::string, ObjectHolder>> &) { error_string_ = "failed"; return false; }

static std::vector<Mesh *> devs; static size_t nun; static bool csr, transposed, complexity; static std::vector<int> Ap, Ai; static V Ax; static int factors, solves;
static std::function<bool(const V &, V &)> onsolve; static std::function<bool()> onfactor;
static double get(const V &ax, const std::vector<int> &ap, const std::vector<int> &ai, size_t r, size_t c, size_t st, size_t of) { double s = 0; bool f = false; size_t a = csr ? r : c, b = csr ? c : r; for (int k = ap[a]; k < ap[a + 1]; k++) if ((size_t)ai[k] == b) { s = f ? s + ax[k * st + of] : ax[k * st + of]; f = true; } return s; }
static bool solver(ObjectHolderMap_t &a, ObjectHolderMap_t &r) { std::string act = a["action"].GetString(); r["status"] = ObjectHolder(true); r["message"] = ObjectHolder("");
  if (act == "init") { nun = a["n"].GetInteger().second; transposed = a["transpose"].GetBoolean().second; r["matrix_format"] = ObjectHolder(csr ? "csr" : "csc"); r["solver_object"] = ObjectHolder("handle"); return true; }
  se_assert(a["solver_object"].GetString() == "handle", "solver is given its object"); bool cx = a["is_complex"].GetBoolean().second; se_assert(cx == complexity, "kind of the system");
  if (act == "factor") { factors++; Ap.clear(); Ai.clear(); ObjectHolderList_t l; a["Ap"].GetListOfObjects(l); for (auto &o : l) Ap.push_back(o.GetInteger().second); a["Ai"].GetListOfObjects(l); for (auto &o : l) Ai.push_back(o.GetInteger().second); a["Ax"].GetDoubleList(Ax); r["status"] = ObjectHolder(onfactor ? onfactor() : true); return true; }
  solves++; V b, x; a["b"].GetDoubleList(b); if (!onsolve(b, x)) return false; r["x"] = dbls(x); return true; }
// ---- oracle: the pieces of the system added up by hand
struct Sys { Mat M; Row R; };
static std::map<size_t, std::pair<size_t, bool>> perms() { std::map<size_t, std::pair<size_t, bool>> o; for (auto *m : devs) { PermutationMap p; MV a; RV b; m->dev->ContactAssemble<double>(a, b, p, WhatToLoad::PERMUTATIONSONLY, TimeMode::DC); m->dev->InterfaceAssemble<double>(a, b, p, WhatToLoad::PERMUTATIONSONLY, TimeMode::DC); for (auto &e : p) o[e.first] = {e.second.GetRow(), e.second.KeepCopy()}; } return o; }
static void put(Sys &s, const MV &a, const RV &b, const std::map<size_t, std::pair<size_t, bool>> *p, size_t of) {
  for (auto &e : a) { size_t r = e.row, c = e.col; bool keep = true; if (p) { auto it = p->find(r); if (it != p->end()) { if (it->second.first != size_t(-1)) add(s.M, it->second.first, c, e.val); keep = it->second.first != size_t(-1) && it->second.second; } } if (keep) add(s.M, r + of, c + of, e.val); }
  for (auto &e : b) { size_t r = e.first; bool keep = true; if (p) { auto it = p->find(r); if (it != p->end()) { if (it->second.first != size_t(-1)) add(s.R, it->second.first, e.second); keep = it->second.first != size_t(-1) && it->second.second; } } if (keep) add(s.R, r + of, e.second); } }
struct Cust { int on, bulk; size_t row, col; double m[2], r[2]; }; static Cust cu; // matrix and residual entries, at fixed state and time dependent
static bool custom(const std::string &, const std::string &w, const std::string &t, ObjectHolder &o) { int k = t == "TIME"; se_assert(t == "DC" || k, "time mode of a custom equation"); se_assert(w == "RHS" || w == "MATRIXONLY" || w == "MATRIXANDRHS", "what a custom equation is asked for");
  ObjectHolderList_t a = {ObjectHolder((int)cu.row), ObjectHolder((int)cu.col), ObjectHolder(cu.m[k])}, b = {ObjectHolder((int)cu.row), ObjectHolder(cu.r[k])}, l = {ObjectHolder(a), ObjectHolder(b), ObjectHolder((bool)cu.bulk)}; o = ObjectHolder(l); return true; }
static Sys pieces(int time) { Sys s; auto p = perms(); TimeMode t = time ? TimeMode::TIME : TimeMode::DC;
  for (auto *m : devs) { MV a; RV b; PermutationMap q; m->dev->ContactAssemble<double>(a, b, q, WhatToLoad::MATRIXANDRHS, t); m->dev->InterfaceAssemble<double>(a, b, q, WhatToLoad::MATRIXANDRHS, t); put(s, a, b, nullptr, 0); MV c; RV d; m->dev->RegionAssemble<double>(c, d, WhatToLoad::MATRIXANDRHS, t); put(s, c, d, &p, 0); }
  NodeKeeper &nk = NodeKeeper::instance(); if (nk.HaveNodes()) { MV a; RV b; auto &sol = *nk.GetSolution("dcop"); if (time) InstanceKeeper::instance().AssembleTRMatrix(&a, sol, b, 1.0); else InstanceKeeper::instance().AssembleDCMatrix(a, sol, b); put(s, a, b, nullptr, nk.GetMinEquationNumber()); }
  if (cu.on) { MV a; RV b; a.push_back(dsMath::RowColVal<double>(cu.row, cu.col, cu.m[time])); b.push_back({(int)cu.row, cu.r[time]}); put(s, a, b, cu.bulk ? &p : nullptr, 0); }
  return s; }
static void matrix(const V &ax, const std::vector<int> &ap, const std::vector<int> &ai, size_t st, size_t of, const Mat &M, double f, const Mat *M2, double g, const char *label) {
  for (size_t i = 0; i < nun; i++) for (size_t j = 0; j < nun; j++) { double w = f * at(M, i, j) + (M2 ? g * at(*M2, i, j) : 0.0); double v = get(ax, ap, ai, i, j, st, of); if (!se_native() && !se_symbolic(w) && !se_symbolic(v)) se_assert(w == v, label); else se_assert_eq(v, w, label); } }
#if CFG
static V nzc(const char *, size_t k) { static int c; V v; for (size_t i = 0; i < k; i++) v.push_back(1 + 0.25 * (c++ % 7)); return v; }
#define NZ nzc
#else
#define NZ nzv
#endif
static V nzv(const char *n, size_t k) { V v = symv(n, k); for (double x : v) se_nz(x); return v; } // factors of matrix entries (zero entries: B01)
static void edge(Region *r, const char *nm, const char *v1, const char *v2, bool t) { size_t n = r->GetNumberEdges(), N = r->GetNumberNodes(); if (t) { nsol(r, nm, symv(nm, N)); nsol(r, std::string(nm) + ":" + v1, NZ("d", N)); if (*v2) nsol(r, std::string(nm) + ":" + v2, NZ("d", N)); }
  else { esol(r, nm, symv(nm, n)); for (auto *v : {v1, v2}) if (*v) for (int k = 0; k < 2; k++) esol(r, std::string(nm) + ":" + v + (k ? "@n1" : "@n0"), NZ("d", n)); } }
static void geometry(Region *r) { nsol(r, "nv", NZ("nv", r->GetNumberNodes())); esol(r, "ec", NZ("ec", r->GetNumberEdges())); par(r, "node_volume_model", "nv"); par(r, "edge_couple_model", "ec"); nsol(r, "sa", NZ("sa", r->GetNumberNodes())); par(r, "surface_area_model", "sa"); }
struct Given : InterfaceNodeModel { V v; Given(const std::string &n, InterfacePtr i, const V &x) : InterfaceNodeModel(n, i), v(x) {} void derived_init() override {} void calcNodeScalarValues() const override { InterfaceNodeModel::SetValues(v); } void Serialize(std::ostream &) const override {} };
static void given(Interface *i, const std::string &n) { InterfaceNodeModelPtr p = std::make_shared<Given>(n, i, NZ("iv", 1)); i->AddInterfaceNodeModel(p); }
static void globals() { auto &g = GlobalData::GetInstance(); g.AddDBEntryOnGlobal("debug_level", ObjectHolder("info")); g.AddDBEntryOnGlobal("direct_solver", ObjectHolder("custom")); g.AddDBEntryOnGlobal("solver_callback", ObjectHolder("proc solver")); }
static Contact *contact(Mesh &m, Region *r, const char *nm, int node, const char *eq, const char *cn, bool terminal) { ConstNodeList_t l = {r->GetNodeList()[node]}; auto *c = new Contact(nm, r, l, "metal"); m.dev->AddContact(c);
  auto *q = new ExprContactEquation<double>(eq, cn, c, r, "N", "", "", "", "", "", "", terminal ? "F" : "", "", terminal ? "T" : "", "", ""); ContactEquationHolder h(static_cast<ContactEquation<double> *>(q)); c->AddEquation(h); return c; }
static Res run(const char *type, Args a = {}) { a["type"] = ObjectHolder(type); return command(dsCommand::solveCmd, "solve", a); }
static InstanceModel *elem(InstanceModel *m) { InstanceKeeper::instance().addInstanceModel(m); return m; }
static size_t unknowns(size_t circuit) { size_t n = 0; for (auto *m : devs) { m->dev->SetBaseEquationNumber(n); size_t k = m->dev->CalcMaxEquationNumber(false); if (k != size_t(-1)) n = k + 1; } return n + circuit; }
#if CFG == 0
void se_main() {
  se_opt("text", 1); globals(); Mesh m(1, "d"); for (int i = 0; i < 3; i++) m.coord(i); devs.push_back(&m); NodeKeeper &nk = NodeKeeper::instance();
  int itype = se_choose("interface", 4), con = se_choose("contact", 3), two = itype == 1 || itype == 2 ? 0 : se_choose("second device", 2), analysis = se_choose("analysis", 4); csr = (itype + con + analysis) % 2;
  Region *a = m.region("a", {0, 1}, {{0, 1}}), *b = m.region("b", {1, 2}, {{0, 1}}); for (auto *r : {a, b}) { nsol(r, "u", symv("u", 2)); geometry(r); edge(r, "F", "u", "", false); edge(r, "T", "u", "", true); edge(r, "N", "u", "", true); equation(r, "e", "u", "", "F", "", "", "", "", "T"); }
  if (con == 1) nsol(a, "N:cn", NZ("dc", 2));
  ConstNodeList_t n0 = {a->GetNodeList()[1]}, n1 = {b->GetNodeList()[0]}; auto *it = new Interface("i", a, b, n0, n1); m.dev->AddInterface(it); given(it, "M"); given(it, "M:u@r0"); given(it, "M:u@r1");
  if (itype < 3) { auto *q = new InterfaceExprEquation<double>("q", "e", "e", it, "M", itype == 0 ? InterfaceExprEquationEnum::CONTINUOUS : itype == 1 ? InterfaceExprEquationEnum::FLUXTERM : InterfaceExprEquationEnum::HYBRID); InterfaceEquationHolder h(static_cast<InterfaceEquation<double> *>(q)); it->AddInterfaceEquation(h); }
  double rv = se_real("R"); se_nz(rv); size_t circuit = 0; double acr = 0, aci = 0; if (con) { nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("cn"); elem(new IdealResistor(&nk, "R", "cn", "0"))->addParam("R", rv); elem(new IdealCapacitor(&nk, "C", "cn", "0"))->addParam("C", NZ("C", 1)[0]); circuit = 1; if (con == 2) { acr = se_real("acr"); aci = se_real("aci"); SignalPtr s(new DCOnly(1.0)); elem(new IdealVoltage(&nk, "V", "cn", "0", se_real("V"), acr, aci, s)); circuit = 2; } }
  contact(m, a, "k", 0, "e", con == 1 ? "cn" : "", con == 1);
  Mesh *m2 = nullptr; if (two) { m2 = new Mesh(1, "c"); m2->coord(0); m2->coord(1); Region *r = m2->region("a", {0, 1}, {{0, 1}}); nsol(r, "w", symv("w", 2)); geometry(r); edge(r, "F", "w", "", false); edge(r, "T", "w", "", true); equation(r, "e", "w", "", "F", "", "", "", "", "T"); devs.insert(devs.begin(), m2); }
  nun = unknowns(circuit); cu.on = se_choose("custom", 3); cu.bulk = cu.on == 2; if (cu.on) { static const int W[4] = {0, 1, 2, 3}; int k = se_choose("custom row", 3); cu.row = (two ? 2 : 0) + W[k == 0 ? 0 : k == 1 ? 2 : 3]; cu.col = (cu.row + 1) % nun; for (int i = 0; i < 2; i++) { cu.m[i] = nzv("cm", 1)[0]; cu.r[i] = se_real("cr"); } std::string e; GlobalData::GetInstance().AddTclEquation("x", ObjectHolder("proc custom"), e); }
  if (nk.HaveNodes()) { nk.SetNodeNumbers(nun - circuit, false); nk.InitializeSolution("dcop"); nk.SetNodeValue("dcop", "cn", se_real("vcn")); }
  size_t crow = nk.HaveNodes() ? nk.GetEquationNumber("cn") : 0; bool called = false; V res;
  if (analysis == 0) { complexity = false; onsolve = [&](const V &bv, V &x) { called = true; Sys s = pieces(0); se_assert(Ap.size() == nun + 1 && bv.size() == nun, "size of the system"); matrix(Ax, Ap, Ai, 1, 0, s.M, 1, nullptr, 0, "matrix of the static system"); for (size_t i = 0; i < nun; i++) se_assert_eq(bv[i], -at(s.R, i), "right-hand side of the static system"); x.assign(nun, 0.0); return true; };
    Res r = run("dc", {{"absolute_error", ObjectHolder(1.0)}, {"relative_error", ObjectHolder(1.0)}}); if (!(r.ok && called)) printf("%s\n", r.error.c_str()); se_assert(r.ok && called, "solved"); se_reach("static"); return; }
  if (analysis == 1) { Res r = command(dsCommand::getMatrixAndRHSCmd, "get_matrix_and_rhs", {{"format", ObjectHolder(csr ? "csr" : "csc")}}); ObjectHolderMap_t o; se_assert(r.ok && r.value.GetHashMap(o), "exported"); if (!r.ok) return; se_assert(o["format"].GetString() == (csr ? "csr" : "csc"), "format of the export");
    for (int t = 0; t < 2; t++) { ObjectHolderMap_t q; V av, rv; std::vector<int> ap, ai; ObjectHolderList_t l; o[t ? "dynamic" : "static"].GetHashMap(q); q["av"].GetDoubleList(av); q["rhs"].GetDoubleList(rv); q["ap"].GetListOfObjects(l); for (auto &e : l) ap.push_back(e.GetInteger().second); q["ai"].GetListOfObjects(l); for (auto &e : l) ai.push_back(e.GetInteger().second); Sys s = pieces(t); se_assert(ap.size() == nun + 1 && rv.size() == nun, "size of the export"); matrix(av, ap, ai, 1, 0, s.M, 1, nullptr, 0, "matrix of the export"); for (size_t i = 0; i < nun; i++) se_assert_eq(rv[i], -at(s.R, i), "right-hand side of the export"); }
    ObjectHolderMap_t q; o["permutation"].GetHashMap(q); ObjectHolderList_t row, cp; q["row"].GetListOfObjects(row); q["copy"].GetListOfObjects(cp); auto p = perms(); se_assert(row.size() == nun && cp.size() == nun, "size of the permutation"); for (size_t i = 0; i < nun; i++) { auto f = p.find(i); int w = f == p.end() ? (int)i : f->second.first == size_t(-1) ? -1 : (int)f->second.first; se_assert(row[i].GetInteger().second == w && cp[i].GetInteger().second == (f != p.end() && f->second.second), "exported permutation"); } se_reach("export"); return; }
  complexity = true; double fr = nzv("frequency", 1)[0]; bool noise = analysis == 3; if (noise && !con) return; res = symv("x", 2 * nun);
  onsolve = [&](const V &bv, V &x) { called = true; Sys s = pieces(0), t = pieces(1); const double tp = 6.283185307179586; se_assert(Ap.size() == nun + 1 && bv.size() == 2 * nun, "size of the system"); matrix(Ax, Ap, Ai, 2, 0, s.M, 1, nullptr, 0, "real part of the small-signal matrix");
    for (size_t i = 0; i < nun; i++) for (size_t j = 0; j < nun; j++) { double g = get(Ax, Ap, Ai, i, j, 2, 1), w = at(t.M, i, j); if (!se_native() && !se_symbolic(g) && !se_symbolic(w)) se_assert(g == w * tp, "imaginary part of the small-signal matrix"); else se_assert_eq(g, w * fr * tp, "imaginary part of the small-signal matrix"); }
    for (size_t i = 0; i < nun; i++) { double re = 0, im = 0; if (noise) re = i == crow ? 1 : 0; else if (con == 2 && i == nk.GetEquationNumber("V.I")) { re = acr; im = aci; } se_assert_eq(bv[2 * i], re, "right-hand side"); se_assert_eq(bv[2 * i + 1], im, "right-hand side"); } x = res; return true; };
  Res r = run(noise ? "noise" : "ac", {{"frequency", ObjectHolder(fr)}, {"output_node", ObjectHolder(noise ? "cn" : "")}}); if (!(r.ok && called)) printf("%s\n", r.error.c_str()); se_assert(r.ok && called, "solved"); se_assert(transposed == noise, "noise solves with the transposed matrix");
  if (con) { std::string re = noise ? "noise_cn_real" : "ssac_real", im = noise ? "noise_cn_imag" : "ssac_imag"; se_assert_eq(nk.GetNodeValue(re, "cn"), res[2 * crow], "circuit result"); se_assert_eq(nk.GetNodeValue(im, "cn"), res[2 * crow + 1], "circuit result"); }
  auto p = perms(); for (auto *g : {a, b}) { V re = nval(g, noise ? "cn_e_real" : "u_Real"), im = nval(g, noise ? "cn_e_imag" : "u_Imag"); for (int i = 0; i < 2; i++) { size_t row = g->GetEquationNumber(0, g->GetNodeList()[i]); if (noise) { auto f = p.find(row); if (f != p.end()) row = f->second.first; } se_assert_eq(re[i], row == size_t(-1) ? 0.0 : res[2 * row], "device result"); se_assert_eq(im[i], row == size_t(-1) ? 0.0 : res[2 * row + 1], "device result"); } }
  se_reach(noise ? "noise" : "small signal");
}
#endif
struct Lin : NodeModel { V k; std::string dep; Lin(const char *n, RegionPtr r, const V &v, const char *d) : NodeModel(n, r, DisplayType::SCALAR), k(v), dep(d) {} void derived_init() override { RegisterCallback(dep); } void calcNodeScalarValues() const override { V o(k.size()); auto r = GetRegion().GetNodeModel(dep); if (r) { V u = r->GetScalarValues<double>(); for (size_t i = 0; i < k.size(); i++) o[i] = k[i] * u[i]; } else { double c = NodeKeeper::instance().GetNodeValue("dcop", dep); for (size_t i = 0; i < k.size(); i++) o[i] = k[i] * c; } NodeModel::SetValues(o); } void setInitialValues() override {} void Serialize(std::ostream &) const override {} };
static void lin(Region *r, const char *n, const V &k, const char *dep) { NodeModelPtr p = std::make_shared<Lin>(n, r, k, dep); r->AddNodeModel(p); std::static_pointer_cast<Lin>(p)->derived_init(); }
static double ab(double x) { return x < 0 ? -x : x; }
#if CFG == 1
struct Hist { bool have; V I, Q; };
void se_main() {
  se_opt("text", 1); globals(); Mesh m(1, "d"); m.coord(0); m.coord(1); devs.push_back(&m); NodeKeeper &nk = NodeKeeper::instance(); Region *a = m.region("a", {0, 1}, {{0, 1}}); nsol(a, "u", V{1, 1.5}); geometry(a);
  bool con = se_choose("contact", 2); edge(a, "F", "u", "", false); lin(a, "T", V{2, -3}, "u"); auto T0 = std::dynamic_pointer_cast<const Lin>(a->GetNodeModel("T")); Lin &TT = const_cast<Lin &>(*T0); nsol(a, "T:u", V{1.75, 2.5}); int sy = se_choose("symbolic step", LL + 2); edge(a, "N", "u", "", true); equation(a, "e", "u", "", "F", "", "", "", "", "T");
  if (con) { nsol(a, "N:cn", NZ("dc", 2)); nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("cn"); elem(new IdealCapacitor(&nk, "C", "cn", "0"))->addParam("C", NZ("C", 1)[0]); contact(m, a, "k", 0, "e", "cn", true); }
  nun = unknowns(con ? 1 : 0); if (con) { nk.SetNodeNumbers(2, false); nk.InitializeSolution("dcop"); nk.SetNodeValue("dcop", "cn", 2); }
  Hist h[2] = {{false, {}, {}}, {false, {}, {}}}; int n = 0; static const char *const TY[] = {"transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2", "dc"};
  for (int s = 0; s < LL + 2; s++) { // the first step starts the transient, the last shows the history
    int ty = s == 0 ? 0 : s == LL + 1 ? 2 + se_choose("last", 2) : se_choose("step", 7); // 5, 6: rejected
    bool reject = ty == 5, strict = ty == 6; if (ty >= 5) ty = ty == 5 ? 1 + se_choose("method", 2) : 1; if (ty == 3 && !h[1].have) return;
    bool sym = s == sy; double f = sym ? se_real("F") : 0.375 * s - 0.5; esol(a, "F", V{f}); TT.k[0] = sym ? nzv("k", 1)[0] : 2 + 0.25 * s; bool integ = ty >= 1 && ty <= 3; double ts = !integ ? 0 : strict || !sym ? 0.5 * (1 << s) : se_real("tdelta"), g = 1; if (sym && integ) se_assume(ts > 0); if (strict || (!sym && ty == 3)) g = 0.5; else if (!sym) g = s == 1 ? 0.5 : 1; else if (ty == 3 || (integ && s == 1)) { g = se_real("gamma"); se_assume(g > 0 && g < 1); }
    double a0 = 0, a1 = 0, a2 = 0, b1 = 0, td = 0; // derivative of the interpolation polynomial; the trapezoidal rule takes the mean of two derivatives
    if (ty == 1) { td = g * ts; a0 = 1 / td; a1 = -1 / td; } if (ty == 2) { td = g * ts; a0 = 2 / td; a1 = -2 / td; b1 = 1; }
    if (ty == 3) { double t0 = g * ts, t = ts; td = t - t0; a0 = 1 / t + 1 / (t - t0); a1 = t / (t0 * (t0 - t)); a2 = (t - t0) / (t0 * t); }
    complexity = false; int calls = 0;
    onsolve = [&](const V &bv, V &x) { calls++; Sys S = pieces(0), T = pieces(1); matrix(Ax, Ap, Ai, 1, 0, S.M, 1, integ ? &T.M : nullptr, a0, "matrix of the time step");
      for (size_t i = 0; i < nun; i++) { double w = -at(S.R, i); if (integ) { w = w - a0 * at(T.R, i) + a1 * h[0].Q[i]; if (ty == 3) w = w + a2 * h[1].Q[i]; if (ty == 2) w = w + b1 * h[0].I[i]; } se_assert_eq(bv[i], w, "right-hand side of the time step"); }
      x.clear(); for (size_t i = 0; i < nun; i++) x.push_back(reject ? 4.0 : 0.25 * (i + 1 + n)); n++; return true; };
    double lim = strict && !sym ? 0.5 : strict ? se_real("charge error") : 2; if (strict) se_assume(lim >= 0);
    Res r = run(TY[ty], {{"absolute_error", ObjectHolder(reject ? 3.0 : 1e10)}, {"relative_error", ObjectHolder(1e10)}, {"maximum_iterations", ObjectHolder(1)}, {"tdelta", ObjectHolder(ts)}, {"gamma", ObjectHolder(g)}, {"charge_error", ObjectHolder(lim)}});
    se_assert(calls == 1, "one iteration"); if (reject) { se_assert(!r.ok, "not converged"); se_reach("rejected"); continue; }
    if (strict) { if (!r.ok) { se_reach("charge error"); continue; } }
    Sys S = pieces(0), T = pieces(1); V I, Q; for (size_t i = 0; i < nun; i++) { I.push_back(-at(S.R, i)); Q.push_back(-at(T.R, i)); }
    if (strict) { for (size_t i = 0; i < nun; i++) { double p = h[0].Q[i] - td * h[0].I[i], q = Q[i]; if (q == 0) continue; se_assert(ab(q - p) <= lim * (1e-20 + ab(q) + ab(p)), "accepted charge is close to the projected charge"); } }
    else se_assert(r.ok, "converged");
    if (ty == 0) { h[0] = {true, I, Q}; h[1].have = false; } else if (integ) { h[1] = h[0]; h[0] = {true, I, Q}; } se_reach(TY[ty]); }
}
#endif
#if CFG == 2
void se_main() {
  se_opt("text", 1); globals(); Mesh m(1, "d"); m.coord(0); m.coord(1); devs.push_back(&m); NodeKeeper &nk = NodeKeeper::instance(); Region *a = m.region("a", {0, 1}, {{0, 1}}); V u = {1, 1.5}, k = {2, -1}, g = {0.5, 3}; nsol(a, "u", u); geometry(a); edge(a, "F", "u", "", false); equation(a, "e", "u", "", "F", "", "", "", "", ""); lin(a, "L", k, "u");
  bool circuit = se_choose("circuit", 2), info = 0; double vc = 0; if (circuit) { nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("cn"); elem(new IdealResistor(&nk, "R", "cn", "0"))->addParam("R", 1.0); lin(a, "G", g, "cn"); }
  bool two = !circuit && se_choose("second device", 2); Region *b = nullptr; V u2; if (two) { Mesh *m2 = new Mesh(1, "c"); m2->coord(0); m2->coord(1); b = m2->region("a", {0, 1}, {{0, 1}}); u2 = V{-1, 0.75}; nsol(b, "w", u2); geometry(b); edge(b, "F", "w", "", false); equation(b, "e", "w", "", "F", "", "", "", "", ""); devs.insert(devs.begin(), m2); }
  nun = unknowns(circuit); if (circuit) { nk.SetNodeNumbers(2, false); nk.InitializeSolution("dcop"); vc = 2; nk.SetNodeValue("dcop", "cn", vc); nk.TriggerCallbacksOnNodes(); }
  auto state = [&](const V &x, const V &y, double c, const char *l) { V n = nval(a, "u"), L = nval(a, "L"); for (int i = 0; i < 2; i++) { se_assert_eq(n[i], x[i], l); se_assert_eq(L[i], k[i] * x[i], "models follow the solution"); } if (two) { V n2 = nval(b, "w"); for (int i = 0; i < 2; i++) se_assert_eq(n2[i], y[i], l); } if (circuit) { se_assert_eq(nk.GetNodeValue("dcop", "cn"), c, l); V G = nval(a, "G"); for (int i = 0; i < 2; i++) se_assert_eq(G[i], g[i] * c, "models follow the circuit"); } };
  state(u, u2, vc, "start"); double al = se_real("absolute error"), rl = se_real("relative error"), ml = se_real("maximum error"); int which = two && se_choose("unknown of the second device", 2) ? 1 : circuit && se_choose("unknown of the circuit", 2) ? 2 : 0, iters = 0, fail = 0; V X[IT], nu = u, nw = u2; double nc = vc; int maxit = 1 + se_choose("iterations", IT), maxdiv = se_choose("divergence", 2) ? 20 : 1; info = maxdiv == 1;
  onfactor = [&] { if (se_choose("singular", 2)) { fail = 1; return false; } return true; }; complexity = false;
  onsolve = [&](const V &, V &x) { if (fail || se_choose("solver fails", 2)) { fail = 2; return false; } se_assert(iters < maxit, "iteration limit"); if (iters >= maxit) se_stop(); state(nu, nw, nc, "iterations continue from the last update"); size_t o = two ? 2 : 0; x.assign(nun, 0.0625); x[which == 0 ? o : which == 1 ? 0 : 2] = se_real("x"); X[iters++] = x; for (int i = 0; i < 2; i++) { nu[i] = nu[i] + x[o + i]; if (two) nw[i] = nw[i] + x[i]; } if (circuit) nc = nc + x[2]; return true; };
  Args A = {{"absolute_error", ObjectHolder(al)}, {"relative_error", ObjectHolder(rl)}, {"maximum_error", ObjectHolder(ml)}, {"maximum_iterations", ObjectHolder(maxit)}, {"maximum_divergence", ObjectHolder(maxdiv)}}; if (info) A["info"] = ObjectHolder(true);
  Res r = run("dc", A); bool conv = r.ok; if (r.ok && info) { ObjectHolderMap_t o; r.value.GetHashMap(o); conv = o["converged"].GetBoolean().second; se_assert(o.count("converged") && o.count("iterations"), "information about the iterations"); ObjectHolderList_t l; o["iterations"].GetListOfObjects(l); se_assert((int)l.size() == iters, "number of iterations reported"); }
  if (fail) se_assert(!conv, "a failed solver is a failure");
  if (!conv) { state(u, u2, vc, "a failed solve restores the solution"); se_reach(fail == 1 ? "singular" : fail ? "solver error" : "not converged"); return; }
  state(nu, nw, nc, "a converged solve keeps the solution"); se_assert(iters >= 1, "at least one iteration"); if (iters < 1) return; V &x = X[iters - 1]; size_t o = two ? 2 : 0;
  for (int i = 0; i < 2; i++) { se_assert(ab(x[o + i]) < al, "absolute error limit"); se_assert(ab(x[o + i]) <= rl * (ab(nu[i]) + 1.01e-10) * 1.001, "relative error limit"); if (two) { se_assert(ab(x[i]) < al, "absolute error limit"); se_assert(ab(x[i]) <= rl * (ab(nw[i]) + 1.01e-10) * 1.001, "relative error limit"); } }
  if (circuit) { se_assert(ab(x[2]) < al, "absolute error limit of the circuit"); se_assert(nk.GetRelError("dcop") < rl, "relative error limit of the circuit"); }
  se_reach("converged");
}
#endif

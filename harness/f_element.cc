// F01: circuit elements.
#include "se.h"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#include "InstanceKeeper.hh"
#include "InstanceModel.hh"
#include "IdealResistor.hh"
#include "IdealCapacitor.hh"
#include "IdealInductor.hh"
#include "IdealVoltage.hh"
#include "IdealCurrent.hh"
#include "Signal.hh"
#include "MatrixEntries.hh"
#include <complex>
#include <map>
#include <string>
typedef dsMath::RealRowColValueVec<double> MV; typedef dsMath::RHSEntryVec<double> RV;
struct El { int kind; int n[2]; double p, acr, aci; std::string nm; };
void se_main() {
  NodeKeeper &nk = NodeKeeper::instance(); InstanceKeeper &ik = InstanceKeeper::instance(); const char *N[3] = {"0", "b", "a"}; // 0 is the ground
  nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("b"); nk.AddNode("a"); std::vector<El> es; int ne = NEL;
  for (int i = 0; i < ne; i++) { El e; e.kind = se_choose("kind", 5); e.n[0] = se_choose("node 1", 3); e.n[1] = se_choose("node 2", 3); e.nm = std::string(1, "RCLVI"[e.kind]) + std::to_string(i); double p = se_real("value"); e.acr = se_real("acreal"); e.aci = se_real("acimag"); if (e.kind == 0) se_nz(p); e.p = p;
    const char *a = N[e.n[0]], *b = N[e.n[1]]; InstanceModel *m = nullptr; bool alter = se_choose("altered", 2); double first = alter ? se_real("first") : p;
    switch (e.kind) { case 0: m = new IdealResistor(&nk, e.nm.c_str(), a, b); m->addParam("R", first); break; case 1: m = new IdealCapacitor(&nk, e.nm.c_str(), a, b); m->addParam("C", first); break; case 2: m = new IdealInductor(&nk, e.nm.c_str(), a, b); m->addParam("L", first); break;
      case 3: { SignalPtr s(new DCOnly(first)); m = new IdealVoltage(&nk, e.nm.c_str(), a, b, first, e.acr, e.aci, s); break; } default: { SignalPtr s(new DCOnly(first)); m = new IdealCurrent(&nk, e.nm.c_str(), a, b, first, s); } }
    ik.addInstanceModel(m); if (alter) { se_assert(ik.getInstanceModel(e.nm)->addParam(std::string(1, "RCLVI"[e.kind]), p), "parameter is known"); if (e.kind == 3) { double r = se_real("acreal2"), q = se_real("acimag2"); m->addParam("acreal", r); m->addParam("acimag", q); e.acr = r; e.aci = q; } }
    se_assert(!m->addParam("nonsense", 1.0), "unknown parameter is refused"); es.push_back(e); }
  nk.SetNodeNumbers(7, false); size_t n = nk.getNumberNodes(), extra = 0; for (auto &e : es) if (e.kind == 2 || e.kind == 3) extra++; se_assert(n == 2 + extra, "number of unknowns"); se_assert(nk.GetEquationNumber("0") == size_t(-1), "ground is not numbered");
  std::vector<double> x(n); for (auto &v : x) v = se_real("x"); int load = se_choose("load", 4); // direct, transient with and without matrix, small signal
  if (se_choose("time", 2)) ik.updateSignals(se_real("t"));
  MV m; RV r; double scl = 1; if (load == 0) ik.AssembleDCMatrix(m, x, r); else if (load < 3) { scl = se_real("scale"); ik.AssembleTRMatrix(load == 1 ? &m : nullptr, x, r, scl); }
  auto ix = [&](const std::string &s) { return nk.GetIndexNumber(s); };
  auto volt = [&](int k) { return k == 0 ? 0.0 : x[ix(N[k])]; };
  if (load == 3) { std::vector<std::pair<size_t, std::complex<double>>> ac; ik.assembleACRHS(ac); std::map<size_t, std::pair<double, double>> got; for (auto &e : ac) { auto &g = got[e.first]; g.first = g.first + e.second.real(); g.second = g.second + e.second.imag(); } size_t c = 0;
    for (auto &e : es) if (e.kind == 3) { c++; auto it = got.find(ix(e.nm + ".I")); se_assert(it != got.end(), "small-signal voltage is applied"); if (it == got.end()) return; se_assert_eq(it->second.first, e.acr, "real part of the small-signal voltage"); se_assert_eq(it->second.second, e.aci, "imaginary part of the small-signal voltage"); } se_assert(got.size() == c, "no other small-signal source"); se_reach("ac"); return; }
  std::vector<double> R(n, 0.0), W(n, 0.0), c(n, 0.0); // residual, expected residual, its part that does not depend on x
  for (auto &e : r) { se_assert(e.first >= 0 && (size_t)e.first < n, "row of an unknown"); R[e.first] = R[e.first] + e.second; }
  auto inject = [&](const El &e, double i, double k) { for (int t = 0; t < 2; t++) if (e.n[t]) { size_t q = ix(N[e.n[t]]); W[q] = t ? W[q] - i : W[q] + i; c[q] = t ? c[q] - k : c[q] + k; } };
  for (auto &e : es) { double v = volt(e.n[0]) - volt(e.n[1]); bool dc = load == 0;
    if (e.kind == 0 && dc) inject(e, v / e.p, 0); else if (e.kind == 1 && !dc) inject(e, scl * (e.p * v), 0);
    else if (e.kind == 2) { size_t k = ix(e.nm + ".I"); if (dc) { inject(e, x[k], 0); W[k] = W[k] - v; } else W[k] = W[k] + scl * (e.p * x[k]); }
    else if (e.kind == 3 && dc) { size_t k = ix(e.nm + ".I"); inject(e, x[k], 0); W[k] = W[k] + (v - e.p); c[k] = c[k] - e.p; } else if (e.kind == 4 && dc) inject(e, -e.p, -e.p); }
  for (size_t i = 0; i < n; i++) { se_assert_eq(R[i], W[i], "element law and current conservation"); }
  if (load == 2) { se_assert(m.empty(), "no matrix asked for"); se_reach("residual only"); return; }
  std::vector<double> J(n, 0.0); for (auto &e : m) { se_assert(e.row >= 0 && (size_t)e.row < n && e.col >= 0 && (size_t)e.col < n, "entry of unknowns"); J[e.row] = J[e.row] + e.val * x[e.col]; }
  for (size_t i = 0; i < n; i++) se_assert_eq(J[i] + c[i], W[i], "matrix entries are the derivatives"); se_reach("assembled");
}

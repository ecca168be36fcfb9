// C06: bookkeeping of the equations of a device.
#define THREE 1
#include "eq.h"
#include "dsException.hh"
#include <set>
static const char *NM[3] = {"a", "b", "c"}, *VR[3] = {"u", "v", "w"};
void se_main() {
  Mesh m(1); for (int i = 0; i < 3; i++) m.coord(i);
  std::vector<Region *> rs = {m.region("s", {0, 1, 2}, {{0, 1}, {1, 2}}), m.region("r", {1, 2}, {{0, 1}})};
  for (auto *r : rs) for (int v = 0; v < 3; v++) nsol(r, VR[v]);
  std::map<std::string, std::string> ref[2]; std::map<std::string, std::shared_ptr<EquationHolder>> obj[2];
  for (int step = 0; step < LL; step++) { int k = se_choose("region", 2), op = se_choose("operation", 10); Region *r = rs[k];
    if (op < 9) { std::string nm = NM[op / 3], v = VR[op % 3]; bool used = false; for (auto &p : ref[k]) if (p.second == v && p.first != nm) used = true; bool threw = false;
      try { equation(r, nm.c_str(), v.c_str()); } catch (const dsException &) { threw = true; } se_assert(threw == used, "a variable of another equation is refused"); if (!used) ref[k][nm] = v; }
    else { int d = se_choose("which", 3); if (!ref[k].count(NM[d])) continue; EquationHolder h = r->GetEquationPtrList()[NM[d]]; r->DeleteEquation(h); ref[k].erase(NM[d]); } }
  size_t base = se_choose("base", 2) ? 11 : 0; m.dev->SetBaseEquationNumber(base); size_t mx = m.dev->CalcMaxEquationNumber(false), total = 0; for (int k = 0; k < 2; k++) total += ref[k].size() * rs[k]->GetNumberNodes();
  se_assert(mx == (total ? base + total - 1 : size_t(-1)), "rows are contiguous from the base number"); std::set<size_t> rows;
  for (int k = 0; k < 2; k++) { Region *r = rs[k]; se_assert(r->GetNumberEquations() == ref[k].size() && r->GetEquationPtrList().size() == ref[k].size(), "number of equations"); std::vector<std::string> vars;
    for (auto &p : ref[k]) { vars.push_back(p.second); se_assert(r->GetEquationNameFromVariable(p.second) == p.first, "equation of a variable"); size_t i = r->GetEquationIndex(p.first); se_assert(i < ref[k].size(), "index in range"); if (i >= ref[k].size()) return;
      auto it = r->GetEquationPtrList().find(p.first); se_assert(it != r->GetEquationPtrList().end() && it->second.GetVariable() == p.second, "variable of an equation");
      for (auto *n : r->GetNodeList()) { size_t q = r->GetEquationNumber(i, n); se_assert(q >= base && q < base + total, "row in range"); se_assert(rows.insert(q).second, "rows are distinct"); } }
    std::sort(vars.begin(), vars.end()); auto vl = r->GetVariableList(); std::sort(vl.begin(), vl.end()); se_assert(vl == vars, "list of the variables");
    for (int v = 0; v < 3; v++) { bool has = std::find(vars.begin(), vars.end(), VR[v]) != vars.end(); se_assert(r->GetEquationNameFromVariable(VR[v]).empty() == !has, "free variables have no equation"); }
    for (int e = 0; e < 3; e++) if (!ref[k].count(NM[e])) se_assert(r->GetEquationIndex(NM[e]) == size_t(-1), "deleted equations have no index"); }
  se_reach("numbered");
}

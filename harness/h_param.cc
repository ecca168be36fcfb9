// H01: parameters set and read by the commands, at every level, and what is computed from them.
#include "mesh.h"
#include "cmd.h"
#include "MaterialCommands.hh"
#include "ModelDataHolder.hh"
#include "ModelFactory.hh"
#include <map>
#include <set>
typedef std::map<std::string, int> Lvl; // name -> value number
static std::map<std::pair<std::string, std::string>, Lvl> model; // (device, region)
static std::vector<double> num; // value number -> number; -1: text
struct Dep : NodeModel { Dep(const std::string &n, RegionPtr r) : NodeModel(n, r, NodeModel::DisplayType::SCALAR) {} void derived_init() override { RegisterCallback("p"); }
  void calcNodeScalarValues() const override { auto e = GlobalData::GetInstance().GetDoubleDBEntryOnRegion(&GetRegion(), "p"); SetValues(std::vector<double>(GetRegion().GetNumberNodes(), e.first ? e.second : -7.0)); } void Serialize(std::ostream &) const override {} void setInitialValues() override {} };
static void h_dev(const std::string &d, int regions) { Mesh m(1, d); for (int i = 0; i < 2 * regions; i++) m.coord(i); for (int i = 0; i < regions; i++) { Region *r = m.region("r" + std::to_string(i), {2 * i, 2 * i + 1}, {{0, 1}}); dsModelFactory<Dep>::create("dep", r); } }
static const int *h_find(const std::string &d, const std::string &r, const std::string &n) { auto at = [&](const std::string &x, const std::string &y) -> const int * { auto i = model.find({x, y}); if (i == model.end()) return nullptr; auto j = i->second.find(n); return j == i->second.end() ? nullptr : &j->second; };
  const int *v = nullptr; if (!r.empty()) v = at(d, r); if (!v && !d.empty()) v = at(d, ""); return v ? v : at("", ""); }
static Args where(const std::string &d, const std::string &r) { Args a; if (!d.empty()) a["device"] = ObjectHolder(d); if (!r.empty()) a["region"] = ObjectHolder(r); return a; }
static void look(const std::string &d, const std::string &r, const std::string &n) { Args a = where(d, r); a["name"] = ObjectHolder(n); Res x = command(dsCommand::getParameterCmd, "get_parameter", a); const int *v = h_find(d, r, n);
  se_assert(x.ok == (v != nullptr), "a parameter is found when it is set at this or an enclosing level"); if (!v) { se_assert(!x.error.empty(), "a missing parameter is reported"); return; }
  if (*v < 0) se_assert(x.value.GetString() == "text" && !x.value.GetDouble().first, "text stays text"); else { auto e = x.value.GetDouble(); se_assert(e.first, "a number stays a number"); se_assert_eq(e.second, num[*v], "value of the innermost level"); } }
static void h_list(const std::string &d, const std::string &r) { Res x = command(dsCommand::getParameterCmd, "get_parameter_list", where(d, r)); std::vector<std::string> l; se_assert(x.ok && x.value.GetStringList(l), "parameters are listed"); std::set<std::string> got; for (auto &s : l) if (s == "p" || s == "q") got.insert(s); std::set<std::string> want; for (auto &e : model[{d, r}]) want.insert(e.first); se_assert(got == want, "names set at this level are listed"); }
static void h_put(const std::string &d, const std::string &r, const std::string &n, bool text, bool valid = true) { Args a = where(d, r); a["name"] = ObjectHolder(n); int id = -1; if (text) a["value"] = ObjectHolder("text"); else { id = num.size(); num.push_back(se_real("value")); a["value"] = ObjectHolder(num.back()); }
  Res x = command(dsCommand::getParameterCmd, "set_parameter", a); se_assert(x.ok == valid, valid ? "parameter accepted" : "unknown device or region refused"); if (valid) model[{d, r}][n] = id; else se_assert(!x.error.empty(), "refusal is explained"); }
static void fresh() { auto &g = GlobalData::GetInstance(); for (auto &dr : std::vector<std::pair<std::string, std::string>>{{"d0", "r0"}, {"d0", "r1"}, {"d1", "r0"}}) { auto v = nval(g.GetDevice(dr.first)->GetRegion(dr.second), "dep"); const int *p = h_find(dr.first, dr.second, "p"); for (double z : v) se_assert_eq(z, p && *p >= 0 ? num[*p] : -7.0, "what is computed from a parameter follows it"); } }
void se_main() {
  h_dev("d0", 2); h_dev("d1", 1); bool each = se_choose("read after each", 2);
  for (int i = 0; i < LL; i++) {
    switch (se_choose("operation", 15)) {
    case 0: h_put("", "", "p", false); break; case 1: h_put("d0", "", "p", false); break; case 2: h_put("d0", "r0", "p", false); break; case 3: h_put("d0", "r1", "p", false); break; case 4: h_put("d1", "", "p", false); break; case 5: h_put("d1", "r0", "p", false); break;
    case 6: h_put("", "", "p", true); break; case 7: h_put("d0", "r0", "p", true); break; case 8: h_put("d0", "", "q", false); break;
    case 9: h_put("", "r0", "p", false, false); break; case 10: h_put("d2", "", "p", false, false); break; case 11: h_put("d1", "r1", "p", false, false); break;
    case 12: GlobalData::GetInstance().DeleteDevice("d1"); se_assert(GlobalData::GetInstance().GetDevice("d1") == nullptr, "deleted"); h_dev("d1", 1); model.erase({"d1", ""}); model.erase({"d1", "r0"}); se_reach("recreated"); break;
    case 13: h_put("d0", "r0", "q", false); break; case 14: h_put("", "", "q", false); break; }
    if (each) fresh(); }
  fresh();
  for (const char *n : {"p", "q"}) { look("", "", n); look("d0", "", n); look("d0", "r0", n); look("d0", "r1", n); look("d1", "", n); look("d1", "r0", n); }
  h_list("", ""); h_list("d0", ""); h_list("d0", "r0"); h_list("d0", "r1"); h_list("d1", ""); h_list("d1", "r0");
  { Args a = where("", "r0"); a["name"] = ObjectHolder("p"); se_assert(!command(dsCommand::getParameterCmd, "get_parameter", a).ok, "region without device refused"); Args b = where("d0", ""); se_assert(!command(dsCommand::getParameterCmd, "get_parameter", b).ok, "missing name refused"); b["name"] = ObjectHolder("p"); b["wrong"] = ObjectHolder("p"); se_assert(!command(dsCommand::getParameterCmd, "get_parameter", b).ok, "unknown option refused"); }
  se_reach("read");
}

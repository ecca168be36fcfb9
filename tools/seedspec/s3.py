import sys; sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools/seedspec")
from s2 import C, R, F
MH = ["harness/mesh.h", "engine/se.h", "tools/demo/se_rand.cc"]
PH = r'''import importlib, os, sys, types
def package(ds):
    sys.modules["devsim"] = ds; p = types.ModuleType("devsim.python_packages"); p.__path__ = [os.path.join(os.getcwd(), "python_packages")]; sys.modules["devsim.python_packages"] = p; ds.python_packages = p; ds.__path__ = []
class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: "0"
ds = Mod("devsim")
class error(Exception): pass
ds.error = error; package(ds); sys.stdout = open(os.devnull, "w")
def end(ok, text=""):
    if not ok: sys.stderr.write(text + "\n")
    os._exit(0 if ok else 1)
'''
SEEDS = [
 dict(id="h01_shadow_any", prop="H01", needs="a region has a parameter of its own, then another parameter is changed on its device after a model using it was evaluated", breaks="models of such regions keep the old value of device and global parameters",
  edits=[("src/Data/GlobalData.cc", "                    if (regionData[device][region].count(name))", "                    if (!regionData[device][region].empty())")], srcs=C.MESH, files=MH, ext=True,
  demo=r'''#define TRIALS 1
#include "mesh.h"
#include <cmath>
struct P : NodeModel { P(Region *r) : NodeModel("P", r, NodeModel::DisplayType::SCALAR) {} void derived_init() override { RegisterCallback("p"); } void setInitialValues() override {} void calcNodeScalarValues() const override { auto e = GlobalData::GetInstance().GetDBEntryOnRegion(&GetRegion(), "p"); std::vector<double> v(GetRegion().GetNumberNodes(), e.second.GetDouble().second); const_cast<P *>(this)->SetValues(v); } void Serialize(std::ostream &) const override {} };
void se_main() { Mesh m(1); m.coord(0); m.coord(1); Region *r = m.region("r", {0, 1}, {{0, 1}}); GlobalData &g = GlobalData::GetInstance(); 
 for (int own = 0; own < 2; own++) { if (own) g.AddDBEntryOnRegion("d", "r", "q", ObjectHolder(7.0)); if (own) g.AddDBEntryOnRegion(r, "q", ObjectHolder(8.0)); g.AddDBEntryOnDevice(m.dev->GetName(), "p", ObjectHolder(1.0)); NodeModelPtr p; if (!own) { p = std::make_shared<P>(r); p->init(); } else p = std::const_pointer_cast<NodeModel, const NodeModel>(r->GetNodeModel("P"));
  se_assert_eq(p->GetScalarValues<double>()[0], 1.0, "value"); g.AddDBEntryOnDevice(m.dev->GetName(), "p", ObjectHolder(2.0)); se_assert_eq(p->GetScalarValues<double>()[0], 2.0, "changed value"); } }
#include "se_rand.cc"
'''),
 dict(id="d01_element_derivative", prop="D01", needs="the derivative of an edge quantity by the value at the second node changes after the element field derivatives were read", breaks="element field derivatives keep values of the old derivative model",
  edits=[("src/models/TriangleEdgeFromEdgeModelDerivative.cc", "  RegisterCallback(edgeModelName1);\n", "")], srcs=C.FRESH, files=MH,
  demo=r'''#define TRIALS 1
#include "mesh.h"
#include "TriangleEdgeFromEdgeModel.hh"
#include "TriangleEdgeFromEdgeModelDerivative.hh"
#include "Vector.hh"
#include <cmath>
typedef std::vector<double> V;
void se_main() { Mesh m(2); m.coord(0, 0); m.coord(1, 0.25); m.coord(0.25, 1); Region *r = m.region("r", {0, 1, 2}, {{0, 1, 2}});
 esol(r, "unitx", V{0.6, 0.8, 1}); esol(r, "unity", V{0.8, -0.6, 0}); { auto t = CreateTriangleEdgeSubModel("ElementEdgeCouple", r, TriangleEdgeModel::DisplayType::SCALAR); t->SetValues(V{1, 2, 3}); }
 auto rd = [&](V *o) { const char *c[3] = {"@en0", "@en1", "@en2"}; o->clear(); for (auto x : c) { auto t = r->GetTriangleEdgeModel(std::string("E_x:u") + x); se_assert(!!t, "model"); auto &v = t->GetScalarValues<double>(); o->insert(o->end(), v.begin(), v.end()); } };
 auto es = [&](const char *n, V v) { auto e = r->GetEdgeModel(n); if (!e) { esol(r, n, v); } else std::const_pointer_cast<EdgeModel, const EdgeModel>(e)->SetValues(v); };
 es("E", V{1, 2, 3}); es("E:u@n0", V{1, -1, 2}); es("E:u@n1", V{3, 1, 2}); CreateTriangleEdgeFromEdgeModel("E", r); CreateTriangleEdgeFromEdgeModelDerivative("E", "u", r); V a, b; rd(&a); es("E:u@n1", V{6, 2, 4}); rd(&b); double d = 0; for (size_t i = 0; i < a.size(); i++) d += std::fabs(a[i] - b[i]); se_assert(d > 1e-3, "element derivatives follow"); }
#include "se_rand.cc"
'''),
 dict(id="b04_bdf2_gamma", prop="B04", needs="a second order step whose first part is not half of the step", breaks="the weight of the oldest charge is wrong unless both parts are equal",
  edits=[("src/math/Newton.hh", "    a2 = (1.0 - gamma) / (gamma * tstep);", "    a2 = gamma / ((1.0 - gamma) * tstep);")], srcs=[],
  demo=r'''#include "Newton.hh"
#include <cstdio>
int main() { int bad = 0; for (double g : {0.5, 0.25, 0.625}) { double T = 2; dsMath::TimeMethods::BDF2<double> b(T, g); double e0 = b.a0 + b.a1 + b.a2, e1 = b.a0 * T + b.a1 * g * T - 1, e2 = b.a0 * T * T + b.a1 * g * T * g * T - 2 * T; for (double e : {e0, e1, e2}) if (e > 1e-9 || e < -1e-9) { printf("gamma %g: %g\\n", g, e); bad = 1; } } return bad; }
'''),
 dict(id="a01_constant_base", prop="A01", needs="a power with a constant base other than zero and one and an exponent that is not a plain variable", breaks="the derivative of c^g(x) forgets to differentiate g when its derivative simplifies",
  edits=[("src/adiff/EquationObject.cc", "      ret = log(base) * shared_from_this() * diff(exponent, foo);", "      ret = (exponent->getType() == PRODUCT_OBJ) ? log(base) * shared_from_this() : log(base) * shared_from_this() * diff(exponent, foo);")], srcs=C.ADIFF,
  demo=r'''#include <cstdio>
#include <string>
#include "EquationObject.hh"
using namespace Eqo;
int main() { EqObjPtr x = var("x"), y = var("y"); int bad = 0; auto has = [&](EqObjPtr e, const char *s) { std::string t = diff(e, x)->stringValue(); printf("%s\n", t.c_str()); if (t.find(s) == std::string::npos) bad = 1; };
 has(pow(con(2), con(3) * x * y), "3"); if (diff(pow(con(2), con(3) * y), x)->Simplify()->stringValue() != "0") bad = 1; return bad; }'''),
 dict(id="j01_restore_start", prop="J01", needs="a ramp in which a step fails after at least one successful step", breaks="the bias goes back to the start instead of the last successful value, so an aborted ramp leaves the wrong bias",
  edits=[("python_packages/ramp.py", "                device=device, name=GetContactBiasName(contact), value=last_bias\n", "                device=device, name=GetContactBiasName(contact), value=start_bias\n")],
  py=PH + r'''
p = {"top_bias": 0.0}; n = [0]
ds.get_parameter = lambda device, name: p[name]
def sp(device, name, value): p[name] = value
ds.set_parameter = sp
def solve(**k):
    n[0] += 1
    if n[0] > 1: raise error("Convergence failure!")
ds.solve = solve
m = importlib.import_module("devsim.python_packages.ramp")
try: m.rampbias("d", "top", 1.0, 0.25, 0.1, 5, 1, 1, lambda d: None); end(False, "no error")
except RuntimeError: end(p["top_bias"] == 0.25, "bias %r" % p)
'''),
 dict(id="j02_hole_drift", prop="J02", needs="a hole current with a potential difference and different densities at the ends of the edge", breaks="the drift part of the hole current uses the density of the other end",
  edits=[("python_packages/simple_dd.py", "kahan3(Holes@n1*Bern01, -Holes@n0*Bern01, -Holes@n0*vdiff)", "kahan3(Holes@n1*Bern01, -Holes@n0*Bern01, -Holes@n1*vdiff)")],
  py=PH + r'''
import math, re
eq = {}
def em(device, region, name, equation, **k): eq[name] = equation
ds.edge_model = em; ds.node_model = em
for f in ("get_edge_model_list", "get_node_model_list"): setattr(ds, f, lambda **k: list(eq) + ["Potential", "Electrons", "Holes"] + [x + y for x in ("Potential", "Electrons", "Holes") for y in ("@n0", "@n1")])
def gen(**k): return "0"
ds.symdiff = lambda expr: "0"
for f in ("edge_from_node_model", "edge_average_model", "delete_edge_model", "delete_node_model", "set_parameter", "contact_edge_model", "contact_node_model", "equation", "contact_equation", "interface_equation", "node_solution", "element_model"): setattr(ds, f, gen)
m = importlib.import_module("devsim.python_packages.simple_dd"); m.CreateHoleCurrent("d", "r", "mu_p")
e = eq["HoleCurrent"]
def val(p0, p1, vd):
    B = lambda x: x / math.expm1(x) if x else 1.0
    v = {"ElectronCharge": 1.0, "mu_p": 2.0, "EdgeInverseLength": 3.0, "V_t": 0.5, "Holes@n0": p0, "Holes@n1": p1, "vdiff": vd, "Bern01": B(vd)}
    return eval(re.sub(r"[A-Za-z_][A-Za-z_0-9@]*", lambda x: "kahan3" if x.group(0) == "kahan3" else "v[%r]" % x.group(0), e.replace("^", "**")), {"v": v, "kahan3": lambda a, b, c: a + b + c})
B = lambda x: x / math.expm1(x)
ok = all(abs(val(a, b, x) + 3.0 * (b * B(x) - a * B(-x))) < 1e-9 for a, b, x in ((1.0, 2.0, 0.5), (3.0, 1.0, -0.7), (2.0, 2.0, 1.0)))
end(ok, "hole current")
'''),
]

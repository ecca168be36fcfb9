import sys; sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif")
import checks
C = checks
def R(h, *d, n=3000): return "".join("#define %s\n" % x.replace("=", " ", 1) for x in d) + "#define TRIALS %d\n" % n + '#include "%s.cc"\n#include "se_rand.cc"\n' % h
def F(h): return ["harness/" + h + ".cc", "harness/mesh.h", "harness/eq.h", "engine/se.h", "tools/demo/se_rand.cc"]
EQ = "src/Equation/Equation.cc"; CE = "src/Equation/ContactEquation.cc"
UPD = "#define MODE 0\n#define NODES 2\n#define TRIALS 1\n#define se_main other_main\n#include \"c_update.cc\"\n#undef se_main\n" + r'''void se_main() { Mesh m(1); m.coord(0); m.coord(1); Region *r = m.region("r", {0, 1}, {{0, 1}}); V o = {@O@}; nsol(r, "u", o); EquationHolder h = mk(r, "a", "u", UpdateType::@K@); r->SetBaseEquationNumber(0);
 NodeModelPtr nm = std::const_pointer_cast<NodeModel, const NodeModel>(r->GetNodeModel("u")); std::vector<double> x = {@S@}; h.Update(*nm, x); V n = nval(r, "u"); double a = 0, e = 0;
 for (int i = 0; i < 2; i++) { double s = std::fabs(n[i] - o[i]); a = std::max(a, s); e = std::max(e, s / (std::fabs(n[i]) + 1e-10)); } se_assert_eq(h.GetAbsError<double>(), a, "absolute error"); se_assert_eq(h.GetRelError<double>(), e, "relative error"); }
#include "se_rand.cc"
'''
def U(k, o, s): return UPD.replace("@K@", k).replace("@O@", o).replace("@S@", s)
SEEDS = [
 dict(id="c05_positive_error", prop="C05", needs="a variable with a positive update whose step has to be limited", breaks="the error reported for a limited positive update is that of the unlimited step", ext=True,
  edits=[(EQ, "      upds[i] = upd;\n      nvals[i] = nval;\n  }\n}\n\ntemplate <typename DoubleType>\nvoid Equation<DoubleType>::DefaultSolutionUpdate", "      nvals[i] = nval;\n  }\n}\n\ntemplate <typename DoubleType>\nvoid Equation<DoubleType>::DefaultSolutionUpdate")],
  srcs=C.EQN, files=F("c_update"), demo=U("POSITIVE", "2.0, 1.0", "-8.0, 0.5")),
 dict(id="c05_relative_node", prop="C05", needs="a node other than the one with the largest step has the largest relative step", breaks="the relative error only considers nodes that raised the absolute error", ext=True,
  edits=[(EQ, "        if (nrerror > rerr)\n", "        if ((nrerror > rerr) && (aerr_node == i))\n")],
  srcs=C.EQN, files=F("c_update"), demo=U("DEFAULT", "100.0, 0.5", "2.0, 1.0")),
 dict(id="c02_tet_last_corner", prop="C02", needs="three dimensions, an element edge term whose model depends on the values at both corners away from the edge", breaks="the Jacobian adds the derivative by the fourth corner to the column of the third on the second node's row",
  edits=[(EQ, "RealRowColVal<DoubleType>(row1, col3,  n1_sign * ederval3)", "RealRowColVal<DoubleType>(row1, col2,  n1_sign * ederval3)")],
  srcs=C.EQN, files=F("c_bulk"), demo=R("c_bulk", "DIM=3", "JAC=1", "TWO=1", "THREE=1")),
 dict(id="c03_tri_circuit_opposite", prop="C03", needs="a contact on a circuit node with an element edge term in two dimensions, the contact node at the tail of the edge", breaks="the derivative by the opposite corner gets the sign of the other end",
  edits=[(CE, "                val += n1_sign * edd1[vindex];\n\n                val1 = n1_sign * edd0[vindex];\n                col1 = region.GetEquationNumber(eqindex2, h);\n\n                val2 = n1_sign * edd2[vindex];\n                col2 = region.GetEquationNumber(eqindex2, o);\n              }\n              else\n              {\n                dsAssert(0, \"UNEXPECTED\");\n              }\n              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col1, val1));\n              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col2, val2));",
   "                val += n1_sign * edd1[vindex];\n\n                val1 = n1_sign * edd0[vindex];\n                col1 = region.GetEquationNumber(eqindex2, h);\n\n                val2 = n0_sign * edd2[vindex];\n                col2 = region.GetEquationNumber(eqindex2, o);\n              }\n              else\n              {\n                dsAssert(0, \"UNEXPECTED\");\n              }\n              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col1, val1));\n              m.push_back(dsMath::RealRowColVal<DoubleType>(crow, col2, val2));")],
  srcs=C.CEQN, files=F("c_contact"), demo=R("c_contact", "DIM=2", "NV=2", "THREE=1")),
 dict(id="c04_second_region_name", prop="C04", needs="two interfaces share a node, the other interface's equations have different names in their two regions, and the region in question is the second of the other interface", breaks="an interface node claimed by another interface is assembled twice",
  edits=[("src/Equation/InterfaceEquation.cc", "          if ((equation_map.second).GetName1() == eqname)", "          if ((equation_map.second).GetName0() == eqname)")],
  srcs=C.IEQN, files=F("c_interface"), demo=R("c_interface")),
 dict(id="f01_inductor_scale", prop="F01", needs="transient assembly of an inductor with a time scale different from one", breaks="the matrix entry of the inductor's flux is not scaled with the time step",
  edits=[("src/Circuit/models/ideal/IdealInductor.cc", "   const double eI_I = scl * d_vl_d_I;", "   const double eI_I = d_vl_d_I;")],
  srcs=[h for h in C.CHECKS["F01"]["h"]][0].srcs, files=["harness/f_element.cc", "engine/se.h", "tools/demo/se_rand.cc"], demo=R("f_element", "NEL=1")),
 dict(id="g02_two_byte_tail", prop="G02", needs="a length that leaves two bytes in the last group and an odd last byte", breaks="the lowest bit of the last byte is lost",
  edits=[("src/utility/base64.cc", "    triplet[2] = base64Chars[(ptr[triplet_length+1] << 2)  & 0x3F];", "    triplet[2] = base64Chars[(ptr[triplet_length+1] << 2)  & 0x38];")],
  srcs=["output_stub.cc", "objholder_stub.cc", "utility/dsException.cc", "utility/dsAssert.cc", "utility/base64.cc"], files=["harness/g_base64.cc", "engine/se.h", "tools/demo/se_rand.cc"], demo=R("g_base64", "MODE=0", "NB=7", n=500)),
 dict(id="f03_late_fall", prop="F03", needs="a time in the falling flank of a cycle after the first", breaks="the falling flank of later cycles has the slope of the rise time",
  edits=[("src/Circuit/models/sources/Signal.cc", "(_v1-_v2)/(_tf)*(tnow-ans)", "(_v1-_v2)/((numper > 0.0) ? _tr : _tf)*(tnow-ans)")], srcs=["output_stub.cc", "objholder_stub.cc", "utility/dsException.cc", "utility/dsAssert.cc", "Circuit/models/sources/Signal.cc"], files=["harness/f_signal.cc", "engine/se.h", "tools/demo/se_rand.cc"], demo='''#include "Signal.hh"
#include <cstdio>
#include <cmath>
int main() { Pulse p(1, 3, 0.5, 0.5, 1, 1, 4); int bad = 0; for (int c = 0; c < 3; c++) for (int i = 0; i < 32; i++) { double u = i / 8.0, w = u < 0.5 ? 1 + 4 * u : u < 1.5 ? 3 : u < 2.5 ? 3 - 2 * (u - 1.5) : 1, v = p.CalcVoltage(0.5 + 4 * c + u); if (std::fabs(v - w) > 1e-9) { printf("cycle %d phase %g: %g != %g\\n", c, u, v, w); bad = 1; } } return bad; }
'''),
 dict(id="e05_tet_opposite", prop="E05", needs="a tetrahedron whose edge numbers or triangle order makes the second adjoining triangle come after a gap", breaks="the list of opposite corners of an edge repeats the first triangle's corner",
  edits=[("src/Geometry/Region.cc", "            edata->nodeopp[trindex] = findNodeOppositeOfTriangleEdge(*eptr, triangle);", "            edata->nodeopp[trindex] = findNodeOppositeOfTriangleEdge(*eptr, (trindex == 1 && j == 3) ? *trl[2] : triangle);")],
  srcs=C.MESH, files=F("e_conn"), demo=R("e_conn", "DIM=3", n=400)),
]
SEEDS = [s for s in SEEDS if s["edits"]]

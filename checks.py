# Registry: property -> harnesses, bounds, assumptions.
import os
from sedrv import H
CORE = ["output_stub.cc", "objholder_stub.cc", "utility/dsException.cc", "utility/dsAssert.cc"]
REAL = "doubles are modelled as real numbers: rounding error is outside the claim"
PIVOT = "denominators and square-root arguments are assumed non-zero / non-negative (degenerate inputs are outside the claim)"
CHECKS = {}
def check(pid, harnesses, bounds, assumptions=(), note="", technique="symbolic execution of the compiled C++ with SMT (Z3)", witness=True):
    CHECKS[pid] = dict(h=harnesses, bounds=bounds, assumptions=list(assumptions), note=note, technique=technique, witness=witness)

MAT = CORE + ["math/CompressedMatrix.cc", "math/Matrix.cc"]
check("B01", [H("b01_matrix", MAT, ["sequence finished", "refilled after clear"], defs=["-DLL=3"], quick_only=True, bounds="2x2, 3 operations + finalize (+ clear, add, finalize)"),
              H("b01_matrix:deep", MAT, ["sequence finished", "refilled after clear"], defs=["-DLL=4"], thorough_only=True, bounds="2x2, 4 operations + finalize (+ clear, add, finalize)")],
      "matrices of dimension 2, every sequence of 3 (thorough 4) add/add-imaginary/finalize/clear operations at every position with every real value, then finalize, optionally followed by clear, add, finalize; both storage orders, real and complex", [REAL])
check("B02", [H("b01_matrix:mult", MAT, ["products compared"], defs=["-DMULT"], bounds="2x2, every pattern, then refilled with other values"), H("b01_matrix:mult3", MAT, ["products compared"], defs=["-DMULT", "-DNN=3"], bounds="3x3 real, every pattern")],
      "matrices of dimension 2 (real: also 3), every sparsity pattern, all values and vectors, both storage orders, real and complex", [REAL])

G = "Geometry/"; M = "models/"; GM = "GeomModels/"
MESH = CORE + ["fpe_stub.cc", "lapack_stub.cc"] + [G + f for f in ("Contact.cc Coordinate.cc Device.cc Edge.cc GeometryStream.cc GradientField.cc Interface.cc Node.cc Permutation.cc Region.cc Tetrahedron.cc TetrahedronElementField.cc Triangle.cc TriangleElementField.cc").split()] + \
  [M + f for f in ("EdgeModel.cc EdgeScalarData.cc EdgeSubModel.cc InterfaceNodeModel.cc InterfaceNodeScalarData.cc ModelDataHolder.cc NodeModel.cc NodeScalarData.cc NodeSolution.cc ParallelOpEqual.cc ScalarData.cc TetrahedronEdgeModel.cc TetrahedronEdgeScalarData.cc TetrahedronEdgeSubModel.cc TriangleEdgeModel.cc TriangleEdgeScalarData.cc TriangleEdgeSubModel.cc").split()] + \
  ["Data/GlobalData.cc", "utility/GetNumberOfThreads.cc", "utility/GetGlobalParameter.cc", "errorSystem/ErrorHelpers.cc", "errorSystem/ModelErrors.cc", "errorSystem/GeneralErrors.cc", "errorSystem/EquationErrors.cc", "math/DenseMatrix.cc"]
GEOM = [GM + f for f in ("AtContactNode.cc EdgeCouple.cc EdgeIndex.cc EdgeInverseLength.cc EdgeLength.cc EdgeNodeVolume.cc ModelCreate.cc NodePosition.cc NodeVolume.cc SurfaceArea.cc SurfaceAreaUtil.cc TetrahedronEdgeCouple.cc TetrahedronNodeVolume.cc TriangleEdgeCouple.cc TriangleNodeVolume.cc UnitVec.cc InterfaceNormal.cc").split()]
check("E01", [H("e01_edge", MESH + GEOM, ["1d", "2d", "3d"], ext=True, bounds="1d: 3 nodes, 2d: 1 triangle, 3d: 1 tetrahedron, all coordinates symbolic")],
      "lines of 3 nodes, one triangle, one tetrahedron, all coordinates arbitrary reals (2d/3d: no side parallel to an axis)", [REAL, PIVOT])
check("E02", [H("e02_volume", MESH + GEOM, ["1d", "2d one", "2d two"], ext=True, bounds="1d 4 nodes; one or two triangles, symbolic coordinates"),
              H("e02_volume:d3", MESH + GEOM, ["3d one", "3d two"], ext=True, defs=["-DD3=1"], bounds="tetrahedra with 2 symbolic coordinates"),
              H("e02_volume:d3b", MESH + GEOM, ["3d one", "3d two"], ext=True, defs=["-DD3=2"], bounds="axis-parallel tetrahedron with 2 symbolic coordinates")],
      "1d: 4 nodes; 2d: one or two triangles with arbitrary coordinates (with and without an axis-parallel side); 3d: one or two tetrahedra with 2 symbolic coordinates", [REAL, PIVOT])
CYL = [GM + f for f in "CylindricalEdgeCouple.cc CylindricalEdgeNodeVolume.cc CylindricalNodeVolume.cc CylindricalSurfaceArea.cc TriangleCylindricalEdgeCouple.cc TriangleCylindricalNodeVolume.cc".split()]
check("E03", [H("e03_cyl", MESH + GEOM + CYL, ["one"], ext=True, bounds="one triangle, one moving corner in 3 configurations, symbolic axis position, both radial directions"),
              H("e03_cyl:two", MESH + GEOM + CYL, ["two"], ext=True, defs=["-DTWO"], bounds="two triangles, one moving corner"),
              H("e03_cyl:surf", MESH + GEOM + CYL, ["surface"], ext=True, defs=["-DSURF"], bounds="4 nodes anywhere, two contacts and an interface")],
      "one or two triangles with one moving corner and any position of the axis (element pieces on the positive side of it), both choices of the radial coordinate; surface areas for 4 arbitrary nodes", [REAL, PIVOT, "all radii (of corners and circumcentres) are positive"])
check("E04", [H("e04_surface:d1", MESH + GEOM, ["1d"], ext=True, defs=["-DDIM=1"], bounds="two regions on a line"),
              H("e04_surface:d2", MESH + GEOM, ["2d"], ext=True, defs=["-DDIM=2"], bounds="4 nodes anywhere, two contacts sharing an edge, one interface with two edges"),
              H("e04_surface:d3", MESH + GEOM, ["3d"], ext=True, defs=["-DDIM=3"], bounds="one tetrahedron with 2 symbolic coordinates, one contact and one interface face")],
      "1d: two regions; 2d: two triangles with arbitrary coordinates; 3d: one tetrahedron with 2 symbolic coordinates", [REAL, PIVOT])
NOPAR = [f for f in MESH if f not in ("models/ParallelOpEqual.cc", "utility/GetNumberOfThreads.cc")]
check("D02", [H("d02_data:hold", MESH, ["node", "element"], ext=True, defs=["-DHOLDER", "-DLL=3"], quick_only=True, bounds="3 operations on 3 nodes"),
              H("d02_data:hold4", MESH, ["node", "element"], ext=True, defs=["-DHOLDER", "-DLL=4"], thorough_only=True, bounds="4 operations on 3 nodes")] +
             [H("d02_data:arith%d" % d, MESH, ["arith"], defs=["-DARITH", "-DDIM=%d" % d], thorough_only=d in (0, 2), bounds="two operations") for d in range(4)] +
             [H("d02_data:part", CORE + ["fpe_stub.cc"], ["split", "whole"], defs=["-DNT=9"], bounds="up to 8 threads, length and task size below 2^32")],
      "histories of 3 (thorough 4) writes and reads in both precisions on 3 nodes; two operations on data of 3 or 6 elements in every representation; lengths and task sizes below 2^32 on up to 8 threads",
      [REAL, "values are representable in both precisions", "tasks given disjoint ranges do not influence each other"])
EQN = MESH + ["Equation/Equation.cc", "Equation/EquationHolder.cc", "AutoEquation/ExprEquation.cc", GM + "VectorGradient.cc"]
check("C01", [H("c_bulk:r%d" % d, EQN, ["assembled"], defs=["-DDIM=%d" % d, "-DJAC=0", "-DTWO=1", "-DTHREE=%d" % t], bounds=b) for d, t, b in ((1, 1, "line of 3 nodes"), (2, 1, "two triangles"), (3, 2, "two tetrahedra"))],
      "a line of 3 nodes, two triangles, two tetrahedra; two equations in either order; every kind of term; arbitrary flux, volume and coupling values", [REAL])
check("C02", [H("c_bulk:j%d" % d, EQN, ["assembled"], defs=["-DDIM=%d" % d, "-DJAC=1", "-DTWO=1", "-DTHREE=%d" % t], bounds=b) for d, t, b in ((1, 1, "line of 3 nodes"), (2, 1, "two triangles"), (3, 1, "one tetrahedron"))],
      "a line of 3 nodes, two triangles, one tetrahedron; two coupled variables; every kind of term; models linear in the variables with arbitrary coefficients", [REAL])
CEQN = EQN + ["Equation/ContactEquation.cc", "Equation/ContactEquationHolder.cc", "AutoEquation/ExprContactEquation.cc", "Circuit/data/NodeKeeper.cc", "Circuit/data/CircuitNode.cc"]
check("C03", [H("c_contact:d%d" % d, CEQN, ["contact"], defs=["-DDIM=%d" % d, "-DNV=2", "-DTHREE=1"], bounds=b) for d, b in ((1, "line of 3 nodes"), (2, "two triangles"), (3, "one tetrahedron"))],
      "a line of 3 nodes, two triangles, one tetrahedron; one contact or two sharing a node; with a circuit node, ground or none; models linear in the variables with arbitrary coefficients", [REAL])
check("C05", [H("c_update", EQN, ["updated", "refused"], ext=True, defs=["-DMODE=0", "-DNODES=2"], bounds="2 nodes, one equation with every rule"),
              H("c_update:q", EQN, ["updated", "refused"], ext=True, defs=["-DMODE=0", "-DNODES=2", "-DEQT=float128"], bounds="the same with an extended precision equation"),
              H("c_update:dev", EQN, ["device"], defs=["-DMODE=1", "-DNODES=2"], bounds="two regions of 2 nodes with one or two equations"),
              H("c_update:ac", EQN, ["ac", "noise"], defs=["-DMODE=2", "-DNODES=2"], bounds="2 nodes, two equations")],
      "2 nodes per region, up to 3 equations in 2 regions, all values and steps", [REAL])
check("C06", [H("c_rows", EQN, ["numbered"], defs=["-DLL=3"], quick_only=True, bounds="3 operations on two regions"), H("c_rows:deep", EQN, ["numbered"], defs=["-DLL=4"], thorough_only=True, bounds="4 operations on two regions")],
      "every sequence of 3 (thorough 4) additions, replacements and deletions of 3 equation names with 3 variables in 2 regions of 3 and 2 nodes")
IEQN = CEQN + ["Equation/InterfaceEquation.cc", "Equation/InterfaceEquationHolder.cc", "AutoEquation/InterfaceExprEquation.cc"]
check("C04", [H("c_interface", IEQN, ["permutation", "interface"], bounds="two triangles in two regions sharing an edge")],
      "two regions sharing two nodes, two variables in each; every kind of interface equation; a node claimed by a contact or by another interface or not; models linear in the variables with arbitrary coefficients", [REAL])
CK = "Circuit/data/"; CM = "Circuit/models/"
CIRC = CORE + ["Data/GlobalData.cc", CK + "NodeKeeper.cc", CK + "CircuitNode.cc"]
check("F01", [H("f_element", CIRC + [CK + "InstanceKeeper.cc", CK + "InstanceModel.cc", CM + "sources/IdealCurrent.cc", CM + "sources/IdealVoltage.cc", CM + "sources/Signal.cc"] + [CM + "ideal/Ideal%s.cc" % x for x in ("Resistor", "Capacitor", "Inductor")], ["ac", "residual only", "assembled"], defs=["-DNEL=1"], bounds="one element of any kind between any of three nodes"),
              H("f_element:two", CIRC + [CK + "InstanceKeeper.cc", CK + "InstanceModel.cc", CM + "sources/IdealCurrent.cc", CM + "sources/IdealVoltage.cc", CM + "sources/Signal.cc"] + [CM + "ideal/Ideal%s.cc" % x for x in ("Resistor", "Capacitor", "Inductor")], ["ac", "residual only", "assembled"], defs=["-DNEL=2"], thorough_only=True, bounds="two elements")],
      "one (thorough two) elements of any kind between two nodes and ground, any parameter values and solution", [REAL])
check("F02", [H("f_nodes", CIRC, ["updated"], defs=["-DOPS=2", "-DMODE=0"], quick_only=True, bounds="1 fixed node and 2 additions"), H("f_nodes:3", CIRC, ["updated"], defs=["-DOPS=3", "-DMODE=0"], thorough_only=True, bounds="3 additions"), H("f_nodes:ac", CIRC, ["ac"], defs=["-DOPS=2", "-DMODE=1"], bounds="2 additions")],
      "every sequence of 3 additions of nodes and aliases, all values and steps (limited steps down to -6 times the value)", [REAL, "nodes with a positive update start from a positive value"])
check("F03", [H("f_signal", CORE + [CM + "sources/Signal.cc"], ["constant", "before", "rise", "pulse", "fall", "rest"], bounds="cycles 0, 1, 2 and 1000")],
      "any pulse parameters with rise + width + fall not longer than the period, any time in cycles 0, 1, 2 and 1000", [REAL])
FLD = MESH + [M + "%sEdge%sFromEdgeModel%s.cc" % (a, b, c) for a in ("Triangle", "Tetrahedron") for b in ("", "Pair") for c in ("", "Derivative")]
check("D04", [H("d_field:%d%d" % (d, k), FLD, ["field"], defs=["-DDIM=%d" % d, "-DKIND=%d" % k, "-DTWO=%d" % (d == 2)], bounds="two triangles" if d == 2 else "one tetrahedron") for d in (2, 3) for k in (0, 1)] +
             [H("d_field:3%dt" % k, FLD, ["field"], defs=["-DDIM=3", "-DKIND=%d" % k, "-DTWO=1"], thorough_only=True, bounds="two tetrahedra") for k in (0, 1)],
      "two triangles, one (thorough two) tetrahedra; edge directions, weights, edge data and derivatives arbitrary reals (3d: half of the z components fixed), three orientations of the edges", [REAL, PIVOT, "the dense LU solver is replaced by a correct linear solver"])
check("D05", [H("d_grad:%d" % d, MESH + GEOM + [GM + "VectorGradient.cc"], ["linear", "general"], defs=["-DDIM=%d" % d, "-DSYM=1"], ext=d == 1, bounds=b) for d, b in ((1, "line of 3 nodes"), (2, "two triangles"), (3, "two tetrahedra, one corner anywhere"))] + [H("d_grad:33", MESH + GEOM + [GM + "VectorGradient.cc"], ["linear", "general"], defs=["-DDIM=3", "-DSYM=2"], thorough_only=True, bounds="two tetrahedra, two corners anywhere")],
      "a line of 3 nodes, two triangles, two tetrahedra (each one of the corners anywhere, thorough: two); any linear field and any values, with or without one zero value, with and without zero avoidance", [REAL, "elements are not degenerate", "the dense LU solver is replaced by a correct linear solver"])
check("D03", [H("d_carry:%d" % d, MESH + [M + "EdgeFromNodeModel.cc", M + "TriangleEdgeFromNodeModel.cc", M + "TetrahedronEdgeFromNodeModel.cc", GM + "AverageEdgeModel.cc"], ["first", "changed"], defs=["-DDIM=%d" % d], bounds=b) for d, b in ((1, "line of 3 nodes"), (2, "two triangles"), (3, "two tetrahedra"))],
      "a line of 3 nodes, two triangles, two tetrahedra, three orientations of the edges, any node values and node derivatives, before and after a change of the node values; every kind of average", [REAL, "geometric means: positive node values"])
FRESH = FLD + [M + "EdgeFromNodeModel.cc", M + "TriangleEdgeFromNodeModel.cc", GM + "AverageEdgeModel.cc", GM + "VectorGradient.cc"]
DALL = FLD + GEOM + CYL + [M + f for f in "EdgeFromNodeModel.cc TriangleEdgeFromNodeModel.cc TetrahedronEdgeFromNodeModel.cc VectorTriangleEdgeModel.cc VectorTetrahedronEdgeModel.cc".split()] + [GM + f for f in "AverageEdgeModel.cc VectorGradient.cc".split()]
check("D01", [H("d_fresh", FRESH, ["read", "replaced", "deleted"], defs=["-DLL=2"], quick_only=True, bounds="2 operations"), H("d_fresh:3", FRESH, ["read", "replaced", "deleted"], defs=["-DLL=3"], thorough_only=True, bounds="3 operations")] +
             [H("d_all:m%d" % d, DALL, ["read"], defs=["-DPART=0", "-DDIM=%d" % d, "-DLL=1"], quick_only=True, bounds="1 change of an input, every kind of model in %d dimensions" % d) for d in (1, 2, 3)] + [H("d_all:g%d" % d, DALL, ["geometry"], defs=["-DPART=1", "-DDIM=%d" % d, "-DLL=2"], quick_only=True, bounds="2 changes of contacts, interfaces or the axis") for d in (1, 2, 3)] +
             [H("d_all:m%dl" % d, DALL, ["read"], defs=["-DPART=0", "-DDIM=%d" % d, "-DLL=2"], thorough_only=True, bounds="2 changes of inputs") for d in (1, 2, 3)] + [H("d_all:g%dl" % d, DALL, ["geometry"], defs=["-DPART=1", "-DDIM=%d" % d, "-DLL=3"], thorough_only=True, bounds="3 changes") for d in (1, 2, 3)],
      "one triangle; node solutions, edge data, averages, edge and element models derived from them, element fields, gradients: every history of 2 (thorough 3) changes, replacements, deletions with re-creation and partial reads, read in three orders; every kind of derived model on one segment, triangle or tetrahedron after 1 (thorough 2) input changes; geometric, surface, cylindrical and interface-normal models of two regions after 2 (thorough 3) changes of contacts, interfaces or the axis", [REAL])
check("E05", [H("e_conn:%d" % d, MESH, ["connected"], defs=["-DDIM=%d" % d], bounds=b) for d, b in ((1, "4 nodes"), (2, "up to three triangles on 5 nodes"), (3, "up to three tetrahedra on 5 nodes"))],
      "4 nodes on a line; up to three triangles or tetrahedra on 5 nodes in several arrangements; one (line: two) node numbers arbitrary below 2^40, several positions of one edge number, several orders of nodes, edges, elements and corners", ["every edge belongs to a triangle (2d) and every triangle to a tetrahedron (3d)"])
MESH1 = MESH + GEOM + ["meshing/" + f for f in "MeshUtil.cc Mesh1d.cc Mesh1dStructs.cc Mesh.cc".split()]
check("G01", [H("g_mesh1:one", MESH + ["meshing/MeshUtil.cc"], ["equal", "variable"], defs=["-DONE", "-DPTS=3"], quick_only=True, bounds="one interval up to 3 times as long as either spacing"),
              H("g_mesh1:one4", MESH + ["meshing/MeshUtil.cc"], ["equal", "variable"], defs=["-DONE", "-DPTS=4"], thorough_only=True, bounds="one interval up to 4 times as long as either spacing"),
              H("g_mesh1:line", MESH1, ["single", "two"], bounds="three positions in any order, equal spacings in each interval")],
      "one interval with any two spacings, up to 3 (thorough 4) times as long as either; three positions given in any order with one or two regions; positions and spacings between 1/64 and 100 apart", [REAL, "two spacings are equal or differ by more than 1e-8"])
B64 = CORE + ["ctype_stub.cc", "utility/base64.cc"]
check("G02", [H("g_base64:code", B64, ["coded"], defs=["-DMODE=0", "-DNB=7", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], bounds="up to 7 arbitrary bytes"),
              H("g_base64:text", B64, ["valid", "invalid"], defs=["-DMODE=1", "-DNB=4", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], quick_only=True, bounds="up to 4 arbitrary characters"),
              H("g_base64:text5", B64, ["valid", "invalid"], defs=["-DMODE=1", "-DNB=5", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], thorough_only=True, bounds="up to 5 arbitrary characters"),
              H("g_base64:blocks", B64, ["blocks"], defs=["-DMODE=2", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], bounds="1 to 8193 values, up to 4 of them arbitrary")],
      "up to 7 arbitrary bytes encoded and decoded; up to 5 arbitrary characters decoded; 1, 3, 4095, 4096, 4097, 8192, 8193 values in compressed blocks, the first and last of each block arbitrary", ["characters are classified as in the C locale", "the compressor is replaced by one that stores its input (zlib itself is outside the claim)"])
ME = ["MathEval/" + f for f in "MathEval.cc MathWrapper.cc MathPacket.cc MiscMathFunc.cc Bernoulli.cc Fermi.cc GaussFermi.cc kahan.cc".split()]
RN = lambda f: ["-DRENAME_" + f, "-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "rename.h")]
MATHS = MESH + ["interp_stub.cc"] + ME
check("H02", [H("h_math:exact", MATHS, ["exact"], defs=["-DMODE=0", "-DQUAD=0"], bounds="any arguments"),
              H("h_math:exactq", MATHS, ["exact"], ext=True, defs=["-DMODE=0", "-DQUAD=1"], bounds="any arguments, extended precision"),
              H("h_math:deriv", MATHS, ["series", "large", "derivative"], defs=["-DMODE=1", "-DQUAD=0"] + RN("expm1"), bounds="any argument"),
              H("h_math:fermi", MATHS, ["series", "degenerate"], defs=["-DMODE=2", "-DQUAD=0"] + RN("pow"), bounds="densities from 1e-3 to 1000"),
              H("h_math:gauss", MATHS, ["low density", "degenerate"], defs=["-DMODE=3", "-DQUAD=0"] + RN("exp") + ["-DRENAME_erfc"], bounds="4 widths, arguments between -80 and 80"),
              H("h_math:vector", MATHS, ["vector"], defs=["-DMODE=4", "-DQUAD=0"], bounds="up to 5 values, 1 to 4 threads, task sizes 0 to 2")],
      "any arguments (Fermi integral: densities from 1e-3 to 1000; Gauss-Fermi integral: 4 widths); vectors of up to 5 values on 1 to 4 threads", [REAL, "tasks given disjoint ranges do not influence each other", "exp, log, erf and erfc are uninterpreted functions; boost's inverse error function is outside the claim"])
CMD = ["pythonapi/GetArgs.cc", "pythonapi/CommandHandler.cc", "commands/CheckFunctions.cc", "commands/Validate.cc"] + ["meshing/" + f for f in "MeshKeeper.cc MeshUtil.cc Mesh1d.cc Mesh1dStructs.cc Mesh.cc".split()]
check("H01", [H("h_param", MESH + GEOM + CMD + ["commands/MaterialCommands.cc"], ["read", "recreated"], defs=["-DLL=3"], quick_only=True, bounds="3 operations"),
              H("h_param:deep", MESH + GEOM + CMD + ["commands/MaterialCommands.cc"], ["read", "recreated"], defs=["-DLL=4"], thorough_only=True, bounds="4 operations")],
      "two devices with two and one regions; every history of 3 (thorough 4) changes of two parameters at any level (numbers and text), refused changes and deletions of a device with re-creation; reads at every level through the commands and by models", ["Python objects are replaced by plain values (the Python interpreter is outside the claim)"])
NEWT = IEQN + [GM + f for f in ("AtContactNode.cc",)] + [CK + "InstanceKeeper.cc", CK + "InstanceModel.cc", CM + "sources/IdealCurrent.cc", CM + "sources/IdealVoltage.cc", CM + "sources/Signal.cc"] + [CM + "ideal/Ideal%s.cc" % x for x in ("Resistor", "Capacitor", "Inductor")] + \
  CMD + ["commands/MathCommands.cc"] + ["math/" + f for f in "Newton.cc TimeData.cc SolverUtil.cc ExternalPreconditioner.cc DirectLinearSolver.cc LinearSolver.cc Preconditioner.cc CompressedMatrix.cc Matrix.cc MathEnum.cc IterativeLinearSolver.cc BlockPreconditioner.cc".split()]
NOLIBS = ["-UUSE_MKL_PARDISO"]
check("B05", [H("b_newton:route", NEWT, ["static", "export", "small signal", "noise"], defs=["-DCFG=0"] + NOLIBS, bounds="two regions with an interface, a contact, a circuit, a second device")],
      "two regions of two nodes sharing an interface of every kind (or none), a contact with or without a circuit node, circuit elements, an optional second device, an optional custom equation; all entries arbitrary", [REAL, "the solver procedure returns arbitrary results"])
check("B04", [H("b_newton:time", NEWT, ["transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2", "dc", "rejected", "charge error"], defs=["-DCFG=1", "-DLL=2"] + NOLIBS, quick_only=True, bounds="4 steps"),
              H("b_newton:time3", NEWT, ["transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2", "dc", "rejected", "charge error"], defs=["-DCFG=1", "-DLL=3"] + NOLIBS, thorough_only=True, bounds="5 steps")],
      "one region of two nodes with or without a contact and a circuit; every sequence of 4 (thorough 5) accepted and rejected steps of every method, any step size and fraction, any charges and currents", [REAL, PIVOT, "the solver procedure returns fixed steps"])
check("B03", [H("b_newton:fail", NEWT, ["converged", "not converged", "singular", "solver error"], defs=["-DCFG=2", "-DIT=2"] + NOLIBS, quick_only=True, bounds="2 iterations"),
              H("b_newton:fail3", NEWT, ["converged", "not converged", "singular", "solver error"], defs=["-DCFG=2", "-DIT=3"] + NOLIBS, thorough_only=True, bounds="3 iterations")],
      "one region of two nodes, with a circuit node or a second device; every result or failure of the solver in up to 2 (thorough 3) iterations, any error limits", [REAL, "the solver procedure returns arbitrary results"])
ADIFF = ["utility/dsException.cc", "utility/dsAssert.cc", "output_stub.cc", "objholder_stub.cc"] + ["adiff/" + f for f in "EquationObject.cc LogicalFunc.cc UserFunc.cc".split()]
ADB = "every expression of the listed shapes (two operations over 35 subexpressions, three operations over 7 (thorough 15) subexpressions, chains of exp, log, functions) over two variables and the constants -1, 0, 0.5, 1, 2, 3, for all positive values of the variables in a box (analytic identities extend to their domain)"
ADA = [REAL, "bases of non-integer powers and arguments of logarithms are positive, denominators are not zero", "exp, log and declared functions are arbitrary functions subject to the laws of exponents and logarithms"]
check("A01", [H("a_adiff:diff", ADIFF, ["pairs", "nested", "functions"], defs=["-DWHAT=1"], bounds="up to 4 operations")], ADB, ADA)
check("A02", [H("a_adiff:simp", ADIFF, ["pairs", "nested", "functions", "numbers"], defs=["-DWHAT=2"], bounds="up to 4 operations")], ADB, ADA)
def pycheck(pid, py, bounds, assumptions, note="", technique=None):
    CHECKS[pid] = dict(py=py, h=[], bounds=bounds, assumptions=assumptions, note=note, technique="symbolic execution of the real Python source (Z3 terms as numbers, every feasible outcome of every comparison explored), assertions discharged by Z3 for all values, counterexamples replayed with floating point numbers")
pycheck("J01", ["py_ramp"], "any start, target, step size of either sign and positive minimum step; every pattern of success, convergence failure and other failure of up to 4 (thorough 6) solves; an exception of the callback", [REAL, "longer ramps are cut after the last of these solves"])
pycheck("J02", ["py_physics"], "silicon (potential only, drift diffusion, constant, exchanged and Klaassen mobility; contacts with and without a circuit), oxide, oxide and silicon interfaces; Potential existing or not; all values of the quantities in the expressions", [REAL, "exp, log, B and powers are arbitrary functions subject to the laws used", "diff(e, v) resolves names as the simulator does: v itself, registered derivative models, zero"])

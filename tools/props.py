#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py). Kept as python so that the
# statements stay readable and easy to edit.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

NOTEST = "The five stable tests only evaluate two special functions, one model-compiler script and a dense LU; nothing they run reaches this code, and a golden-file test could sample only a few of the values."

p("A01", "Symbolic differentiation gives the true derivative",
  "For every expression of the model language that the differentiator accepts, the expression it returns for the derivative with respect to a variable equals the mathematical derivative at every point where the expression is defined. This covers sums, products, powers, exponentials, logarithms, conditionals, comparisons, built-in and user functions, and nested combinations of them.",
  ["inputs", "programs"], "every expression tree over the language's operators (bounded depth) and every value of its variables",
  "The model-compiler tests print results and only check the exit code; they fix a dozen expressions.",
  ["src/adiff/EquationObject.cc", "src/adiff/LogicalFunc.cc", "src/adiff/UserFunc.cc"],
  [("Derivative methods of the expression objects", "src/adiff/EquationObject.cc"), ("logical and user functions", "src/adiff/LogicalFunc.cc, src/adiff/UserFunc.cc")])
p("A02", "Simplification and expansion preserve the value of an expression",
  "Simplifying, expanding, combining or substituting into an expression never changes its value at any point where the original is defined. Two expressions treated as identical while combining terms really have the same value everywhere.",
  ["inputs", "programs"], "every expression tree over the language's operators (bounded depth), every constant and every value of its variables",
  "The model-compiler tests print simplified forms and check the exit code only.",
  ["src/adiff/EquationObject.cc", "src/adiff/LogicalFunc.cc", "src/adiff/UserFunc.cc"],
  [("Simplify / expand / CombineProduct / CombineAdd / subst", "src/adiff/EquationObject.cc")])

p("B01", "Assembled sparse matrices hold exactly the sum of what was added",
  "After any sequence of additions, finalizations and clears, a sparse matrix in compressed-column or compressed-row form represents exactly the sum of the entries added since the last clear, with real and imaginary parts kept separate, and each column (row) pointer and index list is sorted, in range and free of duplicates. An entry first seen after the pattern was frozen is not lost.",
  ["histories", "inputs"], "every sequence (bounded length) of add/finalize/clear operations with arbitrary row, column and value, both storage orders, real and complex",
  NOTEST, ["src/math/CompressedMatrix.cc", "src/math/CompressedMatrix.hh", "src/math/Matrix.hh"],
  [("AddEntry/AddImagEntry, CreateMatrix, DecorateMatrix, ClearMatrix", "src/math/CompressedMatrix.cc")])
p("B02", "Sparse matrix-vector products match the stored entries",
  "Multiplying a sparse matrix, or its transpose, by a vector gives the vector defined by the matrix entries, for real and complex vectors and both storage orders. The same holds for the dense factor-and-solve service: the returned vector satisfies the linear system, and a singular system is reported instead of solved.",
  ["inputs"], "every sparsity pattern and every value on matrices of bounded size",
  NOTEST, ["src/math/CompressedMatrix.cc", "src/math/DenseMatrix.cc"],
  [("Multiply / TransposeMultiply", "src/math/CompressedMatrix.cc"), ("LUFactor / Solve", "src/math/DenseMatrix.cc")])
p("B03", "A failed nonlinear solve leaves the device as it was",
  "When a nonlinear solve does not converge or is aborted by an error, every solution variable of every region and of the circuit has the value it had before the solve started. A solve that is reported as converged has met both the absolute and the relative error limit on every device and on the circuit within the iteration limit.",
  ["inputs", "histories", "fault_sequences"], "every sequence of update vectors the linear solver may return (including failure at any iteration), and every error limit",
  NOTEST, ["src/math/Newton.cc", "src/Geometry/Device.cc", "src/Geometry/Region.cc", "src/Circuit/data/NodeKeeper.cc"],
  [("Solve loop, BackupSolutions/RestoreSolutions", "src/math/Newton.cc")])
p("B04", "Transient integration follows its formula and keeps consistent history",
  "For each supported time integration scheme the discretized equation combines the charges and currents of the present and previous time points with the coefficients of that scheme, so that a charge that is a polynomial in time up to the order of the scheme is differentiated exactly. Stored charge and current histories shift by one step after an accepted step and do not change after a rejected one.",
  ["histories", "inputs"], "every time step pair, every charge/current history and every scheme",
  NOTEST, ["src/math/Newton.cc", "src/math/TimeData.cc"],
  [("TimeMethods and LoadMatrixAndRHS with time data", "src/math/Newton.cc"), ("TimeData", "src/math/TimeData.cc")])
p("B05", "Boundary rows are routed without loss when the system is assembled",
  "When boundary or interface conditions replace or redirect rows of the bulk system, each contribution is added to exactly the row its redirection names, is dropped only when the row is declared to be discarded, and is added to both rows when a copy is requested. The same routing is applied to the matrix and to the right-hand side, for real, complex and noise systems.",
  ["inputs", "configurations"], "every row redirection map and every list of entries of bounded size",
  NOTEST, ["src/math/Newton.cc", "src/Geometry/Permutation.cc"],
  [("LoadIntoMatrix / LoadIntoRHS and permuted variants", "src/math/Newton.cc")])

p("C01", "Every field equation conserves flux across the mesh",
  "Assembling a bulk equation adds, for every mesh edge of every element, the flux times its coupling to one end node and exactly the opposite amount to the other end node, so that the sum over all nodes of the assembled flux is zero in one, two and three dimensions. Node and volume terms are added to each node exactly once, weighted with that node's volume.",
  ["inputs", "configurations"], "every flux, volume and coupling value on bounded meshes of each dimension",
  NOTEST, ["src/Equation/Equation.cc", "src/AutoEquation/ExprEquation.cc", "src/Equation/EquationHolder.cc"],
  [("EdgeAssembleRHS, TriangleEdgeAssembleRHS, TetrahedronEdgeAssembleRHS, NodeAssembleRHS", "src/Equation/Equation.cc")])
p("C02", "The assembled bulk Jacobian is the derivative of the assembled residual",
  "For every bulk equation, the matrix entries assembled for a row are the derivatives of the right-hand side of that row with respect to each solution variable at each node, given that the supplied derivative models are the derivatives of the supplied models. This holds for node, edge and element models in one, two and three dimensions and for any number of coupled variables.",
  ["inputs", "configurations"], "every model and derivative value on bounded meshes of each dimension",
  NOTEST, ["src/Equation/Equation.cc", "src/AutoEquation/ExprEquation.cc"],
  [("UnSymmetric*AssembleJacobian, NodeAssembleJacobian", "src/Equation/Equation.cc")])
p("C03", "Contact equations replace bulk rows and balance the external circuit",
  "Rows of contact nodes owned by a contact equation are replaced by that equation, and no other rows are touched; a node shared by two contacts of a region is served by exactly one of those that define the equation. The current and charge reported at a contact, and those injected into an attached circuit node, equal the flux entering through the contact nodes, and the matrix entries are the matching derivatives.",
  ["inputs", "configurations"], "every contact node set, flux, coupling and derivative value on bounded meshes, with and without circuit nodes and overlapping contacts",
  NOTEST, ["src/Equation/ContactEquation.cc", "src/AutoEquation/ExprContactEquation.cc", "src/Geometry/Contact.cc"],
  [("AssembleNodeEquation, AssembleEdgeEquation(OnCircuit), integrate*OverNodes, GetActiveNodes", "src/Equation/ContactEquation.cc")])
p("C04", "Interface equations couple both regions consistently",
  "A continuity condition moves the bulk row of the second region's interface node onto the first region's row and puts the condition in its place; a flux condition adds equal and opposite contributions weighted with the surface area to both regions; a hybrid condition does the documented combination. The matrix entries of an interface equation are the derivatives of the interface terms with respect to the variables of both regions, and nodes claimed by a contact equation are left alone.",
  ["inputs", "configurations"], "every interface term, derivative and surface area value on bounded two-region meshes, with and without contacts touching the interface",
  NOTEST, ["src/Equation/InterfaceEquation.cc", "src/AutoEquation/InterfaceExprEquation.cc", "src/Geometry/Interface.cc"],
  [("NodeVolumeType1/2/3Assemble", "src/Equation/InterfaceEquation.cc")])
p("C05", "Solution updates respect their limiting rule and report true errors",
  "A positive update never turns a positive solution value into a non-positive one and refuses a non-positive starting value; a logarithmically damped update keeps the sign of the step, never enlarges it and leaves small steps unchanged; a default update adds the step. The reported absolute error is the largest applied step and the relative error the largest step relative to the new value.",
  ["inputs"], "every starting value, step and minimum error (floating point or real) on bounded node counts",
  NOTEST, ["src/Equation/Equation.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc"],
  [("DefaultUpdate, LogSolutionUpdate, PositiveSolutionUpdate", "src/Equation/Equation.cc")])
p("C06", "Every unknown has its own equation row",
  "After any sequence of adding, replacing and deleting equations, every equation of every region of a device owns a distinct block of rows, every node of the region a distinct row in it, rows are contiguous from the base number, and each solution variable belongs to exactly one equation.",
  ["histories", "configurations"], "every bounded sequence of equation additions, replacements and deletions over bounded regions",
  NOTEST, ["src/Geometry/Region.cc", "src/Geometry/Device.cc"],
  [("AddEquation, DeleteEquation, GetEquationNumber, CalcMaxEquationNumber", "src/Geometry/Region.cc, src/Geometry/Device.cc")])

p("D01", "A model never returns data that is older than what it depends on",
  "Whenever a model is read, its values are those computed from the current values of all models it depends on, directly or through other models, after any history of value changes, re-creations and deletions. Models whose inputs did not change are not recomputed to different values.",
  ["histories"], "every bounded history of set/replace/delete/read operations over chains of dependent models, with arbitrary values",
  NOTEST, ["src/Geometry/Region.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/TriangleEdgeModel.cc", "src/models/TetrahedronEdgeModel.cc"],
  [("RegisterCallback / SignalCallbacks / MarkOld", "src/Geometry/Region.cc")])
p("D02", "Model storage and vector arithmetic are value-exact",
  "Values written to a model, as a list, as one uniform value, at one index or at the nodes of a contact, are read back unchanged in either precision after any history of such writes and reads. Sums and products of model data give the element-wise result whatever mixture of uniform, shared and explicit data is combined, and splitting the work between threads covers every element exactly once.",
  ["inputs", "histories", "schedules"], "every value, every bounded write/read history, every operand representation, every length and thread count within 32 bits",
  NOTEST, ["src/models/ModelDataHolder.cc", "src/models/ScalarData.cc", "src/models/ParallelOpEqual.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc"],
  [("ModelDataHolder get/set", "src/models/ModelDataHolder.cc"), ("ScalarData operators", "src/models/ScalarData.cc"), ("OpEqualRun partition", "src/models/ParallelOpEqual.cc")])
p("D03", "Edge and element models derived from node models are exact with derivatives",
  "Models that carry node data to edges or elements hold the value of exactly the node they name, averages follow their definition, and the generated derivative models are the derivatives of the generated models with respect to the node values.",
  ["inputs", "configurations"], "every node value and derivative on bounded meshes, every averaging type",
  NOTEST, ["src/models/EdgeFromNodeModel.cc", "src/models/TriangleEdgeFromNodeModel.cc", "src/models/TetrahedronEdgeFromNodeModel.cc", "src/GeomModels/AverageEdgeModel.cc"],
  [("calcEdgeScalarValues of the derived models", "src/models/*FromNodeModel.cc, src/GeomModels/AverageEdgeModel.cc")])
p("D04", "Element fields reconstruct uniform fields and differentiate consistently",
  "When the data on the edges of a triangle or tetrahedron are the projections of one uniform vector, the reconstructed vector on every element edge is that vector, also for the paired variants and in any orientation. The reconstructed field is linear in the edge data, and the generated derivative models are its derivatives with respect to the node values.",
  ["inputs", "configurations"], "every element shape (symbolic coordinates or unit vectors), every edge value and every orientation of a bounded mesh",
  NOTEST, ["src/Geometry/TriangleElementField.cc", "src/Geometry/TetrahedronElementField.cc", "src/models/TriangleEdgeFromEdgeModel.cc", "src/models/TriangleEdgeFromEdgeModelDerivative.cc", "src/models/TetrahedronEdgeFromEdgeModel.cc", "src/models/TetrahedronEdgeFromEdgeModelDerivative.cc"],
  [("GetTriangleElementField(Pairs), GetTetrahedronElementField(Pairs)", "src/Geometry/TriangleElementField.cc, src/Geometry/TetrahedronElementField.cc")])
p("D05", "The gradient of a linear node field is exact",
  "The gradient computed at the nodes from a node field that is linear in position equals the slope of that field in one, two and three dimensions. With zero avoidance, elements touching a zero-valued node do not contribute.",
  ["inputs"], "every slope, offset and node position on bounded non-degenerate meshes",
  NOTEST, ["src/Geometry/GradientField.cc", "src/GeomModels/VectorGradient.cc"],
  [("GradientField::GetGradient, VectorGradient::calc1d/2d/3d", "src/Geometry/GradientField.cc, src/GeomModels/VectorGradient.cc")])

p("E01", "Edge geometry models match the node positions",
  "For every edge of every mesh the length model equals the distance of its two nodes, the inverse length is its reciprocal, and the direction components form a unit vector pointing from the first to the second node. A zero-length edge never yields a wrong finite value silently.",
  ["inputs"], "every node position of an edge (real arithmetic)",
  NOTEST, ["src/GeomModels/EdgeLength.cc", "src/GeomModels/EdgeInverseLength.cc", "src/GeomModels/UnitVec.cc", "src/Geometry/Vector.hh"],
  [("calcEdgeScalarValues", "src/GeomModels/EdgeLength.cc, src/GeomModels/UnitVec.cc")])
p("E02", "Control volumes partition the mesh",
  "In one, two and three dimensions the control volumes of the nodes of an element add up to the volume of the element, each edge's coupling equals the measure of the perpendicular-bisector face it stands for, and the per-edge models are the sums of the per-element ones. The circumcentre used for this is equidistant from the element's corners.",
  ["inputs"], "every position of the corners of a non-degenerate (well-centred where required) element, bounded meshes",
  NOTEST, ["src/GeomModels/EdgeCouple.cc", "src/GeomModels/NodeVolume.cc", "src/GeomModels/EdgeNodeVolume.cc", "src/GeomModels/TriangleEdgeCouple.cc", "src/GeomModels/TetrahedronEdgeCouple.cc", "src/GeomModels/TetrahedronNodeVolume.cc", "src/GeomModels/TriangleNodeVolume.cc", "src/Geometry/Triangle.cc", "src/Geometry/Tetrahedron.cc"],
  [("circumcentre and coupling computation", "src/Geometry/Triangle.cc, src/GeomModels/TriangleEdgeCouple.cc")])
p("E03", "Cylindrical volumes and areas equal those of the solid of revolution",
  "For a mesh in cylindrical coordinates the element node volumes, edge couplings and surface areas equal the volume or area obtained by revolving the corresponding planar piece about the axis, wherever the element lies and whichever coordinate is the radius.",
  ["inputs"], "every position of the corners of a non-degenerate triangle or boundary edge at non-negative radius, every axis choice",
  NOTEST, ["src/GeomModels/TriangleCylindricalNodeVolume.cc", "src/GeomModels/TriangleCylindricalEdgeCouple.cc", "src/GeomModels/CylindricalSurfaceArea.cc", "src/GeomModels/CylindricalNodeVolume.cc", "src/GeomModels/CylindricalEdgeCouple.cc", "src/GeomModels/CylindricalEdgeNodeVolume.cc"],
  [("calcCylindricalTriangleVolume", "src/GeomModels/TriangleCylindricalNodeVolume.cc")])
p("E04", "Contact and interface surface areas and normals match the boundary",
  "The surface areas assigned to the nodes of a contact or interface add up to the measure of its boundary edges or faces, only nodes on that boundary get a non-zero area, and the normal of an interface or contact node is a unit vector perpendicular to the boundary pointing out of the region.",
  ["inputs", "configurations"], "every position of the boundary nodes on bounded meshes of each dimension",
  NOTEST, ["src/GeomModels/SurfaceArea.cc", "src/GeomModels/SurfaceAreaUtil.cc", "src/GeomModels/InterfaceNormal.cc", "src/Geometry/Contact.cc", "src/Geometry/Interface.cc"],
  [("surface area and normal computation", "src/GeomModels/SurfaceAreaUtil.cc")])
p("E05", "Mesh connectivity lists are complete and mutually consistent",
  "After a mesh is finalized, every node, edge, triangle and tetrahedron has a distinct contiguous index, every incidence list names exactly the elements that share the given nodes, and the edge in position i of a triangle is the one opposite to its corner i. Looking up an edge, triangle or tetrahedron by its nodes finds it exactly when it exists.",
  ["configurations", "inputs"], "every bounded mesh topology given by arbitrary node numbering and element insertion order",
  NOTEST, ["src/Geometry/Region.cc", "src/Geometry/Edge.cc", "src/Geometry/Triangle.cc", "src/Geometry/Tetrahedron.cc"],
  [("FinalizeMesh and Create*List", "src/Geometry/Region.cc")])

p("F01", "Circuit elements obey their laws and conserve current",
  "Every resistor, capacitor, inductor, voltage source and current source adds equal and opposite currents to its two terminals following its constitutive law, and the matrix entries it adds are the derivatives of those contributions. A terminal tied to ground adds nothing and is never numbered.",
  ["inputs", "configurations"], "every element value, terminal voltage and current, every ground/non-ground terminal combination, DC, transient and AC parts",
  NOTEST, ["src/Circuit/models/ideal", "src/Circuit/models/sources", "src/Circuit/data/InstanceKeeper.cc", "src/Circuit/data/InstanceModel.cc"],
  [("assembleDC / assembleTran / assembleACS of the elements", "src/Circuit/models")])
p("F02", "Circuit unknowns are numbered and updated consistently",
  "After any sequence of additions and deletions every circuit node that is not ground has one distinct row and named solutions are read back as written. Applying an update changes each unknown by its step following its update rule, and the reported absolute and relative errors are the largest over all unknowns.",
  ["histories", "inputs"], "every bounded history of node additions, deletions and updates with arbitrary values",
  NOTEST, ["src/Circuit/data/NodeKeeper.cc", "src/Circuit/data/CircuitNode.cc"],
  [("AddNode, SetNodeNumbers, UpdateSolution, CopySolution", "src/Circuit/data/NodeKeeper.cc")])
p("F03", "Source waveforms follow their specification",
  "A pulse source has its initial value before its delay, ramps linearly during rise and fall, holds the pulse value in between and repeats with its period; it is continuous in time. A sinusoidal source has the specified offset, amplitude, frequency and delay.",
  ["inputs"], "every time and every non-degenerate waveform parameter set",
  NOTEST, ["src/Circuit/models/sources/Signal.cc"], [("Pulse, Sinusoidal", "src/Circuit/models/sources/Signal.cc")])

p("G01", "One-dimensional mesh generation honours positions and spacings",
  "A generated line contains every requested position exactly, its points are strictly increasing, all points lie between the end positions and no gap exceeds the larger of the requested spacings at its ends.",
  ["inputs"], "every pair of positions and spacings for which the number of points is bounded",
  NOTEST, ["src/meshing/MeshUtil.cc", "src/meshing/Mesh1d.cc"], [("getPoints", "src/meshing/MeshUtil.cc")])
p("G02", "Encoded data decodes to the same bytes",
  "Encoding any byte sequence for a mesh or plot file and decoding the text gives back the same bytes, and text that is not a valid encoding is never decoded beyond its end.",
  ["inputs"], "every byte sequence up to a bounded length",
  NOTEST, ["src/utility/base64.cc"], [("base64_encode / base64_decode", "src/utility/base64.cc")])

p("H01", "Parameter lookup follows region, device, global precedence",
  "Reading a parameter in the context of a region gives the region's value if set, else the device's, else the global one, else reports that it does not exist, after any history of setting parameters; values keep their type and content.",
  ["histories", "inputs"], "every bounded history of parameter writes at each level and every lookup",
  NOTEST, ["src/Data/GlobalData.cc"], [("GetDBEntryOnRegion / OnDevice / Global", "src/Data/GlobalData.cc")])
p("H02", "Math functions agree with their definitions and stated derivatives",
  "The functions offered to model expressions give the value of their definition for every argument: step, sign, minimum, maximum, comparison and logical functions exactly, and the functions with a separate derivative function satisfy the defining identity of that derivative. Evaluating a function on vectors, in any mixture of scalars and vectors and any split between threads, gives the scalar function of each element.",
  ["inputs", "schedules"], "every argument (floating point or real) and every scalar/vector argument mixture of bounded length",
  "The stable tests sample Fermi integrals on a grid of arguments only.",
  ["src/MathEval/MiscMathFunc.cc", "src/MathEval/Bernoulli.cc", "src/MathEval/MathWrapper.cc", "src/MathEval/MathPacket.cc", "src/MathEval/MathEval.cc", "src/MathEval/Fermi.cc"],
  [("function definitions and dispatch", "src/MathEval")])
p("J01", "The packaged bias ramp reaches its target or says that it did not",
  "The packaged ramp procedure, for any pattern of solver failures, either ends with the contact bias exactly at the requested value and a successful solve there, or stops with an error without having accepted a failed step; it never steps past the target and always terminates.",
  ["fault_sequences", "inputs"], "every start, target and step size and every success/failure pattern of the solver of bounded length",
  "No stable test runs the Python packages; a run samples one failure pattern.",
  ["python_packages/ramp.py"], [("rampbias", "python_packages/ramp.py")])
p("J02", "The packaged physics scripts register consistent models and derivatives",
  "The packaged physics scripts create, for every model they hand to the simulator, the derivative models the simulator will look up, with expressions that are the derivatives of the model expressions, for every combination of contact type and option they offer.",
  ["configurations", "inputs"], "every option combination of the scripts and every value of the node quantities in the expressions",
  "No stable test runs the Python packages.",
  ["python_packages/simple_physics.py", "python_packages/simple_dd.py", "python_packages/model_create.py", "python_packages/Klaassen.py"], [("Create* functions", "python_packages/simple_physics.py")])

# Statements as sharpened while the checks were built
FIX = {
"A01": "For every expression built from sums, differences, products, quotients, powers, exponentials, logarithms, comparisons and declared functions, the expression returned for the derivative with respect to a variable equals the mathematical derivative at every point where the expression is defined (bases of non-integer powers and arguments of logarithms positive, denominators non-zero); comparisons have derivative zero. The derivative of a declared function uses its declared partial derivatives with all actual arguments substituted simultaneously, also when arguments contain the names of formal arguments. Simplifying before or after differentiating changes nothing.",
"A02": "Simplifying, expanding, copying, negating, substituting into an expression, or splitting it into scale and unscaled value or sign and unsigned value, never changes its value at any point where the original is defined, and leaves the original expression alone. Two expressions treated as identical while combining terms really have the same value, also when they differ only in the digits of a constant; an expression said to be zero or one is. The variables reported for an expression are variables of it.",
"B03": "When a nonlinear solve does not converge or is aborted by an error, every solution variable of every region and of the circuit has the value it had before the solve started, and models that depend on them follow. A solve that is reported as converged has met both the absolute and the relative error limit on every device and on the circuit within the iteration limit; a solve that never meets them reports the failure.",
"B04": "For each supported time integration scheme (BDF1, trapezoidal, BDF2, and the transient dc start) the discretized equation combines the charges and currents of the present and previous time points with the coefficients of that scheme, so that a charge that is a polynomial in time up to the order of the scheme is differentiated exactly. Stored charge and current histories shift by one step after an accepted step and do not change after a rejected one. When a projected charge is requested to be checked, a step whose charge deviates by more than the limit is rejected and restored.",
"B05": "When boundary or interface conditions replace or redirect rows of the bulk system, each contribution is added to exactly the row its redirection names, is dropped only when the row is declared to be discarded, and is added to both rows when a copy is requested. The same routing is applied to the matrix and to the right-hand side, to custom equations, to exported systems, to the small-signal system (static entries real, dynamic entries multiplied by the angular frequency as imaginary part) and to its transpose used for noise.",
"C04": "A continuity condition moves the bulk row of the second region's interface node onto the first region's row and puts the condition in its place; a flux condition adds equal and opposite contributions weighted with the surface area to both regions; a hybrid condition moves the row like a continuity condition and puts the area-weighted term, with the sign it has in the flux condition, in its place. The matrix entries of an interface equation are the derivatives of the interface terms with respect to the variables of both regions, and nodes claimed by a contact equation, or by two interfaces for the same equation, are left alone.",
"C05": "A positive update never turns a positive solution value into a non-positive one and refuses a non-positive starting value; a logarithmically damped update keeps the sign of the step, never enlarges it and leaves small steps unchanged; a default update adds the step. The reported absolute error is the largest applied step and the relative error the largest ratio of step to the sum of new value magnitude and minimum error, each reported with the node where it occurs; errors of a region and a device bound those of their equations.",
"D01": "Whenever a model is read, its values are those computed from the current values of all models it depends on, directly or through other models, after any history of value changes, replacements, deletions and re-creations. Covered are the built-in model classes: edge data from node models, averages, gradients, element data from edge models and their derivatives. Models whose inputs did not change are not recomputed to different values.",
"E02": "In one, two and three dimensions each edge's coupling in an element equals the signed measure of the perpendicular-bisector face it stands for, the node volumes of an element are the corresponding parts and add up to the volume of the element when its circumcentre lies inside, and the per-edge and per-node models are the sums of the per-element ones. The circumcentre used for this is equidistant from the element's corners.",
"E04": "The surface areas assigned to the nodes of a contact or interface add up to the measure of its boundary edges or faces, each boundary edge or face being split between its own nodes, and only nodes on that boundary get a non-zero area. In one and two dimensions the normal of an interface or contact node is a unit vector perpendicular to its boundary.",
"F02": "After any sequence of additions of nodes and aliases every circuit node that is not ground has one distinct row and named solutions are read back as written. Applying an update changes each unknown by its step following its update rule, the reported absolute error is the sum of the applied steps and the reported relative error is the largest over all unknowns.",
"F03": "A pulse source has its initial value before its delay, ramps linearly during rise and fall, holds the pulse value in between, returns to the initial value for the rest of the period and repeats with its period; it is continuous in time. A constant source keeps its value until it is set.",
"G01": "A generated line contains every requested position exactly (within 1e-10), its points are strictly increasing, all points lie between the end positions and no gap inside a divided interval exceeds the larger of the requested spacings at its ends; an interval shorter than the spacings stays a single gap.",
"G02": "Encoding any byte sequence for a mesh or plot file and decoding the text gives back the same bytes; text is decoded when it is a valid encoding, whose padding may be missing and which may be followed by other text after its padding, and text with characters outside the alphabet is rejected; nothing is read beyond its end. Data written in compressed blocks hold every value in order, whatever its number.",
"H01": "Reading a parameter in the context of a region gives the region's value if set, else the device's, else the global one, else reports that it does not exist, after any history of setting parameters and of deleting and re-creating devices; values keep their type and content. What is computed from a parameter follows every change of it. Commands refuse unknown devices and regions and a region without a device, and change nothing then.",
"H02": "The functions offered to model expressions give the value of their definition for every argument: step, sign, minimum, maximum, comparison and logical functions exactly, the Bernoulli, Fermi (Joyce-Dixon series and degenerate expansion) and Gauss-Fermi functions by their formulas in each range, and functions with a separate derivative function satisfy the defining identity of that derivative, consistently where ranges meet. Evaluating a function on vectors, in any mixture of scalars and vectors and any split between threads, gives the scalar function of each element.",
"J01": "The packaged ramp procedure, for any pattern of solver failures, either ends within the minimum step of the requested bias with a successful solve at the bias the contact then has, or stops with an error. Steps go toward the target, never past it and never exceed the step size, which is halved after each convergence failure; after giving up, the contact has the last bias that was solved. The callback follows each successful solve and no other; errors other than convergence failures are passed on.",
"J02": "The packaged physics scripts create, for every model they hand to the simulator, the derivative models the simulator will look up, with expressions that are the derivatives of the model expressions, for every combination of contact type, circuit, mobility and update option they offer. The expressions are consistent with each other: no recombination and no current at equilibrium, carriers recombine in pairs, the charges of the potential and continuity equations agree, contact values obey mass action and neutrality, and equal values satisfy the continuity conditions of interfaces.",
}
for x in P:
    if x["id"] in FIX: x["statement"] = FIX[x["id"]]

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

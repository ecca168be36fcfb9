// E01: EdgeLength, EdgeInverseLength, unitx/y/z against the node positions; NodePosition models.
#include "mesh.h"
#include "ModelCreate.hh"
void se_main() {
  int dim = 1 + se_choose("dim", 3); Mesh m(dim);
  std::vector<std::vector<int>> el; int n = dim == 1 ? 3 : dim + 1;
  for (int i = 0; i < n; i++) { double x = se_real("x"), y = dim > 1 ? se_real("y") : 0, z = dim > 2 ? se_real("z") : 0; m.coord(x, y, z); }
  if (dim > 1) m.generic();
  std::vector<int> nodes; for (int i = 0; i < n; i++) nodes.push_back(i);
  if (dim == 1) el = {{0, 1}, {1, 2}}; else el = {nodes};
  Region *r = m.region("r", nodes, el);
  CreateDefaultModels(r);
  std::vector<double> uy, uz, L = eval(r, "EdgeLength"), I = eval(r, "EdgeInverseLength"), ux = eval(r, "unitx");
  if (dim > 1) uy = eval(r, "unity"); if (dim > 2) uz = eval(r, "unitz");
  for (auto *e : r->GetEdgeList()) {
    size_t i = e->GetIndex(); P3 d = sub(m.pos[e->GetTail()->GetIndex()], m.pos[e->GetHead()->GetIndex()]);
    se_assert(L[i] > 0, "length positive"); se_assert_eq(L[i] * L[i], dot(d, d), "squared length is the distance squared");
    se_assert_eq(L[i] * I[i], 1, "EdgeInverseLength is the reciprocal");
    se_assert_eqs(ux[i] * L[i], d[0], 1, "unitx points from n0 to n1");
    if (dim > 1) se_assert_eqs(uy[i] * L[i], d[1], 1, "unity points from n0 to n1");
    if (dim > 2) se_assert_eqs(uz[i] * L[i], d[2], 1, "unitz points from n0 to n1");
  }
  auto px = nval(r, "x"), py = nval(r, "y"), pz = nval(r, "z"), ni = nval(r, "node_index"), ci = nval(r, "coordinate_index");
  for (int i = 0; i < n; i++) { se_assert_eq(px[i], m.pos[i][0], "x model"); se_assert_eq(py[i], m.pos[i][1], "y model"); se_assert_eq(pz[i], m.pos[i][2], "z model"); se_assert_eq(ni[i], i, "node_index"); se_assert_eq(ci[i], i, "coordinate_index"); }
  se_reach(dim == 1 ? "1d" : dim == 2 ? "2d" : "3d");
}

// Mesh fixture: builds devices and regions of the real code from coordinates and element lists.
#pragma once
#include "se.h"
#include "Coordinate.hh"
#include "Node.hh"
#include "Edge.hh"
#include "Triangle.hh"
#include "Tetrahedron.hh"
#include "EdgeData.hh"
#include "Region.hh"
#include "Device.hh"
#include "Contact.hh"
#include "Interface.hh"
#include "NodeModel.hh"
#include "NodeSolution.hh"
#include "EdgeModel.hh"
#include "EdgeSubModel.hh"
#include "TriangleEdgeModel.hh"
#include "TriangleEdgeSubModel.hh"
#include "TetrahedronEdgeModel.hh"
#include "TetrahedronEdgeSubModel.hh"
#include "InterfaceNodeModel.hh"
#include "GlobalData.hh"
#include "ObjectHolder.hh"
#include "dsException.hh"
#include <algorithm>
#include <cmath>
#include <array>
#include <string>
#include <vector>
typedef std::array<double, 3> P3;
struct Mesh {
  Device *dev; size_t dim; std::vector<CoordinatePtr> coords; std::vector<P3> pos; unsigned flip = 0; // flip: bit i reverses edge i
  explicit Mesh(size_t d, const std::string &nm = "device") : dim(d) { dev = new Device(nm, d); GlobalData::GetInstance().AddDevice(dev); }
  void coord(double x, double y = 0, double z = 0) { coords.push_back(new Coordinate(x, y, z)); pos.push_back({x, y, z}); dev->AddCoordinate(coords.back()); }
  // general position along the axes: the special cases of the circumcentre formulas for axis-parallel sides stay out
  void generic() { for (size_t i = 0; i < pos.size(); i++) for (size_t j = 0; j < i; j++) for (size_t k = 0; k < dim; k++) { double d = pos[i][k] - pos[j][k]; if (!se_native() && se_symbolic(d)) se_assume(std::abs(d) >= 1.0 / 64); } }
  // nodes: coordinate indexes; elems: node (local) indexes of the highest dimension elements
  Region *region(const std::string &nm, const std::vector<int> &nodes, std::vector<std::vector<int>> elems, bool finalize = true) {
    Region *r = new Region(nm, "mat", dim, dev); std::vector<NodePtr> n;
    for (size_t i = 0; i < nodes.size(); i++) { n.push_back(new Node(i, coords[nodes[i]])); r->AddNode(n.back()); }
    std::vector<std::vector<int>> e1, e2, e3;
    auto sub = [](std::vector<std::vector<int>> &from) { std::vector<std::vector<int>> o; for (auto &e : from) for (size_t k = e.size(); k-- > 0;) { std::vector<int> f; for (size_t j = 0; j < e.size(); j++) if (j != k) f.push_back(e[j]); o.push_back(f); }
      std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; };
    for (auto &e : elems) std::sort(e.begin(), e.end());
    if (dim == 3) { e3 = elems; e2 = sub(e3); e1 = sub(e2); } else if (dim == 2) { e2 = elems; e1 = sub(e2); } else e1 = elems;
    size_t i = 0; for (auto &e : e1) { bool f = flip >> i & 1; r->AddEdge(new Edge(i++, n[e[f]], n[e[!f]])); }
    i = 0; for (auto &e : e2) r->AddTriangle(new Triangle(i++, n[e[0]], n[e[1]], n[e[2]]));
    i = 0; for (auto &e : e3) r->AddTetrahedron(new Tetrahedron(i++, n[e[0]], n[e[1]], n[e[2]], n[e[3]]));
    dev->AddRegion(r); if (finalize) r->FinalizeMesh();
    return r;
  }
};
inline NodeModelPtr nsol(Region *r, const std::string &nm) { return CreateNodeSolution(nm, r, NodeModel::DisplayType::SCALAR); }
inline std::vector<double> symv(const char *nm, size_t n) { std::vector<double> v(n); for (auto &x : v) x = se_real(nm); return v; }
inline NodeModelPtr nsol(Region *r, const std::string &nm, const std::vector<double> &v) { auto m = nsol(r, nm); m->SetValues(v); return m; }
inline EdgeModelPtr esol(Region *r, const std::string &nm, const std::vector<double> &v) { auto m = CreateEdgeSubModel(nm, r, EdgeModel::DisplayType::SCALAR); m->SetValues(v); return m; }
inline TriangleEdgeModelPtr tsol(Region *r, const std::string &nm, const std::vector<double> &v) { auto m = CreateTriangleEdgeSubModel(nm, r, TriangleEdgeModel::DisplayType::SCALAR); m->SetValues(v); return m; }
inline TetrahedronEdgeModelPtr ttsol(Region *r, const std::string &nm, const std::vector<double> &v) { auto m = CreateTetrahedronEdgeSubModel(nm, r, TetrahedronEdgeModel::DisplayType::SCALAR); m->SetValues(v); return m; }
inline std::vector<double> nval(Region *r, const std::string &nm) { return r->GetNodeModel(nm)->GetScalarValues<double>(); }
inline std::vector<double> eval(Region *r, const std::string &nm) { return r->GetEdgeModel(nm)->GetScalarValues<double>(); }
inline std::vector<double> tval(Region *r, const std::string &nm) { return r->GetTriangleEdgeModel(nm)->GetScalarValues<double>(); }
inline std::vector<double> ttval(Region *r, const std::string &nm) { return r->GetTetrahedronEdgeModel(nm)->GetScalarValues<double>(); }
inline P3 sub(const P3 &a, const P3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline double dot(const P3 &a, const P3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline P3 crs(const P3 &a, const P3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double det3(const P3 &a, const P3 &b, const P3 &c) { return dot(a, crs(b, c)); }

// Common parts of the equation assembly harnesses.
#pragma once
#include "mesh.h"
#include "ExprEquation.hh"
#include "EquationHolder.hh"
#include "MatrixEntries.hh"
#include "MathEnum.hh"
#include <map>
typedef std::vector<double> V;
typedef dsMath::RealRowColValueVec<double> MV; typedef dsMath::RHSEntryVec<double> RV;
typedef std::map<size_t, double> Row; typedef std::map<std::pair<size_t, size_t>, double> Mat;
inline void par(Region *r, const char *n, const char *v) { GlobalData::GetInstance().AddDBEntryOnRegion(r, n, ObjectHolder(std::string(v))); }
inline Mat sum(const MV &m) { Mat o; for (auto &e : m) { auto k = std::make_pair((size_t)e.row, (size_t)e.col); auto it = o.find(k); if (it == o.end()) o[k] = e.val; else it->second = it->second + e.val; } return o; }
inline Row sum(const RV &v) { Row o; for (auto &e : v) { auto it = o.find(e.first); if (it == o.end()) o[e.first] = e.second; else it->second = it->second + e.second; } return o; }
inline double at(const Row &r, size_t i) { auto it = r.find(i); return it == r.end() ? 0.0 : it->second; }
inline double at(const Mat &r, size_t i, size_t j) { auto it = r.find(std::make_pair(i, j)); return it == r.end() ? 0.0 : it->second; }
inline void add(Row &r, size_t i, double v) { auto it = r.find(i); if (it == r.end()) r[i] = v; else it->second = it->second + v; }
inline void add(Mat &r, size_t i, size_t j, double v) { auto k = std::make_pair(i, j); auto it = r.find(k); if (it == r.end()) r[k] = v; else it->second = it->second + v; }
// standard mesh of the equation harnesses
inline Region *eqmesh(Mesh &m, const char *nm = "r") {
  switch (m.dim) {
    case 1: for (int i = 0; i < 3; i++) m.coord(i); return m.region(nm, {0, 1, 2}, {{0, 1}, {1, 2}});
    case 2: m.coord(0, 0); m.coord(1, 0); m.coord(0, 1); m.coord(1.25, 1.5); return m.region(nm, {0, 1, 2, 3}, {{0, 1, 2}, {1, 2, 3}});
    default: m.coord(0, 0, 0); m.coord(1, 0, 0); m.coord(0, 1, 0); m.coord(0, 0, 1); if (THREE == 1) return m.region(nm, {0, 1, 2, 3}, {{0, 1, 2, 3}}); m.coord(1, 1, 1); return m.region(nm, {0, 1, 2, 3, 4}, {{0, 1, 2, 3}, {1, 2, 3, 4}}); } }
// edges of the elements in the order of the element edge data: head, tail, opposite nodes, edge index
struct EE { size_t n[4]; size_t edge; int k; };
inline std::vector<EE> elemEdges(Region *r) { std::vector<EE> o;
  if (r->GetDimension() == 2) for (auto *t : r->GetTriangleList()) for (int j = 0; j < 3; j++) { auto &n = t->GetNodeList(); int a = j == 0 ? 1 : 0, b = j == 2 ? 1 : 2; EE e; e.n[0] = n[a]->GetIndex(); e.n[1] = n[b]->GetIndex(); e.n[2] = n[j]->GetIndex(); e.k = 3; e.edge = 0; o.push_back(e); }
  if (r->GetDimension() == 3) for (auto &l : r->GetTetrahedronToEdgeDataList()) for (auto *d : l) { EE e; e.n[0] = d->edge->GetHead()->GetIndex(); e.n[1] = d->edge->GetTail()->GetIndex(); e.n[2] = d->nodeopp[0]->GetIndex(); e.n[3] = d->nodeopp[1]->GetIndex(); e.k = 4; e.edge = 0; o.push_back(e); }
  for (auto &e : o) for (auto *d : r->GetEdgeList()) if (d->GetHead()->GetIndex() == e.n[0] && d->GetTail()->GetIndex() == e.n[1]) e.edge = d->GetIndex();
  return o; }
inline EquationHolder equation(Region *r, const char *nm, const char *var, const char *node = "", const char *edge = "", const char *ev = "", const char *el = "", const char *v0 = "", const char *v1 = "", const char *tm = "", EquationEnum::UpdateType u = EquationEnum::DEFAULT) {
  EquationHolder h(static_cast<Equation<double> *>(new ExprEquation<double>(nm, r, var, node, edge, ev, el, v0, v1, tm, u))); r->AddEquation(h); return h; }

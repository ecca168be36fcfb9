// E05: numbering, incidence lists and lookups of a finalized region; elements of contacts and interfaces.
#include "mesh.h"
typedef std::vector<int> VI;
static VI ids(const ConstNodeList &l) { VI o; for (auto *n : l) o.push_back(n->GetIndex()); std::sort(o.begin(), o.end()); return o; }
static VI ids(ConstEdgePtr e) { VI o{(int)e->GetHead()->GetIndex(), (int)e->GetTail()->GetIndex()}; std::sort(o.begin(), o.end()); return o; }
static VI ids(ConstTrianglePtr t) { return ids(t->GetNodeList()); }
static VI ids(ConstTetrahedronPtr t) { return ids(t->GetNodeList()); }
static bool inc(const VI &big, const VI &s) { return std::includes(big.begin(), big.end(), s.begin(), s.end()); }
// list names exactly the elements of all whose nodes include s, each once
template <class L, class A> static void exact(const L &list, const A &all, const VI &s, const char *what) {
  size_t n = 0; for (auto *e : all) { bool want = inc(ids(e), s); n += want; se_assert((size_t)std::count(list.begin(), list.end(), e) == (size_t)want, what); } se_assert(list.size() == n, what); }
template <class L> static void numbered(const L &l, size_t n, const char *what) { se_assert(l.size() == n, what); for (size_t i = 0; i < n; i++) se_assert(l[i]->GetIndex() == i, what); }
void se_main() {
  const int N = DIM == 1 ? 4 : DIM == 2 ? 5 : 5;
  // shapes: elements by node
  const std::vector<std::vector<VI>> shapes = DIM == 1 ? std::vector<std::vector<VI>>{{{0, 1}, {1, 2}, {2, 3}}, {{0, 2}, {2, 3}}} : DIM == 2 ?
    std::vector<std::vector<VI>>{{{0, 1, 2}}, {{0, 1, 2}, {1, 2, 3}}, {{0, 1, 2}, {1, 2, 3}, {0, 2, 4}}, {{0, 1, 2}, {0, 2, 3}, {0, 1, 3}}, {{0, 1, 2}, {2, 3, 4}}} :
    std::vector<std::vector<VI>>{{{0, 1, 2, 3}}, {{0, 1, 2, 3}, {1, 2, 3, 4}}, {{0, 1, 2, 3}, {1, 2, 3, 4}, {0, 1, 2, 4}}};
  auto el = shapes[se_choose("shape", shapes.size())];
  Mesh m(DIM); const double xs[] = {0, 3, 1, 4, 2}, ys[] = {0, 1, 3, 4, 7}, zs[] = {0, 1, 2, 7, -5}; for (int i = 0; i < N; i++) m.coord(xs[i], DIM > 1 ? ys[i] : 0, DIM > 2 ? zs[i] : 0);
  Region *r = new Region("r", "mat", DIM, m.dev); m.dev->AddRegion(r);
  // any distinct numbers for the nodes, added in any of several orders
  std::vector<int64_t> k; for (int i = 0; i < N; i++) k.push_back(20 * i); int ord = se_choose("order of the nodes, edges, elements, corners", 3);
  auto free = [&](int i) { k[i] = se_int64("node number"); se_assume(k[i] >= 0 && k[i] < (int64_t(1) << 40)); for (int j = 0; j < N; j++) if (j != i) se_assume(k[i] != k[j]); };
  if (DIM == 1) { free(0); free(2); } else free(ord);
  std::vector<NodePtr> n; for (int i = 0; i < N; i++) n.push_back(new Node(k[i], m.coords[i]));
  int rot = ord == 1 ? 2 : 0; for (int i = 0; i < N; i++) r->AddNode(n[(i + rot) % N]);
  auto faces = [](std::vector<VI> from) { std::vector<VI> o; for (auto e : from) { std::sort(e.begin(), e.end()); for (size_t j = 0; j < e.size(); j++) { VI f = e; f.erase(f.begin() + j); o.push_back(f); } } std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; };
  std::vector<VI> e1, e2, e3; if (DIM == 3) { e3 = el; e2 = faces(e3); e1 = faces(e2); } else if (DIM == 2) { e2 = el; e1 = faces(e2); } else e1 = el;
  // one edge gets any number between those of the others; corners of the elements and the elements themselves in several orders
  int64_t ke = se_int64("edge number"); se_assume(ke > 4 && ke < (DIM == 3 ? 12 : 20)); for (int i = 2; i < 5; i++) se_assume(ke != 4 * i);
  int er = ord == 1, tr = ord == 2, cr = ord > 0;
  if (er) std::reverse(e1.begin(), e1.end()); if (tr) { std::reverse(e2.begin(), e2.end()); std::reverse(e3.begin(), e3.end()); }
  for (size_t i = 0; i < e1.size(); i++) { auto &e = e1[i]; r->AddEdge(new Edge(i == 1 ? (size_t)ke : (er ? 4 * (e1.size() - i) : 4 * i), n[e[cr]], n[e[!cr]])); }
  size_t c = 0; for (auto e : e2) { if (cr) std::rotate(e.begin(), e.begin() + 1 + c % 2, e.end()); r->AddTriangle(new Triangle(c++, n[e[0]], n[e[1]], n[e[2]])); }
  c = 0; for (auto e : e3) { if (cr) std::rotate(e.begin(), e.begin() + 1 + c % 3, e.end()); r->AddTetrahedron(new Tetrahedron(c++, n[e[0]], n[e[1]], n[e[2]], n[e[3]])); }
  r->FinalizeMesh();
  auto &nl = r->GetNodeList(); auto &E = r->GetEdgeList(); auto &T = r->GetTriangleList(); auto &Q = r->GetTetrahedronList();
  numbered(nl, N, "node numbers"); numbered(E, e1.size(), "edge numbers"); numbered(T, e2.size(), "triangle numbers"); numbered(Q, e3.size(), "tetrahedron numbers");
  se_assert(r->GetNumberNodes() == (size_t)N && r->GetNumberEdges() == e1.size() && r->GetNumberTriangles() == e2.size() && r->GetNumberTetrahedrons() == e3.size(), "counts");
  for (int i = 0; i < N; i++) { se_assert(std::count(nl.begin(), nl.end(), n[i]) == 1, "node numbers"); for (int j = 0; j < N; j++) if (j != i) se_assert((k[i] < k[j]) == (n[i]->GetIndex() < n[j]->GetIndex()), "nodes keep their order"); }
  auto orig = [&](const std::vector<VI> &want, auto &have, const char *w) { std::vector<VI> a, b; for (auto e : want) { for (int &i : e) i = n[i]->GetIndex(); std::sort(e.begin(), e.end()); a.push_back(e); } for (auto *e : have) b.push_back(ids(e)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); se_assert(a == b, w); };
  orig(e1, E, "edges"); orig(e2, T, "triangles"); orig(e3, Q, "tetrahedra");
  for (auto *e : E) se_assert(e->GetHead()->GetIndex() < e->GetTail()->GetIndex(), "edge runs from the lower to the higher node");
  for (int i = 0; i < N; i++) { exact(r->GetNodeToEdgeList()[i], E, {i}, "edges of a node"); if (DIM > 1) exact(r->GetNodeToTriangleList()[i], T, {i}, "triangles of a node"); if (DIM > 2) exact(r->GetNodeToTetrahedronList()[i], Q, {i}, "tetrahedra of a node"); }
  if (DIM > 1) { for (auto *e : E) exact(r->GetEdgeToTriangleList()[e->GetIndex()], T, ids(e), "triangles of an edge");
    for (auto *t : T) { auto &l = r->GetTriangleToEdgeList()[t->GetIndex()]; se_assert(l.size() == 3, "edges of a triangle"); for (int j = 0; j < 3; j++) { VI w = ids(t); w.erase(std::find(w.begin(), w.end(), (int)t->GetNodeList()[j]->GetIndex())); se_assert(l[j] && ids(l[j]) == w && l[j] == E[l[j]->GetIndex()], "edge opposite to the corner"); } } }
  if (DIM > 2) { for (auto *e : E) exact(r->GetEdgeToTetrahedronList()[e->GetIndex()], Q, ids(e), "tetrahedra of an edge"); for (auto *t : T) exact(r->GetTriangleToTetrahedronList()[t->GetIndex()], Q, ids(t), "tetrahedra of a triangle");
    for (auto *q : Q) { auto &l = r->GetTetrahedronToTriangleList()[q->GetIndex()]; se_assert(l.size() == 4, "faces of a tetrahedron"); for (int j = 0; j < 4; j++) { VI w = ids(q); w.erase(std::find(w.begin(), w.end(), (int)q->GetNodeList()[j]->GetIndex())); se_assert(l[j] && ids(l[j]) == w, "face opposite to the corner"); }
      auto &d = r->GetTetrahedronToEdgeDataList()[q->GetIndex()]; se_assert(d.size() == 6, "edges of a tetrahedron"); std::vector<const Edge *> seen;
      for (auto *x : d) { se_assert(x->edge && inc(ids(q), ids(x->edge)) && !std::count(seen.begin(), seen.end(), x->edge), "edges of a tetrahedron"); seen.push_back(x->edge); se_assert(x->triangle[0] != x->triangle[1], "faces at an edge");
        for (int s = 0; s < 2; s++) { VI w = ids(x->edge), o{(int)x->nodeopp[s]->GetIndex()}; se_assert(x->triangle_index[s] < 4 && l[x->triangle_index[s]] == x->triangle[s], "index of the face at an edge"); w.push_back(o[0]); std::sort(w.begin(), w.end()); se_assert(x->triangle[s] && ids(x->triangle[s]) == w, "node of the face opposite to the edge"); } } } }
  // lookups
  for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (a != b) { auto find = [&](auto &all, VI w) -> std::decay_t<decltype(all[0])> { std::sort(w.begin(), w.end()); for (auto *e : all) if (ids(e) == w) return e; return nullptr; };
      se_assert(r->FindEdge(nl[a], nl[b]) == find(E, {a, b}), "edge found");
      if (DIM > 1) for (int d = 0; d < N; d++) if (d != a && d != b) { se_assert(r->FindTriangle(nl[a], nl[b], nl[d]) == find(T, {a, b, d}), "triangle found");
          if (DIM > 2) for (int f = 0; f < N; f++) if (f != a && f != b && f != d) se_assert(r->FindTetrahedron(nl[a], nl[b], nl[d], nl[f]) == find(Q, {a, b, d, f}), "tetrahedron found"); } }
  // boundary elements of a contact and an interface given by their nodes
  if (DIM > 1) { static const int subs[] = {0x07, 0x0e, 0x1f, 0x15}; int s = subs[se_choose("contact", DIM == 2 ? 4 : 2) + (DIM == 2 ? 0 : ord)]; ConstNodeList cn; VI on; for (int i = 0; i < N; i++) if (s >> i & 1) cn.push_back(nl[i]), on.push_back(i);
    Contact ct("c", r, cn, "metal"); Interface f("i", r, r, cn, cn); std::vector<const Edge *> we; std::vector<const Triangle *> wt;
    if (DIM == 2) { for (auto *e : E) if (inc(on, ids(e)) && r->GetEdgeToTriangleList()[e->GetIndex()].size() == 1) we.push_back(e); }
    else { for (auto *t : T) if (inc(on, ids(t)) && r->GetTriangleToTetrahedronList()[t->GetIndex()].size() == 1) { wt.push_back(t); for (auto *e : r->GetTriangleToEdgeList()[t->GetIndex()]) we.push_back(e); } std::sort(we.begin(), we.end()); we.erase(std::unique(we.begin(), we.end()), we.end()); }
    auto same = [](auto have, auto want, const char *w) { std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); se_assert(have == want, w); };
    same(ct.GetEdges(), we, "edges of a contact"); same(f.GetEdges0(), we, "edges of an interface"); same(f.GetEdges1(), we, "edges of an interface");
    if (DIM == 3) { same(ct.GetTriangles(), wt, "triangles of a contact"); same(f.GetTriangles0(), wt, "triangles of an interface"); same(f.GetTriangles1(), wt, "triangles of an interface"); } }
  se_reach("connected");
}

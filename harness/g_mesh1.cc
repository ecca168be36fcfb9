// G01: points, tags and devices of one-dimensional meshes.
#include "mesh.h"
#include "MeshUtil.hh"
#include "Mesh1d.hh"
#include "Mesh1dStructs.hh"
static const double T = 1e-10;
static double mx(double a, double b) { return a > b ? a : b; }
// the points of one interval, p[0] = xl ... p.back() = xh
static void section(const std::vector<double> &p, double xl, double xh, double sl, double sh) {
  se_assert(p.size() >= 2, "points of an interval"); se_assert_eq(p[0], xl, "first position"); se_assert_eq(p.back(), xh, "last position");
  double lim = mx(sl, sh) + T; bool tooshort = xl + sl > xh - sh;
  for (size_t i = 1; i < p.size(); i++) { se_assert(p[i - 1] < p[i], "points strictly increase"); se_assert((p[i] - p[i - 1] <= lim) | (tooshort & (p.size() == 2)), "gap within the larger spacing"); }
}
void se_main() {
#ifdef ONE
  double xl = se_real("left"), L = se_real("length"), sl = se_real("right spacing of the left end"), sh = se_real("left spacing of the right end"), xh = xl + L;
  se_assume(xl > -100 && xl < 100); se_assume(L > 1.0 / 64 && L < 100); se_assume(sl > 1.0 / 64 && sh > 1.0 / 64 && sl < 100 && sh < 100);
  int kind = se_choose("equal spacings", 2); if (kind) sh = sl; else if (se_choose("grows", 2)) se_assume(sh > sl + T * 100); else se_assume(sl > sh + T * 100);
  se_assume(L <= PTS * sl && L <= PTS * sh);
  auto p = MeshUtil::getPoints(xl, xh, sl, sh); section(p, xl, xh, sl, sh); se_reach(kind ? "equal" : "variable");
#else
  using namespace dsMesh; Mesh1d m("m"); const int n = 3; double x[n], s[2] = {se_real("spacing"), se_real("spacing")};
  for (int i = 0; i < n; i++) { x[i] = se_real("position"); se_assume(x[i] > -100 && x[i] < 100); for (int j = 0; j < i; j++) se_assume(x[i] - x[j] > 1.0 / 64 || x[j] - x[i] > 1.0 / 64); }
  for (double v : s) se_assume(v > 1.0 / 64 && v < 100);
  int o[3] = {0, 1, 2}; std::sort(o, o + 3, [&](int a, int b) { return x[a] < x[b]; });
  for (int i = 0; i < 2; i++) se_assume(x[o[i + 1]] - x[o[i]] <= 3 * s[i]);
  const char *tag[3] = {"a", "b", "c"}; // by position
  double un = se_real("unused spacing"); se_assume(un > 1.0 / 64 && un < 100); for (int i = 0; i < 3; i++) { int k = std::find(o, o + 3, i) - o; m.AddLine(MeshLine1d(x[i], k == 2 ? un : s[k], k ? s[k - 1] : un, tag[k])); }
  int two = se_choose("regions", 2), swap = se_choose("order", 2); std::string err;
  if (two) { if (swap) { m.AddRegion(MeshRegion1d("r1", "Si", "c", "b")); m.AddRegion(MeshRegion1d("r0", "Ox", "b", "a")); } else { m.AddRegion(MeshRegion1d("r0", "Ox", "a", "b")); m.AddRegion(MeshRegion1d("r1", "Si", "b", "c")); } m.AddInterface(MeshInterface1d("i", "b")); }
  else m.AddRegion(MeshRegion1d("r0", "Ox", swap ? "c" : "a", swap ? "a" : "c"));
  m.AddContact(MeshContact1d("left", "metal", swap ? "c" : "a")); m.AddContact(MeshContact1d("right", "metal", swap ? "a" : "c"));
  bool ok = m.Finalize(err); se_assert(ok, "mesh is accepted"); auto &l = m.GetLocations();
  size_t mid = 0; for (size_t i = 0; i < l.size(); i++) if (l[i] == x[o[1]]) { mid = i; break; }
  se_assert(mid > 0 && mid + 1 < l.size(), "middle position is a point");
  section({l.begin(), l.begin() + mid + 1}, x[o[0]], x[o[1]], s[0], s[0]); section({l.begin() + mid, l.end()}, x[o[1]], x[o[2]], s[1], s[1]);
  ok = m.Instantiate("dev", err); se_assert(ok, "device is created"); Device *d = GlobalData::GetInstance().GetDevice("dev"); se_assert(d && d->GetDimension() == 1, "device is created");
  auto reg = [&](const char *nm, size_t a, size_t b, const char *mat) { Region *r = d->GetRegion(nm); se_assert(r && r->GetMaterialName() == mat, "region"); auto &nl = r->GetNodeList(); se_assert(nl.size() == b - a + 1 && r->GetEdgeList().size() == b - a, "points of a region");
    for (size_t i = 0; i < nl.size(); i++) se_assert_eq(nl[i]->Position().Getx(), l[a + i], "points of a region"); for (size_t i = 0; i < b - a; i++) { auto *e = r->GetEdgeList()[i]; se_assert(e->GetHead() == nl[i] && e->GetTail() == nl[i + 1], "edges join neighbours"); } return r; };
  Region *r0 = reg("r0", 0, two ? mid : l.size() - 1, "Ox"), *r1 = two ? reg("r1", mid, l.size() - 1, "Si") : r0; se_assert(d->GetRegionList().size() == (two ? 2u : 1u), "regions");
  Contact *c0 = d->GetContact(swap ? "right" : "left"), *c1 = d->GetContact(swap ? "left" : "right"); se_assert(c0 && c1 && c0->GetRegion() == r0 && c1->GetRegion() == r1 && c0->GetNodes().size() == 1 && c1->GetNodes().size() == 1 && c0->GetNodes()[0] == r0->GetNodeList()[0] && c1->GetNodes()[0] == r1->GetNodeList().back(), "contacts at the ends");
  if (two) { Interface *f = d->GetInterface("i"); se_assert(f && f->GetRegion0() == r0 && f->GetRegion1() == r1 && f->GetNodes0().size() == 1 && f->GetNodes1().size() == 1 && f->GetNodes0()[0] == r0->GetNodeList().back() && f->GetNodes1()[0] == r1->GetNodeList()[0], "interface between the regions"); }
  else se_assert(d->GetInterfaceList().empty(), "no interface");
  se_reach(two ? "two" : "single");
#endif
}

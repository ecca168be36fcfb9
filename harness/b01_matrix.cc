// B01/B02: compressed matrices against a dense sum, for every bounded operation sequence.
#include "se.h"
#include "CompressedMatrix.hh"
#include <cstdlib>
#include <algorithm>
using namespace dsMath;
#ifndef NN
#define NN 2
#endif
#ifndef LL
#define LL 4
#endif
static double R[NN][NN], I[NN][NN];
typedef CompressedMatrix<double> CM;
static void check(CM &m, bool cplx, bool ccm) {
  const auto &ap = m.GetAp(); const auto &ai = m.GetAi();
  const auto &cols = m.GetCols(); const auto &rows = m.GetRows();
  se_assert(ap.size() == NN + 1, "pointer list length");
  if (ap.size() != NN + 1) se_stop();
  se_assert(ap[0] == 0 && (size_t)ap[NN] == ai.size(), "pointer list ends");
  se_assert(m.GetReal().size() == ai.size() && (!cplx || m.GetImag().size() == ai.size()), "value list length");
  double D[NN][NN] = {}, E[NN][NN] = {}; bool ok = true;
  for (int c = 0; c < NN; c++) {
    if (ap[c] > ap[c + 1]) ok = false;
    for (int i = ap[c]; i < ap[c + 1]; i++) {
      if (i < 0 || i >= (int)ai.size() || ai[i] < 0 || ai[i] >= NN) { ok = false; continue; }
      if (i > ap[c] && ai[i - 1] >= ai[i]) ok = false;
      int row = ccm ? ai[i] : c, col = ccm ? c : ai[i];
      D[row][col] = D[row][col] + m.GetReal()[i]; if (cplx) E[row][col] = E[row][col] + m.GetImag()[i]; } }
  se_assert(ok, "indices sorted, in range, no duplicates");
  se_assert((ccm ? &cols : &rows) == &ap && (ccm ? &rows : &cols) == &ai, "GetCols/GetRows");
  for (int r = 0; r < NN; r++) for (int c = 0; c < NN; c++) {
    se_assert_eq(D[r][c], R[r][c], "real entry equals the sum added since the last clear");
    if (cplx) se_assert_eq(E[r][c], I[r][c], "imaginary entry equals the sum added since the last clear"); }
}
static void mult(CM &m, bool cplx) {
  std::vector<double> x(NN), y; for (auto &v : x) v = se_real("x");
  m.Multiply(x, y); se_assert(y.size() == NN, "product length");
  for (int r = 0; r < NN; r++) { double s = 0; for (int c = 0; c < NN; c++) s += R[r][c] * x[c]; se_assert_eqs(y[r], s, 1, "A x"); }
  std::vector<double> yo = m * x; for (int r = 0; r < NN; r++) se_assert_eqs(yo[r], y[r], 1, "operator*");
  std::vector<double> yt(1, 5.0); m.TransposeMultiply(x, yt); se_assert(yt.size() == NN, "product length");
  for (int r = 0; r < NN; r++) { double s = 0; for (int c = 0; c < NN; c++) s += R[c][r] * x[c]; se_assert_eqs(yt[r], s, 1, "A^T x"); }
  if (cplx) {
    std::vector<std::complex<double>> z(NN), w; for (auto &v : z) { double a = se_real("zr"), b = se_real("zi"); v = std::complex<double>(a, b); }
    m.Multiply(z, w);
    for (int r = 0; r < NN; r++) { double sr = 0, si = 0; for (int c = 0; c < NN; c++) { sr += R[r][c] * z[c].real() - I[r][c] * z[c].imag(); si += R[r][c] * z[c].imag() + I[r][c] * z[c].real(); }
      se_assert_eqs(w[r].real(), sr, 1, "complex A x, real part"); se_assert_eqs(w[r].imag(), si, 1, "complex A x, imaginary part"); }
    m.TransposeMultiply(z, w);
    for (int r = 0; r < NN; r++) { double sr = 0, si = 0; for (int c = 0; c < NN; c++) { sr += R[c][r] * z[c].real() - I[c][r] * z[c].imag(); si += R[c][r] * z[c].imag() + I[c][r] * z[c].real(); }
      se_assert_eqs(w[r].real(), sr, 1, "complex A^T x, real part"); se_assert_eqs(w[r].imag(), si, 1, "complex A^T x, imaginary part"); }
  }
}
void se_main() {
  bool cplx = se_choose("complex", 2), ccm = se_choose("ccm", 2);
#ifdef MULT
#if NN > 2
  if (cplx) se_stop();
#endif
  CM m(NN, cplx ? MatrixType::COMPLEX : MatrixType::REAL, ccm ? CompressionType::CCM : CompressionType::CRM);
  int kind[NN][NN];
  for (int pass = 0; pass < (NN > 2 ? 1 : 2); pass++) { // the second pass refills the frozen pattern
    for (int r = 0; r < NN; r++) for (int c = 0; c < NN; c++) {
      int &k = kind[r][c]; if (!pass) k = se_choose("kind", cplx ? 4 : 2); R[r][c] = I[r][c] = 0;
      if (k == 1) { double v = se_real("a"); se_assume(v != 0); R[r][c] = v; m.AddEntry(r, c, v); }
      if (k == 2) { double v = se_real("a"), w = se_real("b"); se_assume(v != 0); se_assume(w != 0); R[r][c] = v; I[r][c] = w; m.AddEntry(r, c, std::complex<double>(v, w)); }
      if (k == 3) { double w = se_real("b"); se_assume(w != 0); I[r][c] = w; m.AddImagEntry(r, c, w); } }
    m.Finalize(); check(m, cplx, ccm); mult(m, cplx); if (!pass) m.ClearMatrix(); }
  se_reach("products compared");
#else
  CM m(NN, cplx ? MatrixType::COMPLEX : MatrixType::REAL, ccm ? CompressionType::CCM : CompressionType::CRM);
  int L = LL;
  for (int i = 0; i < L; i++) {
    int op = i == 0 ? (cplx ? 3 * se_choose("first", 2) : 0) : se_choose("op", cplx ? 4 : 3);
    if (op == 0 || op == 3) {
      int r = se_choose("row", NN), c = se_choose("col", NN); double v = se_real("v");
      if (i != 1) se_assume(v != 0);   // one addition per history may be exactly zero
      if (op == 0) { m.AddEntry(r, c, v); R[r][c] += v; } else if (se_choose("via", 2)) { m.AddImagEntry(r, c, v); I[r][c] += v; } else { m.AddEntry(r, c, std::complex<double>(0.0, v)); I[r][c] += v; } }
    else if (op == 1) { m.Finalize(); check(m, cplx, ccm); }
    else { m.ClearMatrix(); for (auto &a : R) for (auto &b : a) b = 0; for (auto &a : I) for (auto &b : a) b = 0; } }
  m.Finalize(); check(m, cplx, ccm);
  bool again = se_choose("again", 2);
  if (again) { // frozen pattern: refill, and one entry that may be new
    m.ClearMatrix(); for (auto &a : R) for (auto &b : a) b = 0; for (auto &a : I) for (auto &b : a) b = 0;
    int r = se_choose("row", NN), c = se_choose("col", NN); double v = se_real("v"); se_assume(v != 0); m.AddEntry(r, c, v); R[r][c] += v; m.Finalize(); check(m, cplx, ccm);
    se_reach("refilled after clear"); }
  se_reach("sequence finished");
#endif
}

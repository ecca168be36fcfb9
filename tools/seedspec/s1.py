import sys; sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif")
import checks
MAT = ["output_stub.cc", "objholder_stub.cc", "utility/dsException.cc", "utility/dsAssert.cc", "math/CompressedMatrix.cc", "math/Matrix.cc"]
MESH = checks.MESH + checks.GEOM
HD = r'''#include <cstdio>
#include <cmath>
static int bad; static void eq(double a, double b, const char *l) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) { printf("%s: %.12g != %.12g\n", l, a, b); bad = 1; } }
'''
SEEDS = [
 dict(id="b01_decompress_imag", prop="B01", needs="a complex matrix holding an entry with zero real part is finalized and then gets an entry at a new position", breaks="purely imaginary entries vanish when the pattern changes after compression",
  edits=[("src/math/CompressedMatrix.cc", "        if (z != DTZERO)", "        if (z != DTZERO && Ax_[j] != DTZERO)")], srcs=MAT,
  demo=HD + r'''#include "CompressedMatrix.hh"
using namespace dsMath;
int main() { CompressedMatrix<double> m(3, MatrixType::COMPLEX, CompressionType::CCM); m.AddEntry(0, 0, 1.0); m.AddImagEntry(1, 1, 2.0); m.Finalize(); m.AddEntry(2, 0, 5.0); m.Finalize();
 std::vector<std::complex<double>> x{{1, 0}, {1, 0}, {1, 0}}, y; m.Multiply(x, y); eq(y[1].imag(), 2, "imaginary entry"); eq(y[2].real(), 5, "new entry"); eq(y[0].real(), 1, "old entry"); return bad; }'''),
 dict(id="b02_complex_cache", prop="B02", needs="a complex matrix is multiplied, cleared, refilled with other values in the same pattern and multiplied again", breaks="the complex value list keeps the old real parts, so products use stale values",
  edits=[("src/math/CompressedMatrix.cc", "  Axz_.resize(len);\n\n  for (size_t i = 0; i < len; ++i)\n  {\n    Axz_[i].real(Ax_[i]);\n  }", "  if (Axz_.size() != len)\n  {\n    Axz_.resize(len);\n\n    for (size_t i = 0; i < len; ++i)\n    {\n      Axz_[i].real(Ax_[i]);\n    }\n  }")], srcs=MAT,
  demo=HD + r'''#include "CompressedMatrix.hh"
using namespace dsMath;
int main() { CompressedMatrix<double> m(2, MatrixType::COMPLEX, CompressionType::CCM); std::vector<std::complex<double>> x{{1, 0}, {0, 1}}, y; 
 for (int k = 1; k < 3; k++) { m.ClearMatrix(); m.AddEntry(0, 0, 1.0 * k); m.AddEntry(1, 1, std::complex<double>(2.0 * k, 3)); m.Finalize(); m.Multiply(x, y); eq(y[0].real(), k, "real"); eq(y[1].imag(), 2.0 * k, "imag"); eq(y[1].real(), -3, "cross"); } return bad; }'''),
 dict(id="b02_transpose_rect", prop="B02", needs="a transposed product with a column of the matrix that holds more than one entry below the diagonal", breaks="row oriented product skips entries after the diagonal in rows longer than two",
  edits=[("src/math/CompressedMatrix.cc", "    for (size_t cit = cl; cit < ch; ++cit)\n    {\n      const size_t c  = cols[cit];", "    for (size_t cit = cl; cit < ch; ++cit)\n    {\n      const size_t c  = cols[(cit > cl + 1) && (cols[cit - 1] == static_cast<int>(r)) ? cit - 1 : cit];")], srcs=MAT,
  demo=HD + r'''#include "CompressedMatrix.hh"
using namespace dsMath;
int main() { for (int t = 0; t < 2; t++) { CompressedMatrix<double> m(3, MatrixType::REAL, t ? CompressionType::CRM : CompressionType::CCM); double a[3][3] = {{1, 2, 0}, {3, 4, 5}, {0, 6, 7}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.AddEntry(i, j, a[i][j]); m.Finalize();
 std::vector<double> x{1, 2, 3}, y; m.Multiply(x, y); for (int i = 0; i < 3; i++) eq(y[i], a[i][0] + 2 * a[i][1] + 3 * a[i][2], "product"); m.TransposeMultiply(x, y); for (int i = 0; i < 3; i++) eq(y[i], a[0][i] + 2 * a[1][i] + 3 * a[2][i], "transposed product"); } return bad; }'''),
]

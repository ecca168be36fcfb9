// Stand-in for LAPACK dgetrf/dgetrs (Fortran, cannot be encoded): any correct linear solver. getrf keeps the matrix, getrs
// solves by Cramer's rule (n <= 3) or elimination without pivoting, assuming a non-singular matrix.
#include "se.h"
#include <vector>
#ifdef DEVSIM_EXTENDED_PRECISION
#include "Float128.hh"
#endif
int se_lapack_singular = 0; // a harness may make the factorisation report failure
int se_lapack_check = 0; // a harness may ask for singular matrices to be reported instead of assumed away
namespace {
template <typename T> int singular(int n, const T *a) {
  if (!se_lapack_check) return se_lapack_singular; T d;
#define B(i, j) a[(i) + (j)*n]
  if (n == 1) d = a[0]; else if (n == 2) d = B(0, 0) * B(1, 1) - B(0, 1) * B(1, 0); else d = B(0, 0) * (B(1, 1) * B(2, 2) - B(1, 2) * B(2, 1)) - B(0, 1) * (B(1, 0) * B(2, 2) - B(1, 2) * B(2, 0)) + B(0, 2) * (B(1, 0) * B(2, 1) - B(1, 1) * B(2, 0));
#undef B
  return d == T(0) ? n : 0; }
template <typename T> void solve(char tr, int n, const T *a0, int lda, T *b) {
  std::vector<T> a(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i + j * n] = tr == 'N' ? a0[i + j * lda] : a0[j + i * lda];
#define A(i, j) a[(i) + (j)*n]
  if (n == 1) { se_nz((double)A(0, 0)); b[0] = b[0] / A(0, 0); return; }
  if (n == 2) { T d = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0); se_nz((double)d); T x = (b[0] * A(1, 1) - A(0, 1) * b[1]) / d, y = (A(0, 0) * b[1] - b[0] * A(1, 0)) / d; b[0] = x; b[1] = y; return; }
  if (n == 3) {
    auto det = [](const T &a, const T &b, const T &c, const T &d, const T &e, const T &f, const T &g, const T &h, const T &i) { return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g); };
    T d = det(A(0, 0), A(0, 1), A(0, 2), A(1, 0), A(1, 1), A(1, 2), A(2, 0), A(2, 1), A(2, 2)); se_nz((double)d); T inv = T(1) / d;
    T x = det(b[0], A(0, 1), A(0, 2), b[1], A(1, 1), A(1, 2), b[2], A(2, 1), A(2, 2)) * inv, y = det(A(0, 0), b[0], A(0, 2), A(1, 0), b[1], A(1, 2), A(2, 0), b[2], A(2, 2)) * inv,
      z = det(A(0, 0), A(0, 1), b[0], A(1, 0), A(1, 1), b[1], A(2, 0), A(2, 1), b[2]) * inv;
    b[0] = x; b[1] = y; b[2] = z; return; }
  for (int k = 0; k < n; k++) { se_nz((double)A(k, k)); for (int i = k + 1; i < n; i++) { T f = A(i, k) / A(k, k); for (int j = k; j < n; j++) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } }
  for (int k = n; k-- > 0;) { for (int j = k + 1; j < n; j++) b[k] -= A(k, j) * b[j]; b[k] = b[k] / A(k, k); }
#undef A
}
}
void getrf(int *, int *n, double *a, int *, int *ipiv, int *info) { for (int i = 0; i < *n; i++) ipiv[i] = i + 1; *info = singular(*n, a); }
void getrs(char *t, int *n, int *nrhs, double *a, int *lda, int *, double *b, int *ldb, int *info) { for (int k = 0; k < *nrhs; k++) solve(*t, *n, a, *lda, b + k * *ldb); *info = 0; }
#ifdef DEVSIM_EXTENDED_PRECISION
extern "C" {
void quad_dgetrf_(int *, int *n, float128 *a, int *, int *ipiv, int *info) { for (int i = 0; i < *n; i++) ipiv[i] = i + 1; *info = singular(*n, a); }
void quad_dgetrs_(char *t, int *n, int *nrhs, float128 *a, int *lda, int *, float128 *b, int *ldb, int *info) { for (int k = 0; k < *nrhs; k++) solve(*t, *n, a, *lda, b + k * *ldb); *info = 0; }
}
#endif

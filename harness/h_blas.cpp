#include "vp.h"
#include <cmath>
#include <vector>
// --- the linear-algebra library, by definition (column major; only what is stored in the named half is read)
bool may_fail = false;
static bool pivot_ok(double p) { if (may_fail) return p > 0; vp_true("positive-definite", 0, p > 1e-9); return true; }
static double& at(double* a, int ld, bool up, int i, int j) { return (up ? i <= j : i >= j) ? a[i + (long)j*ld] : a[j + (long)i*ld]; }
extern "C" {
void dpotrf_(char* u, int* n, double* a, int* ld, int* info) { bool up = *u == 'U'; *info = 0; for (int j = 0; j < *n; ++j) { double p = at(a, *ld, up, j, j); for (int k = 0; k < j; ++k) { double l = up ? a[k + (long)j**ld] : a[j + (long)k**ld]; p -= l*l; } if (!pivot_ok(p)) { *info = j + 1; return; } double d = std::sqrt(p); at(a, *ld, up, j, j) = d; for (int i = j + 1; i < *n; ++i) { double s = at(a, *ld, up, i, j); for (int k = 0; k < j; ++k) s -= (up ? a[k + (long)i**ld]*a[k + (long)j**ld] : a[i + (long)k**ld]*a[j + (long)k**ld]); at(a, *ld, up, i, j) = s/d; } } }
static void chol_solve(bool up, int n, const double* a, int ld, double* b) { for (int i = 0; i < n; ++i) { double s = b[i]; for (int k = 0; k < i; ++k) s -= (up ? a[k + (long)i*ld] : a[i + (long)k*ld])*b[k]; b[i] = s/a[i + (long)i*ld]; } for (int i = n - 1; i >= 0; --i) { double s = b[i]; for (int k = i + 1; k < n; ++k) s -= (up ? a[i + (long)k*ld] : a[k + (long)i*ld])*b[k]; b[i] = s/a[i + (long)i*ld]; } }
void dpotri_(char* u, int* n, double* a, int* ld, int* info) { bool up = *u == 'U'; *info = 0; int m = *n; std::vector<double> r(m*m, 0.0); for (int j = 0; j < m; ++j) { r[j + m*j] = 1; chol_solve(up, m, a, *ld, &r[m*j]); } for (int j = 0; j < m; ++j) for (int i = 0; i <= j; ++i) at(a, *ld, up, i, j) = r[i + m*j]; }
void dposv_(char* u, int* n, int* nrhs, double* a, int* lda, double* b, int* ldb, int* info) { dpotrf_(u, n, a, lda, info); if (*info) return; for (int r = 0; r < *nrhs; ++r) chol_solve(*u == 'U', *n, a, *lda, b + (long)r**ldb); }
void dsyev_(char* jobz, char* u, int* n, double* a, int* ld, double* w, double* work, int* lwork, int* info) { *info = 0; int m = *n; if (*lwork == -1) { work[0] = 3*m; return; } bool up = *u == 'U'; std::vector<double> s(m*m), v(m*m, 0.0); for (int i = 0; i < m; ++i) { v[i + m*i] = 1; for (int j = 0; j < m; ++j) s[i + m*j] = at(a, *ld, up, i, j); } for (int sweep = 0; sweep < 30; ++sweep) for (int p = 0; p < m; ++p) for (int q = p + 1; q < m; ++q) { if (std::fabs(s[p + m*q]) < 1e-300) continue; double t = (s[q + m*q] - s[p + m*p])/(2*s[p + m*q]); t = (t >= 0 ? 1 : -1)/(std::fabs(t) + std::sqrt(t*t + 1)); double c = 1/std::sqrt(t*t + 1), z = t*c; for (int k = 0; k < m; ++k) { double x = s[k + m*p], y = s[k + m*q]; s[k + m*p] = c*x - z*y; s[k + m*q] = z*x + c*y; } for (int k = 0; k < m; ++k) { double x = s[p + m*k], y = s[q + m*k]; s[p + m*k] = c*x - z*y; s[q + m*k] = z*x + c*y; } for (int k = 0; k < m; ++k) { double x = v[k + m*p], y = v[k + m*q]; v[k + m*p] = c*x - z*y; v[k + m*q] = z*x + c*y; } }
  for (int i = 0; i < m; ++i) { w[i] = s[i + m*i]; for (int k = 0; k < m; ++k) a[k + (long)i**ld] = v[k + m*i]; } (void)jobz; }
void dtrtrs_(char* u, char* t, char* diag, int* n, int* nrhs, const double* a, int* ld, double* b, int* ldb, int* info) { *info = 0; bool up = (*u == 'U') != (*t != 'N'); auto e = [&](int i, int j) { return *t == 'N' ? a[i + (long)j**ld] : a[j + (long)i**ld]; }; bool unit = *diag == 'U'; for (int r = 0; r < *nrhs; ++r) { double* x = b + (long)r**ldb; for (int k = 0; k < *n; ++k) { int i = up ? *n - 1 - k : k; double s = x[i]; for (int q = up ? i + 1 : 0; q < (up ? *n : i); ++q) s -= e(i, q)*x[q]; x[i] = unit ? s : s/e(i, i); } } }
double cblas_ddot(int n, const double* x, int ix, const double* y, int iy) { double s = 0; for (int i = 0; i < n; ++i) s += x[(long)i*ix]*y[(long)i*iy]; return s; }
void cblas_dcopy(int n, const double* x, int ix, double* y, int iy) { for (int i = 0; i < n; ++i) y[(long)i*iy] = x[(long)i*ix]; }
void cblas_dscal(int n, double a, double* x, int ix) { for (int i = 0; i < n; ++i) x[(long)i*ix] *= a; }
void cblas_daxpy(int n, double a, const double* x, int ix, double* y, int iy) { for (int i = 0; i < n; ++i) y[(long)i*iy] += a*x[(long)i*ix]; }
void cblas_dsymv(int order, int uplo, int n, double al, const double* a, int ld, const double* x, int ix, double be, double* y, int iy) { bool up = (uplo == 121) == (order == 102); for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += at(const_cast<double*>(a), ld, up, i, j)*x[(long)j*ix]; y[(long)i*iy] = al*s + (be == 0 ? 0 : be*y[(long)i*iy]); } }
void cblas_dgemv(int order, int tr, int m, int n, double al, const double* a, int ld, const double* x, int ix, double be, double* y, int iy) { bool t = (tr != 111); int rows = t ? n : m, cols = t ? m : n; for (int i = 0; i < rows; ++i) { double s = 0; for (int j = 0; j < cols; ++j) { int p = t ? j : i, q = t ? i : j; s += (order == 102 ? a[p + (long)q*ld] : a[q + (long)p*ld])*x[(long)j*ix]; } y[(long)i*iy] = al*s + (be == 0 ? 0 : be*y[(long)i*iy]); } }
void cblas_dtrmv(int order, int uplo, int tr, int diag, int n, const double* a, int ld, double* x, int ix) { std::vector<double> r(n, 0.0); bool up = (uplo == 121); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int p = tr == 111 ? i : j, q = tr == 111 ? j : i; if (up ? p > q : p < q) continue; r[i] += (p == q && diag == 132 ? 1.0 : order == 102 ? a[p + (long)q*ld] : a[q + (long)p*ld])*x[(long)j*ix]; } for (int i = 0; i < n; ++i) x[(long)i*ix] = r[i]; }
void cblas_dgemm(int order, int ta, int tb, int m, int n, int k, double al, const double* a, int lda, const double* b, int ldb, double be, double* c, int ldc) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int q = 0; q < k; ++q) { int ar = ta == 111 ? i : q, ac = ta == 111 ? q : i, br = tb == 111 ? q : j, bc = tb == 111 ? j : q; s += (order == 102 ? a[ar + (long)ac*lda] : a[ac + (long)ar*lda])*(order == 102 ? b[br + (long)bc*ldb] : b[bc + (long)br*ldb]); } double* d = order == 102 ? &c[i + (long)j*ldc] : &c[j + (long)i*ldc]; *d = al*s + (be == 0 ? 0 : be**d); } }
void cblas_dsymm(int order, int side, int uplo, int m, int n, double al, const double* a, int lda, const double* b, int ldb, double be, double* c, int ldc) { bool up = (uplo == 121) == (order == 102); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int q = 0; q < (side == 141 ? m : n); ++q) s += at(const_cast<double*>(a), lda, up, side == 141 ? i : q, side == 141 ? q : j)*(side == 141 ? (order == 102 ? b[q + (long)j*ldb] : b[j + (long)q*ldb]) : (order == 102 ? b[i + (long)q*ldb] : b[q + (long)i*ldb])); double* d = order == 102 ? &c[i + (long)j*ldc] : &c[j + (long)i*ldc]; *d = al*s + (be == 0 ? 0 : be**d); } }
}

// Covariance grids and favourable transform sizes.
#include "spec.h"
#include <exception>
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
#include "nrlib/fft/fft.hpp"
using namespace NRLib;
#define R(n) vp_wide(n, 0.5, 50)
#define ANG(n) vp_real(n, -3.5, 3.5)
static double g_p, g_rx, g_ry, g_rz, g_az, g_dip, g_sd;
static Variogram* mksym(int t) { g_p = vp_real("power", 0.1, 2); g_rx = R("rx"); g_ry = R("ry"); g_rz = R("rz"); g_az = ANG("az"); g_dip = ANG("dip"); g_sd = vp_real("sd", 0.1, 10);
  return Variogram::Create(static_cast<Variogram::Type>(t), g_p, g_rx, g_ry, g_rz, g_az, g_dip, g_sd); }
static double mx3(double a, double b, double c) { a = std::fabs(a); b = std::fabs(b); c = std::fabs(c); double m = a < b ? b : a; return m < c ? c : m; }
static double axis_range(int k) {
  double ca = std::cos(g_az), sa = std::sin(g_az), cd = std::cos(g_dip), sd = std::sin(g_dip);
  if (k == 0) return mx3(g_rx*cd*ca, g_ry*sa, g_rz*sd*ca);
  if (k == 1) return mx3(g_rx*cd*sa, g_ry*ca, g_rz*sd*sa);
  return mx3(g_rx*sd, 0.0, g_rz*cd);
}
static double lag(int i, int n, double d, int alt) { if (2*i < n || (2*i == n && !alt)) return i*d; return (i - n)*d; }
static double factor(double s, double d, int k) { if (s >= 0.99999) return 1.0; double r = axis_range(k); return std::pow(s, d*d/(r*r)); }
static double want(int t, int i, int nx, double dx, double sx, int j, int ny, double dy, double sy, int k, int nz, double dz, double sz, int a, int b, int c) {
  double x = lag(i, nx, dx, a), y = lag(j, ny, dy, b), z = lag(k, nz, dz, c);
  return g_sd*g_sd*spec_corr3(t, x, y, z, g_rx, g_ry, g_rz, g_az, g_dip, g_p)*factor(sx, x, 0)*factor(sy, y, 1)*factor(sz, z, 2);
}
static int close(double a, double b) { double d = a - b; return std::fabs(d) <= 1e-8*(1.0 + std::fabs(b)); }
static void cell(long idx, double got, int t, int i, int nx, double dx, double sx, int j, int ny, double dy, double sy, int k, int nz, double dz, double sz) {
  int hx = (2*i == nx && i > 0), hy = (2*j == ny && j > 0), hz = (2*k == nz && k > 0);
  if (hx + hy + hz == 0) { vp_eq_f64("wrapped-covariance", idx, got, want(t, i, nx, dx, sx, j, ny, dy, sy, k, nz, dz, sz, 0, 0, 0)); return; }
  int ok = 0;       // the lag of half the period may be taken with either sign
  for (int a = 0; a <= hx; ++a) for (int b = 0; b <= hy; ++b) for (int c = 0; c <= hz; ++c) ok |= close(got, want(t, i, nx, dx, sx, j, ny, dy, sy, k, nz, dz, sz, a, b, c));
  vp_true("wrapped-covariance-half-period", idx, ok);
}
#define STEP(n) vp_wide(n, 0.25, 4)
#define G1(ID, T, N, SX) ENTRY(cg1_##ID##_##T##_##N) { Variogram* v = mksym(T); double dx = STEP("dx"), sx = SX; FFTCovGrid1D g(*v, N, dx, sx); std::vector<double> c = g.GetCov(); vp_eq_i64("covariance-grid-size", 0, c.size(), N); \
  for (int i = 0; i < N; ++i) cell(i, c[i], T, i, N, dx, sx, 0, 1, 1.0, 1.0, 0, 1, 1.0, 1.0); delete v; }
#define G2(ID, T, N, M, SX, SY) ENTRY(cg2_##ID##_##T##_##N##_##M) { Variogram* v = mksym(T); double dx = STEP("dx"), dy = STEP("dy"), sx = SX, sy = SY; FFTCovGrid2D g(*v, N, dx, M, dy, sx, sy); Grid2D<double> c = g.GetCov(); vp_eq_i64("covariance-grid-size", 0, c.GetNI(), N); vp_eq_i64("covariance-grid-size", 1, c.GetNJ(), M); \
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) cell(i + N*j, c(i, j), T, i, N, dx, sx, j, M, dy, sy, 0, 1, 1.0, 1.0); delete v; }
#define G3(ID, T, N, M, L, SX, SY, SZ) ENTRY(cg3_##ID##_##T##_##N##_##M##_##L) { Variogram* v = mksym(T); double dx = STEP("dx"), dy = STEP("dy"), dz = STEP("dz"), sx = SX, sy = SY, sz = SZ; FFTCovGrid3D g(*v, N, dx, M, dy, L, dz, sx, sy, sz); Grid<double> c = g.GetCov(); \
  vp_eq_i64("covariance-grid-size", 0, c.GetNI(), N); vp_eq_i64("covariance-grid-size", 1, c.GetNJ(), M); vp_eq_i64("covariance-grid-size", 2, c.GetNK(), L); \
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) cell(i + N*(j + M*k), c(i, j, k), T, i, N, dx, sx, j, M, dy, sy, k, L, dz, sz); delete v; }
#define SM(n) vp_real(n, 0.01, 0.999)
G1(plain, 1, 7, 1.0) G1(plain, 3, 8, 1.0) G1(smooth, 1, 6, SM("sx")) G1(over, 2, 5, vp_real("sx", 1.0, 3.0)) G1(one, 4, 1, 1.0) G1(two, 5, 2, SM("sx")) G1(plain, 6, 3, 1.0) G1(plain, 7, 12, 1.0) G1(plain, 0, 5, 1.0)
G2(plain, 1, 4, 3, 1.0, 1.0) G2(plain, 3, 5, 6, 1.0, 1.0) G2(smooth, 1, 4, 5, SM("sx"), SM("sy")) G2(smx, 5, 3, 4, SM("sx"), 1.0) G2(smy, 4, 4, 3, 1.0, SM("sy")) G2(over, 2, 3, 3, vp_real("sx", 1.0, 3.0), vp_real("sy", 1.0, 3.0)) G2(thin, 6, 1, 4, 1.0, 1.0) G2(thin, 7, 5, 1, SM("sx"), SM("sy"))
G3(plain, 1, 3, 4, 2, 1.0, 1.0, 1.0) G3(plain, 3, 4, 3, 5, 1.0, 1.0, 1.0) G3(smooth, 1, 3, 4, 3, SM("sx"), SM("sy"), SM("sz")) G3(smx, 5, 3, 2, 2, SM("sx"), 1.0, 1.0) G3(smy, 6, 2, 3, 2, 1.0, SM("sy"), 1.0) G3(smz, 4, 2, 2, 3, 1.0, 1.0, SM("sz")) G3(over, 2, 3, 2, 3, 1.0, vp_real("sy", 1.0, 3.0), vp_real("sz", 1.0, 3.0)) G3(thin, 7, 1, 1, 4, 1.0, SM("sy"), 1.0)
// long axes
G1(long, 1, 300, SM("sx")) G2(long, 3, 70, 3, SM("sx"), SM("sy")) G2(long, 1, 3, 70, 1.0, SM("sy")) G3(long, 1, 67, 2, 3, SM("sx"), 1.0, 1.0) G3(long, 3, 2, 67, 3, 1.0, 1.0, SM("sz")) G3(long, 2, 3, 2, 67, 1.0, SM("sy"), 1.0)
// default smoothing is none
ENTRY(cgd_1) { Variogram* v = mksym(1); double dx = STEP("dx"); std::vector<double> c = FFTCovGrid1D(*v, 5, dx).GetCov(); for (int i = 0; i < 5; ++i) cell(i, c[i], 1, i, 5, dx, 1.0, 0, 1, 1.0, 1.0, 0, 1, 1.0, 1.0); delete v; }
// plain correlation table
#define CG2(T, N, M) ENTRY(ctab_##T##_##N##_##M) { Variogram* v = mksym(T); double dx = STEP("dx"), dy = STEP("dy"); CovGrid2D g(*v, N, M, dx, dy); double rx = 0, ry = 0; \
  for (int i = 1 - N; i < N; ++i) for (int j = 1 - M; j < M; ++j) { float w = static_cast<float>(spec_corr3(T, i*dx, j*dy, 0.0, g_rx, g_ry, g_rz, g_az, g_dip, g_p)); vp_eq_f32("correlation-table", (i + N)*100 + j + M, g.GetCov(i, j), w); } \
  for (int i = 0; i < N; ++i) for (int j = 1 - M; j < M; ++j) vp_eq_f32("table-even-in-the-lag", i*100 + j + M, g.GetCov(i, j), g.GetCov(-i, -j)); \
  delete v; }
CG2(1, 2, 3) CG2(3, 3, 2) CG2(2, 4, 1) CG2(5, 1, 4) CG2(1, 35, 2) CG2(3, 2, 35)

// ------------------------------------------------ favourable sizes
static int smooth7(size_t n) { while (n % 2 == 0) n /= 2; while (n % 3 == 0) n /= 3; while (n % 5 == 0) n /= 5; while (n % 7 == 0) n /= 7; return n == 1; }
static size_t spec_size(size_t n, bool even) { while (!smooth7(n) || (even && n % 2)) ++n; return n; }
template<int A, int B> static void range_sizes() { for (int n = A; n < B; ++n) { vp_eq_i64("smallest-favourable-size", n, FindNewSizeWithPadding(n), spec_size(n, false)); if (n > 1) vp_eq_i64("smallest-favourable-even-size", n, FindNewSizeWithPadding(n, true), spec_size(n, true)); } }
ENTRY(size_0) { range_sizes<1, 40>(); }
ENTRY(size_1) { range_sizes<40, 70>(); }
ENTRY(size_2) { range_sizes<70, 100>(); }
ENTRY(size_3) { range_sizes<100, 130>(); }
ENTRY(sizeone) { size_t n = FindNewSizeWithPadding(1, true); vp_true("never-smaller-than-requested", 1, n >= 1 && n <= 2); }
#define BIG(N, W) ENTRY(sizebig_##N) { size_t r = FindNewSizeWithPadding(N##ul); vp_true("never-smaller-than-requested", N, r >= N##ul); vp_eq_i64("smallest-favourable-size", N, r, W##ul); }
BIG(211, 216) BIG(257, 270) BIG(342, 343) BIG(343, 343) BIG(487, 490) BIG(625, 625) BIG(626, 630) BIG(729, 729) BIG(1000, 1000) BIG(1023, 1024) BIG(1025, 1029) BIG(1201, 1215) BIG(2187, 2187) BIG(2188, 2205) BIG(2401, 2401) BIG(2402, 2430) BIG(3125, 3125) BIG(3126, 3136) BIG(4097, 4116) BIG(6561, 6561) BIG(15625, 15625) BIG(16385, 16464) BIG(16807, 16807) BIG(19683, 19683) BIG(16777217, 16796160) BIG(33554434, 33592320)
#define BIGE(N, W) ENTRY(sizeeven_##N) { size_t r = FindNewSizeWithPadding(N##ul, true); vp_true("never-smaller-than-requested", N, r >= N##ul); vp_eq_i64("smallest-favourable-even-size", N, r, W##ul); }
BIGE(175, 180) BIGE(211, 216) BIGE(343, 350) BIGE(625, 630) BIGE(729, 750) BIGE(1025, 1050) BIGE(1201, 1250) BIGE(2187, 2240) BIGE(2401, 2430) BIGE(3125, 3136) BIGE(4374, 4374) BIGE(4802, 4802) BIGE(6250, 6250) BIGE(6561, 6720) BIGE(13122, 13122) BIGE(33554434, 33592320)

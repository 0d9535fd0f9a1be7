// Discrete transforms and the padded transform grids.
#include "vp.h"
#include <cmath>
#include <complex>
#include <list>
#include <vector>
#include "nrlib/fft/fft.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
using namespace NRLib;
typedef std::complex<double> C;
static const double PI2 = 6.283185307179586476925;
static double X(int i, int j, int k) { return vp_fn3("x", i, j, k); }
static double F(int i, int j, int k) { return vp_fn3("f", i, j, k); }
static void eq(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
static void eq(const char* w, long i, float a, double b) { vp_eq_f32(w, i, a, static_cast<float>(b)); }
static int wr(int i, int n) { return ((i % n) + n) % n; }

// ---- 2D
template<class T, int N, int M, int P, int Q, bool SC> static void trip2() {
  FFTGrid2D<T> g(N, M, P, Q, SC); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot();
  vp_true("padded-size", 0, A >= N + P && B >= M + Q); vp_eq_i64("transform-shape", 0, g.GetComplexNI(), A/2 + 1); vp_eq_i64("transform-shape", 1, g.GetComplexNJ(), B); vp_eq_i64("transform-shape", 2, g.GetRealNI(), N); vp_eq_i64("transform-shape", 3, g.GetRealNJ(), M);
  Grid2D<T> v(A, B); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) v(i, j) = static_cast<T>(X(i, j, 0));
  g.Initialize(v); Grid2D<T> r0 = g.GetRealGrid(); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) eq("unpadded-cells", i + 100*j, r0(i, j), X(i, j, 0));
  g.DoFFT(); double sc = SC ? 1.0/std::sqrt(1.0*A*B) : 1.0;
  for (int p = 0; p < A/2 + 1; ++p) for (int q = 0; q < B; ++q) { double re = 0, im = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) { double ph = -PI2*((double)p*i/A + (double)q*j/B); re += X(i, j, 0)*std::cos(ph); im += X(i, j, 0)*std::sin(ph); }
    eq("forward-is-the-transform", p + 100*q, g.Complex(p, q).real(), re*sc); eq("forward-is-the-transform", p + 100*q + 50, g.Complex(p, q).imag(), im*sc); }
  g.DoInverseFFT(); Grid2D<T> r = g.GetRealGrid(); vp_eq_i64("unpadded-shape", 0, r.GetNI(), N); vp_eq_i64("unpadded-shape", 1, r.GetNJ(), M);
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { eq("inverse-undoes-forward", i + 100*j, r(i, j), X(i, j, 0)); eq("inverse-undoes-forward", i + 100*j, g.Real(i, j), X(i, j, 0)); }
}
#define T2(T, N, M, P, Q, SC) ENTRY(trip2_##T##_##N##_##M##_##P##_##Q##_##SC) { trip2<T, N, M, P, Q, SC>(); }
T2(double, 3, 2, 1, 1, true) T2(double, 2, 3, 2, 0, false) T2(double, 3, 4, 3, 1, true) T2(float, 2, 3, 1, 2, true) T2(float, 3, 2, 1, 1, false) T2(double, 1, 4, 0, 0, true) T2(double, 2, 2, 6, 1, false) T2(double, 2, 2, 0, 7, true) T2(double, 66, 2, 4, 0, true) T2(double, 2, 66, 1, 4, false)
template<int N, int M, int P, int Q, bool S1, bool S2> static void conv2() {
  FFTGrid2D<double> g(N, M, P, Q, S1), f(N, M, P, Q, S2); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot(); Grid2D<double> v(A, B), u(A, B);
  for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) { v(i, j) = X(i, j, 0); u(i, j) = F(i, j, 0); } g.Initialize(v); f.Initialize(u); g.Convolve(f); Grid2D<double> r = g.GetRealGrid(); double sc = S2 ? 1.0/std::sqrt(1.0*A*B) : 1.0;
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { double s = 0; for (int a = 0; a < A; ++a) for (int b = 0; b < B; ++b) s += X(a, b, 0)*F(wr(i - a, A), wr(j - b, B), 0); eq("cyclic-convolution", i + 100*j, r(i, j), s*sc); }
}
ENTRY(conv2_a) { conv2<3, 2, 1, 1, false, false>(); }
ENTRY(conv2_b) { conv2<2, 3, 0, 2, true, false>(); }
ENTRY(conv2_c) { conv2<2, 2, 2, 1, true, true>(); }
// ---- 3D
template<class T, int N, int M, int L, int P, int Q, int R, bool SC> static void trip3() {
  FFTGrid3D<T> g(N, M, L, P, Q, R, SC); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot(), D = (int)g.GetNKtot();
  vp_true("padded-size", 0, A >= N + P && B >= M + Q && D >= L + R); vp_eq_i64("transform-shape", 0, g.GetComplexNI(), A/2 + 1); vp_eq_i64("transform-shape", 1, g.GetComplexNJ(), B); vp_eq_i64("transform-shape", 2, g.GetComplexNK(), D);
  Grid<T> v(A, B, D); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) v(i, j, k) = static_cast<T>(X(i, j, k));
  g.Initialize(v); Grid<T> r0 = g.GetRealGrid(); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) { eq("unpadded-cells", i + 100*(j + 100*k), r0(i, j, k), X(i, j, k)); eq("unpadded-cells", i + 100*(j + 100*k), g.Real(i, j, k), X(i, j, k)); }
  for (int i = -A + 1; i < A; i += 2) for (int j = -B + 1; j < B; j += 2) for (int k = -D + 1; k < D; k += 2) eq("cyclic-access", i + 100*(j + 100*k), g.RealCyclic(i, j, k), X(wr(i, A), wr(j, B), wr(k, D)));
  g.DoFFT(); double sc = SC ? 1.0/std::sqrt(1.0*A*B*D) : 1.0;
  for (int p = 0; p < A/2 + 1; ++p) for (int q = 0; q < B; ++q) for (int s = 0; s < D; ++s) { double re = 0, im = 0; for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) { double ph = -PI2*((double)p*i/A + (double)q*j/B + (double)s*k/D); re += X(i, j, k)*std::cos(ph); im += X(i, j, k)*std::sin(ph); }
    eq("forward-is-the-transform", p + 100*q + 10000*s, g.Complex(p, q, s).real(), re*sc); eq("forward-is-the-transform", p + 100*q + 10000*s + 50, g.Complex(p, q, s).imag(), im*sc); }
  g.DoInverseFFT(); Grid<T> r = g.GetRealGrid(); vp_eq_i64("unpadded-shape", 0, r.GetNI(), N); vp_eq_i64("unpadded-shape", 1, r.GetNJ(), M); vp_eq_i64("unpadded-shape", 2, r.GetNK(), L);
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) eq("inverse-undoes-forward", i + 100*(j + 100*k), r(i, j, k), X(i, j, k));
}
// addressing along long axes
template<int N, int M, int L, int P, int Q, int R> static void cyc3() {
  FFTGrid3D<double> g(N, M, L, P, Q, R, true); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot(), D = (int)g.GetNKtot(); Grid<double> v(A, B, D);
  for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) v(i, j, k) = X(i, j, k); g.Initialize(v);
  Grid<double> r = g.GetRealGrid(); for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) { eq("unpadded-cells", i + 1000*(j + 1000*k), r(i, j, k), X(i, j, k)); eq("unpadded-cells", i + 1000*(j + 1000*k), g.Real(i, j, k), X(i, j, k)); }
  for (int i = -A + 1; i < A; ++i) for (int j = -B + 1; j < B; ++j) for (int k = -D + 1; k < D; ++k) eq("cyclic-access", i + 1000*(j + 1000*k), g.RealCyclic(i, j, k), X(wr(i, A), wr(j, B), wr(k, D))); }
ENTRY(cyc3_x) { cyc3<130, 2, 1, 5, 0, 1>(); }
ENTRY(cyc3_y) { cyc3<1, 130, 2, 1, 4, 0>(); }
ENTRY(cyc3_z) { cyc3<2, 1, 130, 0, 1, 3>(); }
#define T3(T, N, M, L, P, Q, R, SC) ENTRY(trip3_##T##_##N##_##M##_##L##_##P##_##Q##_##R##_##SC) { trip3<T, N, M, L, P, Q, R, SC>(); }
T3(double, 2, 3, 2, 1, 0, 1, true) T3(double, 3, 2, 2, 0, 1, 1, false) T3(float, 2, 2, 3, 1, 1, 0, true) T3(float, 2, 3, 2, 0, 0, 0, false) T3(double, 1, 2, 4, 0, 1, 1, true) T3(double, 2, 2, 2, 0, 6, 0, true) T3(double, 2, 2, 1, 5, 0, 5, false) T3(double, 33, 2, 1, 2, 0, 0, false) T3(double, 1, 33, 2, 1, 2, 0, true) T3(double, 2, 1, 33, 0, 0, 2, false)
template<int N, int M, int L, int P, int Q, int R, bool S1, bool S2> static void conv3() {
  FFTGrid3D<double> g(N, M, L, P, Q, R, S1), f(N, M, L, P, Q, R, S2), h(N, M, L, P, Q, R, S1); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot(), D = (int)g.GetNKtot(); Grid<double> v(A, B, D), u(A, B, D);
  for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) { v(i, j, k) = X(i, j, k); u(i, j, k) = F(i, j, k); } g.Initialize(v); f.Initialize(u); g.Convolve(f); Grid<double> r = g.GetRealGrid(); double sc = S2 ? 1.0/std::sqrt(1.0*A*B*D) : 1.0;
  h.Initialize(v); h.DoFFT(); h.ConvolveNoFFT(f); h.DoInverseFFT();
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) { double s = 0; for (int a = 0; a < A; ++a) for (int b = 0; b < B; ++b) for (int c = 0; c < D; ++c) s += X(a, b, c)*F(wr(i - a, A), wr(j - b, B), wr(k - c, D));
    eq("cyclic-convolution", i + 100*j + 10000*k, r(i, j, k), s*sc); eq("cyclic-convolution", i + 100*j + 10000*k, h.Real(i, j, k), s*sc); }
}
ENTRY(conv3_a) { conv3<2, 2, 2, 0, 1, 0, false, false>(); }
ENTRY(conv3_b) { conv3<2, 2, 1, 0, 0, 2, true, true>(); }
template<int N, int M, int L, int P, int Q, int R> static void init3() {
  FFTGrid3D<double> g(N, M, L, P, Q, R, true); const int A = (int)g.GetNItot(), B = (int)g.GetNJtot(), D = (int)g.GetNKtot(); Grid<double> v(N, M, L);
  for (int i = 0; i < A*B*D; ++i) eq("starts-at-zero", i, g.RealData()[i], 0.0);
  for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < L; ++k) v(i, j, k) = X(i, j, k); g.InitializeConstant(vp_real("c", -5, 5)); for (int i = 0; i < A*B*D; ++i) eq("constant-everywhere", i, g.RealData()[i], vp_real("c", -5, 5));
  g.InitializePadZero(v); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) eq("zero-padding", i + 100*(j + 100*k), g.RealData()[i + A*(j + B*k)], i < N && j < M && k < L ? X(i, j, k) : 0.0);
}
ENTRY(init3_a) { init3<2, 3, 2, 1, 2, 0>(); }
ENTRY(init3_b) { init3<3, 1, 2, 2, 3, 4>(); }
// square-root convolution: the spectrum is multiplied by the root of the filter's spectrum
ENTRY(convc_2) { FFTGrid2D<double> g(2, 3, 1, 1, true), f(2, 3, 1, 1, false), h(2, 3, 1, 1, true), e(2, 3, 1, 1, false); int A = g.GetNItot(), B = g.GetNJtot(); Grid2D<double> v(A, B), u(A, B); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) { v(i, j) = X(i, j, 0); u(i, j) = F(i, j, 0); }
  g.Initialize(v); f.Initialize(u); h.Initialize(v); e.Initialize(u); g.ConvolveCovariance(f); h.DoFFT(); e.DoFFT(); for (size_t i = 0; i < h.GetComplexNI()*h.GetComplexNJ(); ++i) h.ComplexData()[i] *= std::sqrt(e.ComplexData()[i]); h.DoInverseFFT(); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) eq("root-convolution", i + 100*j, g.Real(i, j), h.Real(i, j)); }
ENTRY(convc_3) { FFTGrid3D<double> g(2, 1, 2, 1, 1, 1, true), f(2, 1, 2, 1, 1, 1, false), h(2, 1, 2, 1, 1, 1, true), e(2, 1, 2, 1, 1, 1, false); int A = g.GetNItot(), B = g.GetNJtot(), D = g.GetNKtot(); Grid<double> v(A, B, D), u(A, B, D); for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) for (int k = 0; k < D; ++k) { v(i, j, k) = X(i, j, k); u(i, j, k) = F(i, j, k); }
  g.Initialize(v); f.Initialize(u); h.Initialize(v); e.Initialize(u); g.ConvolveCovariance(f); h.DoFFT(); e.DoFFT(); for (size_t i = 0; i < h.GetComplexNI()*h.GetComplexNJ()*h.GetComplexNK(); ++i) h.ComplexData()[i] *= std::sqrt(e.ComplexData()[i]); h.DoInverseFFT(); for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) eq("root-convolution", i + 100*k, g.Real(i, 0, k), h.Real(i, 0, k)); }
// ---- 1D
static size_t fav(size_t n) { for (;; ++n) { size_t m = n; while (m % 2 == 0) m /= 2; while (m % 3 == 0) m /= 3; while (m % 5 == 0) m /= 5; while (m % 7 == 0) m /= 7; if (m == 1) return n; } }
template<int N, int PAD, bool SC, class Cont> static void fft1() {
  Cont v; for (int i = 0; i < N; ++i) v.push_back(X(i, 0, 0)); std::vector<C> out; ComputeFFT1D(v, out, SC, PAD);
  int tot = PAD == 0 ? N : (int)fav(N + (PAD < 0 ? N : PAD)), pad = tot - N; vp_eq_i64("one-dimensional-size", 0, out.size(), tot);
  std::vector<double> x(tot); for (int i = 0; i < N; ++i) x[i] = X(i, 0, 0); for (int i = 0; i < pad; ++i) { double t = pad == 1 ? 1.0 : (double)i/(pad - 1); x[N + i] = t*X(0, 0, 0) + (1 - t)*X(N - 1, 0, 0); }
  double sc = SC ? 1.0/std::sqrt((double)tot) : 1.0;
  for (int p = 0; p < tot/2 + 1; ++p) { double re = 0, im = 0; for (int i = 0; i < tot; ++i) { double ph = -PI2*(double)p*i/tot; re += x[i]*std::cos(ph); im += x[i]*std::sin(ph); } vp_eq_f64("forward-is-the-transform", p, out[p].real(), re*sc); vp_eq_f64("forward-is-the-transform", p + 1000, out[p].imag(), im*sc); }
  for (int p = 1; p < (tot + 1)/2; ++p) vp_eq_f64("spectrum-mirrored", p, out[tot - p].real(), out[p].real());
  Cont w(N); ComputeFFTInv1D(out, w, SC); int i = 0; for (typename Cont::iterator it = w.begin(); it != w.end(); ++it, ++i) vp_eq_f64("inverse-undoes-forward", i, *it, X(i, 0, 0));
}
#define F1(ID, N, PAD, SC, CT) ENTRY(fft1_##ID) { fft1<N, PAD, SC, CT>(); }
F1(a, 4, 0, false, std::vector<double>) F1(b, 5, 0, true, std::vector<double>) F1(c, 3, -1, true, std::vector<double>) F1(d, 4, 3, false, std::vector<double>) F1(e, 1, 0, true, std::vector<double>) F1(f, 1, -1, false, std::vector<double>) F1(g, 5, 1, true, std::list<double>) F1(h, 7, 4, false, std::list<double>) F1(i, 6, 1, false, std::vector<double>) F1(j, 2, 0, true, std::vector<double>) F1(k, 9, 0, true, std::vector<double>)
ENTRY(fft1_empty) { std::vector<double> v; std::vector<C> out, none; ComputeFFT1D(v, out, true); vp_eq_i64("empty-input", 0, out.size(), 0); std::vector<double> w(2); w[0] = X(0, 0, 0); w[1] = X(1, 0, 0); ComputeFFTInv1D(none, w, true); vp_eq_f64("empty-input", 1, w[0], X(0, 0, 0)); vp_eq_f64("empty-input", 2, w[1], X(1, 0, 0)); }

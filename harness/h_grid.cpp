// Grid containers of two to five dimensions.
#include "vp.h"
#include <cmath>
#include <vector>
#include <string>
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/grid/grid2dgeneral.hpp"
#include "nrlib/grid/grid4d.hpp"
#include "nrlib/grid/grid5d.hpp"
using namespace NRLib;
static double X(long i) { return vp_fn1("x", (double)i); }
static double V(const char* n) { return vp_real(n, -5, 5); }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }

template<int NI, int NJ, int NK> static void g3() {
  Grid<double> g(NI, NJ, NK, V("v")); const Grid<double>& c = g; e("size", 0, g.GetNI(), NI); e("size", 1, g.GetNJ(), NJ); e("size", 2, g.GetNK(), NK); e("size", 3, g.GetN(), NI*NJ*NK); e("size", 4, g.GetStorage().size(), NI*NJ*NK); e("size", 5, g.end() - g.begin(), NI*NJ*NK);
  for (int i = 0; i < NI*NJ*NK; ++i) d("initial-value", i, c(i), V("v"));
  long n = 0; for (int k = 0; k < NK; ++k) for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i, ++n) {
    e("column-major", n, g.GetIndex(i, j, k), n); size_t a, b, f; g.GetIJK(n, a, b, f); e("index-inverse", 3*n, a, i); e("index-inverse", 3*n + 1, b, j); e("index-inverse", 3*n + 2, f, k); if (n % 3 == 0) g(i, j, k) = X(n); else if (n % 3 == 1) g.SetValue(i, j, k, X(n)); else g.GetValue(i, j, k) = X(n); }
  n = 0; for (int k = 0; k < NK; ++k) for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i, ++n) { d("written-is-read", n, g(i, j, k), X(n)); d("written-is-read", n, c(i, j, k), X(n)); d("written-is-read", n, c.GetValue(i, j, k), X(n)); d("written-is-read", n, g.GetValue(i, j, k), X(n)); d("written-is-read", n, c(n), X(n)); d("written-is-read", n, g(n), X(n)); d("written-is-read", n, *(c.begin() + n), X(n)); d("written-is-read", n, c.GetStorage()[n], X(n)); }
  Grid<double> o = g; g(0) = V("w"); d("copies-are-independent", 0, o(0), X(0)); g(0) = X(0);
  g.ResizeK(NK + 2); e("size", 10, g.GetNK(), NK + 2); e("size", 11, g.GetNI(), NI); e("size", 12, g.GetNJ(), NJ); e("size", 13, g.GetN(), NI*NJ*(NK + 2)); n = 0; for (int k = 0; k < NK; ++k) for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i, ++n) d("kept-when-depth-changes", n, g(i, j, k), X(n)); for (; n < NI*NJ*(NK + 2); ++n) d("new-layers-are-zero", n, g(n), 0.0);
  g.ResizeK(NK); for (n = 0; n < NI*NJ*NK; ++n) d("kept-when-depth-changes", 1000 + n, g(n), X(n));
  Grid<double> h(NK + 1, NI, NJ, V("u")); h.Swap(g); e("swapped", 0, g.GetNI(), NK + 1); e("swapped", 1, g.GetNJ(), NI); e("swapped", 2, g.GetNK(), NJ); e("swapped", 3, h.GetNI(), NI); e("swapped", 4, h.GetNJ(), NJ); e("swapped", 5, h.GetNK(), NK); e("swapped", 6, h.GetN(), NI*NJ*NK); for (n = 0; n < NI*NJ*NK; ++n) d("swapped", 10 + n, h(n), X(n)); d("swapped", 9, g(0), V("u"));
  h.Resize(NJ, NK, NI, V("r")); e("size", 20, h.GetNI(), NJ); e("size", 21, h.GetNJ(), NK); e("size", 22, h.GetNK(), NI); for (n = 0; n < NI*NJ*NK; ++n) d("resize-erases", n, h(n), V("r"));
  h.Resize(NI, NJ + 1, NK); e("size", 23, h.GetN(), NI*(NJ + 1)*NK); for (n = 0; n < NI*(NJ + 1)*NK; ++n) d("resize-erases", 1000 + n, h(n), 0.0);
  h.Assign(NI, NJ, NK + 1, V("s")); e("size", 24, h.GetN(), NI*NJ*(NK + 1)); e("size", 25, h.GetNK(), NK + 1); e("size", 26, h.GetNI(), NI); e("size", 27, h.GetNJ(), NJ); for (n = 0; n < NI*NJ*(NK + 1); ++n) d("assign-sets-all", n, h(n), V("s"));
  Grid<double> z; e("empty", 0, z.GetN(), 0); e("empty", 1, z.GetNI(), 0); e("empty", 2, z.GetNJ(), 0); e("empty", 3, z.GetNK(), 0);
}
#define G3(A, B, C) ENTRY(grid3_##A##_##B##_##C) { g3<A, B, C>(); }
G3(2, 3, 4) G3(4, 2, 3) G3(1, 3, 2) G3(3, 1, 1) G3(5, 4, 2)
ENTRY(grid3_symbolic) { Grid<char> g(7, 5, 6); size_t i = vp_i32("i", 0, 6), j = vp_i32("j", 0, 4), k = vp_i32("k", 0, 5), n = vp_i32("n", 0, 209), a, b, c; e("column-major", 0, g.GetIndex(i, j, k), i + 7*j + 35*k); g.GetIJK(n, a, b, c); e("index-inverse", 0, a, n % 7); e("index-inverse", 1, b, n/7 % 5); e("index-inverse", 2, c, n/35); }
ENTRY(grid2_symbolic) { Grid2D<char> g(7, 5); size_t i = vp_i32("i", 0, 6), j = vp_i32("j", 0, 4), n = vp_i32("n", 0, 34), a, b; e("column-major", 0, g.GetIndex(i, j), i + 7*j); g.GetIJ(n, a, b); e("index-inverse", 0, a, n % 7); e("index-inverse", 1, b, n/7); int p = vp_i32("p", -100, 100), q = vp_i32("q", -100, 100); e("valid-index", 0, g.IsValidIndex(p, q), p >= 0 && p < 7 && q >= 0 && q < 5); }
template<int NI, int NJ> static void g2() {
  Grid2D<double> g(NI, NJ, V("v")); const Grid2D<double>& c = g; e("size", 0, g.GetNI(), NI); e("size", 1, g.GetNJ(), NJ); e("size", 3, g.GetN(), NI*NJ); e("size", 4, g.GetStorage().size(), NI*NJ); e("size", 5, g.end() - g.begin(), NI*NJ);
  for (int i = 0; i < NI*NJ; ++i) d("initial-value", i, c(i), V("v"));
  long n = 0; for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i, ++n) { e("column-major", n, g.GetIndex(i, j), n); size_t a, b; g.GetIJ(n, a, b); e("index-inverse", 3*n, a, i); e("index-inverse", 3*n + 1, b, j); g(i, j) = X(n); }
  n = 0; for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i, ++n) { d("written-is-read", n, g(i, j), X(n)); d("written-is-read", n, c(i, j), X(n)); d("written-is-read", n, c(n), X(n)); d("written-is-read", n, g(n), X(n)); d("written-is-read", n, *(c.begin() + n), X(n)); d("written-is-read", n, c.GetStorage()[n], X(n)); }
  for (int i = -2; i < NI + 2; ++i) for (int j = -2; j < NJ + 2; ++j) e("valid-index", i + 100*j, g.IsValidIndex(i, j), i >= 0 && i < NI && j >= 0 && j < NJ);
  Grid2D<double> o = g; g(0) = V("w"); d("copies-are-independent", 0, o(0), X(0)); g(0) = X(0);
  Grid2D<double> h(NJ + 1, NI, V("u")); h.Swap(g); e("swapped", 0, g.GetNI(), NJ + 1); e("swapped", 1, g.GetNJ(), NI); e("swapped", 3, h.GetNI(), NI); e("swapped", 4, h.GetNJ(), NJ); e("swapped", 6, h.GetN(), NI*NJ); for (n = 0; n < NI*NJ; ++n) d("swapped", 10 + n, h(n), X(n)); d("swapped", 9, g(0), V("u"));
  h.Resize(NJ, NI, V("r")); e("size", 20, h.GetNI(), NJ); e("size", 21, h.GetNJ(), NI); for (n = 0; n < NI*NJ; ++n) d("resize-erases", n, h(n), V("r"));
  h.Resize(NI, NJ + 1); e("size", 23, h.GetN(), NI*(NJ + 1)); for (n = 0; n < NI*(NJ + 1); ++n) d("resize-erases", 1000 + n, h(n), 0.0);
  h.Assign(NI + 1, NJ, V("s")); e("size", 24, h.GetN(), (NI + 1)*NJ); e("size", 25, h.GetNJ(), NJ); e("size", 26, h.GetNI(), NI + 1); for (n = 0; n < (NI + 1)*NJ; ++n) d("assign-sets-all", n, h(n), V("s"));
  Grid2D<double> z; e("empty", 0, z.GetN(), 0); e("empty", 1, z.GetNI(), 0); e("empty", 2, z.GetNJ(), 0);
}
#define G2(A, B) ENTRY(grid2_##A##_##B) { g2<A, B>(); }
G2(2, 3) G2(4, 2) G2(1, 3) G2(3, 1) G2(5, 4)
template<int I0, int I1, int J0, int J1> static void gg() {
  const int NI = I1 - I0 + 1, NJ = J1 - J0 + 1; Grid2DGeneral<double> g(I0, I1, J0, J1, V("v")); const Grid2DGeneral<double>& c = g; e("size", 0, g.GetNI(), NI); e("size", 1, g.GetNJ(), NJ); e("size", 2, g.GetN(), NI*NJ); e("size", 3, g.GetIMin(), I0); e("size", 4, g.GetIMax(), I1); e("size", 5, g.GetJMin(), J0); e("size", 6, g.GetJMax(), J1);
  for (int i = 0; i < NI*NJ; ++i) d("initial-value", i, c(i), V("v"));
  long n = 0; for (int j = J0; j <= J1; ++j) for (int i = I0; i <= I1; ++i, ++n) { e("column-major", n, g.GetIndex(i, j), n); size_t a, b; g.GetIJ(n, a, b); e("index-inverse", 2*n, a, i); e("index-inverse", 2*n + 1, b, j); g(i, j) = X(n); }
  n = 0; for (int j = J0; j <= J1; ++j) for (int i = I0; i <= I1; ++i, ++n) { d("written-is-read", n, c(i, j), X(n)); d("written-is-read", n, c(n), X(n)); d("written-is-read", n, g(i, j), X(n)); d("written-is-read", n, g(n), X(n)); }
  size_t p = vp_i32("p", 0, 100), q = vp_i32("q", 0, 100); e("valid-index", 0, g.IsValidIndex(p, q), p >= I0 && p <= I1 && q >= J0 && q <= J1);
  Grid2DGeneral<double> h(1, 3, 2, 6, V("u")); h.Swap(g); e("swapped", 0, h.GetNI(), NI); e("swapped", 1, h.GetNJ(), NJ); e("swapped", 2, h.GetIMin(), I0); e("swapped", 3, h.GetJMax(), J1); e("swapped", 4, h.GetIMax(), I1); e("swapped", 5, h.GetJMin(), J0); e("swapped", 6, g.GetIMin(), 1); e("swapped", 7, g.GetJMin(), 2); e("swapped", 8, g.GetIMax(), 3); e("swapped", 9, g.GetJMax(), 6); for (n = 0; n < NI*NJ; ++n) d("swapped", 10 + n, h(n), X(n));
  h.Resize(2, 3, 4, 8, V("r")); e("size", 20, h.GetNI(), 2); e("size", 21, h.GetNJ(), 5); e("size", 22, h.GetIMin(), 2); e("size", 23, h.GetJMax(), 8); for (n = 0; n < 10; ++n) d("resize-erases", n, h(n), V("r"));
  Grid2DGeneral<double> z; e("empty", 0, z.GetN(), 0);
}
#define GG(A, B, C, D) ENTRY(gridg_##A##_##B##_##C##_##D) { gg<A, B, C, D>(); }
GG(0, 1, 0, 2) GG(3, 5, 7, 8) GG(2, 2, 4, 7)
ENTRY(grid4) { const int N[4] = {2, 3, 2, 3}; Grid4D<double> g(2, 3, 2, 3, V("v")); const Grid4D<double>& c = g; e("size", 0, g.GetN(), 36); e("size", 1, g.GetNI(), 2); e("size", 2, g.GetNJ(), 3); e("size", 3, g.GetNK(), 2); e("size", 4, g.GetNL(), 3); for (int i = 0; i < 36; ++i) d("initial-value", i, c(i), V("v"));
  long n = 0; for (int l = 0; l < 3; ++l) for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i, ++n) { e("column-major", n, g.GetIndex(i, j, k, l), n); size_t a, b, p, q; g.GetIJKL(n, a, b, p, q); e("index-inverse", 4*n, a, i); e("index-inverse", 4*n + 1, b, j); e("index-inverse", 4*n + 2, p, k); e("index-inverse", 4*n + 3, q, l); g(i, j, k, l) = X(n); }
  n = 0; for (int l = 0; l < 3; ++l) for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i, ++n) { d("written-is-read", n, c(i, j, k, l), X(n)); d("written-is-read", n, c(n), X(n)); d("written-is-read", n, g(n), X(n)); }
  Grid4D<double> h(1, 2, 1, 4); h.Swap(g); e("swapped", 0, h.GetNI(), 2); e("swapped", 1, h.GetNJ(), 3); e("swapped", 2, h.GetNK(), 2); e("swapped", 3, h.GetNL(), 3); e("swapped", 4, g.GetNL(), 4); e("swapped", 5, g.GetN(), 8); d("swapped", 6, h(35), X(35)); h.Resize(3, 1, 2, 2, V("r")); e("size", 9, h.GetN(), 12); e("size", 10, h.GetNL(), 2); e("size", 11, h.GetNI(), 3); e("size", 12, h.GetNJ(), 1); e("size", 13, h.GetNK(), 2); for (n = 0; n < 12; ++n) d("resize-erases", n, h(n), V("r")); }
ENTRY(grid5) { Grid5D<double> g(2, 3, 2, 3, 2, V("v")); const Grid5D<double>& c = g; e("size", 0, g.GetN(), 72); e("size", 1, g.GetNI(), 2); e("size", 2, g.GetNJ(), 3); e("size", 3, g.GetNK(), 2); e("size", 4, g.GetNL(), 3); e("size", 5, g.GetNM(), 2); for (int i = 0; i < 72; ++i) d("initial-value", i, c(i), V("v"));
  long n = 0; for (int m = 0; m < 2; ++m) for (int l = 0; l < 3; ++l) for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i, ++n) { e("column-major", n, g.GetIndex(i, j, k, l, m), n); size_t a, b, p, q, r; g.GetIJKLM(n, a, b, p, q, r); e("index-inverse", 5*n, a, i); e("index-inverse", 5*n + 1, b, j); e("index-inverse", 5*n + 2, p, k); e("index-inverse", 5*n + 3, q, l); e("index-inverse", 5*n + 4, r, m); g(i, j, k, l, m) = X(n); }
  n = 0; for (int m = 0; m < 2; ++m) for (int l = 0; l < 3; ++l) for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i, ++n) { d("written-is-read", n, c(i, j, k, l, m), X(n)); d("written-is-read", n, c(n), X(n)); }
  Grid5D<double> h(1, 2, 1, 4, 3); h.Swap(g); e("swapped", 0, h.GetNI(), 2); e("swapped", 1, h.GetNM(), 2); e("swapped", 2, g.GetNL(), 4); e("swapped", 3, g.GetNM(), 3); d("swapped", 6, h(71), X(71)); h.Resize(3, 1, 2, 2, 1, V("r")); e("size", 9, h.GetN(), 12); e("size", 10, h.GetNM(), 1); e("size", 11, h.GetNI(), 3); for (n = 0; n < 12; ++n) d("resize-erases", n, h(n), V("r")); }
// ---- statistics; the missing value may occur anywhere
static const double INF = HUGE_VAL;
static double F(Grid<double>& g, int n, double* v) { for (int i = 0; i < n; ++i) g(i) = v[i]; return 0; }
ENTRY(stat_plain) { Grid<double> g(2, 2, 1); double v[4] = {V("a"), V("b"), V("c"), V("d")}; F(g, 4, v); double a, l, h; g.GetAvgMinMax(a, l, h); double s = 0, lo = INF, hi = -INF; for (int i = 0; i < 4; ++i) { s += v[i]; if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; } d("average", 0, a, s/4); d("minimum", 0, l, lo); d("maximum", 0, h, hi); }
ENTRY(stat_missing) { Grid<double> g(1, 2, 2); double m = V("m"), v[4] = {V("a"), V("b"), m, V("c")}; F(g, 4, v); double a, l, h; g.GetAvgMinMaxWithMissing(a, l, h, m); double s = 0, lo = INF, hi = -INF; int n = 0; for (int i = 0; i < 4; ++i) if (v[i] != m) { ++n; s += v[i]; if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; } if (n > 0) { d("average", 1, a, s/n); d("minimum", 1, l, lo); d("maximum", 1, h, hi); } }
ENTRY(stat_log) { Grid<double> g(2, 1, 1); double m = V("m"), v[2] = {V("a"), V("b")}; F(g, 2, v); g.LogTransform(m); for (int i = 0; i < 2; ++i) { double w = 0; if (v[i] != m && v[i] > 0) w = std::log(v[i]); d("log-transform", i, g(i), w); } Grid<double> q(1, 1, 1, m); q.LogTransform(m); d("log-transform", 5, q(0), 0.0); }
template<class G> static void ext(G& g, int n, double* v, double m) { for (int i = 0; i < n; ++i) g(i) = v[i]; double lo = INF, hi = -INF; int k = 0; for (int i = 0; i < n; ++i) if (v[i] != m) { ++k; if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; } double a = g.FindMin(m), b = g.FindMax(m); if (k > 0) { d("minimum", 2, a, lo); d("maximum", 2, b, hi); } }
ENTRY(stat_2d) { double m = V("m"), v[4] = {V("a"), m, V("b"), V("c")}; Grid2D<double> g(2, 2); ext(g, 4, v, m); Grid2DGeneral<double> h(1, 2, 3, 4); ext(h, 4, v, m); double w[3] = {m, V("a"), V("b")}; Grid2D<double> p(3, 1); ext(p, 3, w, m); Grid2DGeneral<double> q(0, 2, 1, 1); ext(q, 3, w, m); double u[3] = {V("a"), V("b"), m}; ext(p, 3, u, m); ext(q, 3, u, m); }

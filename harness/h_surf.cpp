// Regular, rotated and constant surfaces, and volumes bounded by surfaces.
#include "vp.h"
#include <cmath>
#include <vector>
#include <string>
#include <stdexcept>
#include "nrlib/surface/surface.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/volume/volume.hpp"
using namespace NRLib;
static double V(const char* n) { return vp_real(n, -5, 5); }
static double L(const char* n) { return vp_real(n, 0.5, 50); }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
static double Z(long i) { static const char* n[] = {"z0","z1","z2","z3","z4","z5","z6","z7","z8","z9","z10","z11"}; return vp_real(n[i], -9, 9); }
static double node(int mask, long i, double miss) { return (mask >> i & 1) ? miss : Z(i); }
template<class S> static void fill(S& s, int mask, double miss = -999.0) { for (size_t i = 0; i < s.GetN(); ++i) s(i) = node(mask, i, miss); }
static double hat(double t) { t = t < 0 ? -t : t; return t < 1 ? 1 - t : 0; }
// interpolation by definition: bilinear weights over the present nodes
static double bil(int NI, int NJ, int mask, double u, double v, bool all) {
  double s = 0, w = 0, gone = 0;
  for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i) {
    double h = hat(u - i)*hat(v - j);
    if (mask >> (i + NI*j) & 1) { if (h > 0) gone = 1; } else { s += h*Z(i + NI*j); w += h; }
  }
  if (all) return (gone > 0 || u < 0 || v < 0 || u >= NI - 1 || v >= NJ - 1) ? -999.0 : s;
  return w > 0 ? s/w : -999.0;
}
#define DIMS double x0 = V("x0"), y0 = V("y0"), lx = L("lx"), ly = L("ly");
#define PT double x = x0 + lx*vp_real("rx", -0.9, 1.9), y = y0 + ly*vp_real("ry", -0.9, 1.9);
template<int NI, int NJ, int M> static void interp() {
  DIMS RegularSurface<double> s(x0, y0, lx, ly, NI, NJ); fill(s, M); PT
  double dx = lx/(NI - 1), dy = ly/(NJ - 1), u = (x - x0)/dx, v = (y - y0)/dy;
  // points on a grid line are left to the node entries
  vp_assume(u != std::floor(u) && v != std::floor(v));
  d("interpolation", 0, s.GetZ(x, y), bil(NI, NJ, M, u, v, false));
  if (M == 0) d("interpolation-inside", 0, s.GetZInside(x, y), bil(NI, NJ, M, u, v, true));
  else { bool in = true; int ci = (int)std::floor(u), cj = (int)std::floor(v); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { bool pres = false; for (int j = 0; j < NJ; ++j) for (int i = 0; i < NI; ++i) if (i == ci + a && j == cj + b && !(M >> (i + NI*j) & 1)) pres = true; if (!pres) in = false; }
    double z = s.GetZInside(x, y); d("interpolation-inside", 1, z, in ? bil(NI, NJ, M, u, v, false) : -999.0); }
}
#define IP(A, B, C) ENTRY(interp_##A##_##B##_##C) { interp<A, B, C>(); }
IP(2, 2, 0) IP(3, 2, 0) IP(2, 4, 0) IP(3, 3, 0) IP(2, 2, 1) IP(2, 2, 2) IP(2, 2, 4) IP(2, 2, 8) IP(2, 2, 9) IP(2, 2, 15) IP(3, 2, 18) IP(3, 3, 16)
ENTRY(interp_float) { DIMS RegularSurface<float> s(x0, y0, lx, ly, 3, 2); for (int i = 0; i < 6; ++i) s(i) = (float)Z(i); PT double u = (x - x0)/(lx/2), v = (y - y0)/ly; vp_assume(u != std::floor(u) && v != std::floor(v)); vp_eq_f32("interpolation-float", 0, s.GetZ(x, y), (float)bil(3, 2, 0, u, v, false)); }
ENTRY(nodes_exact) { RegularSurface<double> s(1.0, -2.0, 4.0, 3.0, 3, 4); fill(s, 0); // dx 2, dy 1
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 3; ++i) { double x, y, z; s.GetXY(i, j, x, y); long n = i + 3*j; d("node-position", 2*n, x, 1 + 2.0*i); d("node-position", 2*n + 1, y, -2.0 + j); d("value-at-node", n, s.GetZ(x, y), Z(n)); s.GetXY(n, x, y); d("node-position", 100 + 2*n, x, 1 + 2.0*i); d("node-position", 101 + 2*n, y, -2.0 + j);
    s.GetNode(n, x, y, z); d("node-position", 200 + 2*n, x, 1 + 2.0*i); d("node-position", 201 + 2*n, y, -2.0 + j); d("value-at-node", 100 + n, z, Z(n)); s.GetNode(i, j, x, y, z); d("value-at-node", 200 + n, z, Z(n)); d("node-position", 300 + n, s.GetX(i), x); d("node-position", 400 + n, s.GetY(j), y); }
  d("outside-is-missing", 0, s.GetZ(-1.5, 0), -999.0); d("outside-is-missing", 1, s.GetZ(2, 2.5), -999.0); d("outside-is-missing", 2, s.GetZ(7.5, 0), -999.0); d("outside-is-missing", 3, s.GetZ(2, -3.5), -999.0); d("outside-is-missing", 4, s.GetZInside(0.5, 0), -999.0);
  // on a grid line between two nodes
  d("value-on-line", 0, s.GetZ(2.0, -1.0), 0.5*(Z(3) + Z(4))); d("value-on-line", 1, s.GetZ(3.0, -1.25), 0.25*Z(1) + 0.75*Z(4)); d("value-on-line", 2, s.GetZ(5.0, 0.5), 0.5*Z(8) + 0.5*Z(11)); d("value-on-line", 3, s.GetZ(4.0, 1.0), 0.5*Z(10) + 0.5*Z(11)); }
template<int NI, int NJ> static void index() {
  DIMS RegularSurface<double> s(x0, y0, lx, ly, NI, NJ); double dx = lx/(NI - 1), dy = ly/(NJ - 1);
  d("spacing", 0, s.GetDX(), dx); d("spacing", 1, s.GetDY(), dy); d("extent", 0, s.GetXMin(), x0); d("extent", 1, s.GetXMax(), x0 + lx); d("extent", 2, s.GetYMin(), y0); d("extent", 3, s.GetYMax(), y0 + ly); d("extent", 4, s.GetLengthX(), lx); d("extent", 5, s.GetLengthY(), ly);
  { double x = x0 + lx*vp_real("ix", 0, 1), y = y0 + ly*vp_real("iy", 0, 1); size_t i, j; s.FindIndex(x, y, i, j); e("cell-index", 0, i, (long)std::floor((x - x0)/dx)); e("cell-index", 1, j, (long)std::floor((y - y0)/dy)); e("cell-index", 2, s.FindI(x), i); e("cell-index", 3, s.FindJ(y), j); double a, b; s.FindContIndex(x, y, a, b); d("continuous-index", 0, a, (x - x0)/dx); d("continuous-index", 1, b, (y - y0)/dy); }
  PT int i, j; s.FindGeneralIndex(x, y, i, j); e("cell-index", 4, i, (long)std::floor((x - x0)/dx)); e("cell-index", 5, j, (long)std::floor((y - y0)/dy));
  size_t p, q; s.FindNearestNodeIndex(x, y, p, q);
  // nearest: no node is closer
  double best = std::fabs(x - (x0 + p*dx)); for (int k = 0; k < NI; ++k) vp_true("nearest-node", k, best <= std::fabs(x - (x0 + k*dx)) + 1e-9*(lx + 5)); best = std::fabs(y - (y0 + q*dy)); for (int k = 0; k < NJ; ++k) vp_true("nearest-node", 10 + k, best <= std::fabs(y - (y0 + k*dy)) + 1e-9*(ly + 5)); vp_true("nearest-node", 20, p < NI && q < NJ);
  e("inside", 0, s.IsInsideSurface(x, y), x >= x0 && x <= x0 + lx && y >= y0 && y <= y0 + ly);
  double a = x0 + lx*vp_real("ra", -0.9, 1.9), b = y0 + ly*vp_real("rb", -0.9, 1.9); e("encloses", 0, s.EnclosesRectangle(x, a, y, b), x >= x0 && a <= x0 + lx && y >= y0 && b <= y0 + ly);
}
ENTRY(index_3_4) { index<3, 4>(); } ENTRY(index_2_2) { index<2, 2>(); }
template<class S> static void arithmetic(S& s, int M) {
  double a = V("a"), b = V("b"), c = V("c"); s.Add(a); for (int i = 0; i < 6; ++i) d("add", i, s(i), M >> i & 1 ? -999.0 : Z(i) + a); s.Subtract(b); for (int i = 0; i < 6; ++i) d("subtract", i, s(i), M >> i & 1 ? -999.0 : Z(i) + a - b); s.Multiply(c); for (int i = 0; i < 6; ++i) d("multiply", i, s(i), M >> i & 1 ? -999.0 : (Z(i) + a - b)*c); s.Assign(a); for (int i = 0; i < 6; ++i) d("assign", i, s(i), a); }
ENTRY(arith_0) { DIMS RegularSurface<double> s(x0, y0, lx, ly, 3, 2); fill(s, 0); arithmetic(s, 0); } ENTRY(arith_5) { DIMS RegularSurface<double> s(x0, y0, lx, ly, 3, 2); fill(s, 5); arithmetic(s, 5); }
ENTRY(arith_rot) { DIMS RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, V("w")); fill(s, 9); arithmetic(s, 9); }
template<class S> static void stats(S& s, int M) {
  double mn = 1e30, mx = -1e30, sm = 0; int n = 0, in = 0, ix = 0; for (int i = 0; i < 6; ++i) if (!(M >> i & 1)) { if (Z(i) < mn) { mn = Z(i); in = i; } if (Z(i) > mx) { mx = Z(i); ix = i; } sm += Z(i); ++n; }
  d("minimum", 0, s.Min(), n ? mn : -999.0); d("maximum", 0, s.Max(), n ? mx : -999.0); d("average", 0, s.Avg(), n ? sm/n : -999.0); int k = -1; d("average", 1, s.Avg(k), n ? sm/n : -999.0); e("average", 2, k, n); for (int i = 0; i < 6; ++i) e("missing-nodes", i, s.IsMissingAt(i % 3, i/3), M >> i & 1); }
template<int M> static void statr() { DIMS RegularSurface<double> s(x0, y0, lx, ly, 3, 2); fill(s, M); stats(s, M);
  double mn = 1e30, mx = -1e30; int in = 0, ix = 0; for (int i = 0; i < 6; ++i) if (!(M >> i & 1)) { if (Z(i) < mn) { mn = Z(i); in = i; } if (Z(i) > mx) { mx = Z(i); ix = i; } }
  size_t i, j; d("minimum", 1, s.MinNode(i, j), M == 63 ? -999.0 : mn); e("minimum-node", 0, i + 3*j, in); d("maximum", 1, s.MaxNode(i, j), M == 63 ? -999.0 : mx); e("maximum-node", 0, i + 3*j, ix); }
ENTRY(stat_0) { statr<0>(); } ENTRY(stat_1) { statr<1>(); } ENTRY(stat_42) { statr<42>(); } ENTRY(stat_62) { statr<62>(); } ENTRY(stat_63) { statr<63>(); } ENTRY(stat_rot) { DIMS RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, V("w")); fill(s, 17); stats(s, 17); }
template<int M> static void nonconf(int op) {
  DIMS RegularSurface<double> s(x0, y0, lx, ly, 3, 2); fill(s, M); RegularSurface<double> t(x0 + 0.25*lx, y0 - 0.3*ly, lx, 2*ly, 2, 2); double q[4] = {V("q0") + 7, V("q1") + 7, V("q2") + 7, V("q3") + 7}; for (int i = 0; i < 4; ++i) t(i) = q[i];
  bool r = op == 0 ? s.AddNonConform(&t) : op == 1 ? s.SubtractNonConform(&t) : op == 2 ? s.MultiplyNonConform(&t) : s.DivideNonConform(&t); e("combine", 900, r, 1);
  for (int i = 0; i < 6; ++i) { double u = 0.5*(i % 3) - 0.25, v = (i/3 + 0.3)/2; double w, sm; // column 0 lies outside t but within a cell of it
    double h0 = hat(u)*hat(v), h1 = hat(u - 1)*hat(v), h2 = hat(u)*hat(v - 1), h3 = hat(u - 1)*hat(v - 1); w = h0 + h1 + h2 + h3; sm = (h0*q[0] + h1*q[1] + h2*q[2] + h3*q[3])/w;
    double z = M >> i & 1 ? -999.0 : op == 0 ? Z(i) + sm : op == 1 ? Z(i) - sm : op == 2 ? Z(i)*sm : Z(i)/sm; d("combine", 10*op + i, s(i), z); }
  RegularSurface<double> far(x0 + 10*lx, y0, lx, ly, 2, 2, 1.0); r = op == 0 ? s.AddNonConform(&far) : op == 1 ? s.SubtractNonConform(&far) : op == 2 ? s.MultiplyNonConform(&far) : s.DivideNonConform(&far); for (int i = 0; i < 6; ++i) d("combine", 100 + 10*op + i, s(i), -999.0); }
ENTRY(comb_0) { nonconf<0>(0); } ENTRY(comb_1) { nonconf<4>(1); } ENTRY(comb_2) { nonconf<1>(2); } ENTRY(comb_3) { nonconf<32>(3); }
static void combrot(int op) { DIMS double w = vp_real("w", -3, 3); RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, w); fill(s, 4); ConstantSurface<double> c(V("c") + 7);
  if (op == 0) s.AddNonConform(&c); else if (op == 1) s.SubtractNonConform(&c); else if (op == 2) s.MultiplyNonConform(&c); else s.DivideNonConform(&c); double k = V("c") + 7;
  for (int i = 0; i < 6; ++i) d("combine-rotated", 10*op + i, s(i), i == 2 ? -999.0 : op == 0 ? Z(i) + k : op == 1 ? Z(i) - k : op == 2 ? Z(i)*k : Z(i)/k); }
ENTRY(combrot_0) { combrot(0); } ENTRY(combrot_1) { combrot(1); } ENTRY(combrot_2) { combrot(2); } ENTRY(combrot_3) { combrot(3); }
template<int M> static void neighbour(int I, int J) { DIMS RegularSurface<double> s(x0, y0, lx, ly, 3, 3); fill(s, M); double sm = 0; int n = 0; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) if ((i != I || j != J) && std::abs(i - I) < 2 && std::abs(j - J) < 2 && !(M >> (i + 3*j) & 1)) { sm += Z(i + 3*j); ++n; }
  bool r = s.CreateNeighbourAvg(I, J); e("neighbour-average", 0, r, n > 0); for (int i = 0; i < 9; ++i) d("neighbour-average", 1 + i, s(i), i == I + 3*J ? (n ? sm/n : -999.0) : node(M, i, -999.0)); }
ENTRY(neigh_0) { neighbour<16>(1, 1); } ENTRY(neigh_1) { neighbour<0>(0, 0); } ENTRY(neigh_2) { neighbour<0>(2, 1); } ENTRY(neigh_3) { neighbour<341>(1, 0); } ENTRY(neigh_4) { neighbour<0>(1, 2); } ENTRY(neigh_5) { neighbour<511>(0, 2); } ENTRY(neigh_6) { neighbour<170>(0, 1); } ENTRY(neigh_7) { neighbour<0>(2, 2); } ENTRY(neigh_8) { neighbour<0>(2, 0); }
ENTRY(change) { DIMS RegularSurface<double> s(1, 2, 3, 4, 2, 2, 7.0); s.SetDimensions(x0, y0, lx, ly); d("changed-dimensions", 0, s.GetDX(), lx); d("changed-dimensions", 1, s.GetDY(), ly); d("changed-dimensions", 2, s.GetXMax(), x0 + lx); d("changed-dimensions", 3, s.GetYMax(), y0 + ly); s.Resize(3, 4, V("v")); e("changed-dimensions", 4, s.GetNI(), 3); e("changed-dimensions", 5, s.GetNJ(), 4); d("changed-dimensions", 6, s.GetDX(), lx/2); d("changed-dimensions", 7, s.GetDY(), ly/3); for (int i = 0; i < 12; ++i) d("changed-dimensions", 10 + i, s(i), V("v"));
  fill(s, 0); s.SetMissingValue(77.0); s.SetMissing(1, 2); e("changed-dimensions", 30, s.IsMissingAt(1, 2), 1); d("changed-dimensions", 31, s(1, 2), 77.0); e("changed-dimensions", 32, s.IsMissing(-999.0), 0); e("changed-dimensions", 33, s.IsMissing(77.0), 1); d("changed-dimensions", 34, s.GetMissingValue(), 77.0);
  RegularSurface<double> t(s); t(0) = 1.0; d("copies-independent", 0, s(0), Z(0)); Surface<double>* k = s.Clone(); s(1) = 2.0; d("copies-independent", 1, (*(RegularSurface<double>*)k)(1), Z(1)); d("copies-independent", 2, k->GetXMin(), x0); d("copies-independent", 3, k->GetYMax(), y0 + ly); delete k;
  RegularSurface<double> o(5, 6, 7, 8, 2, 2, 9.0); o.Swap(t); e("swap", 0, o.GetNI(), 3); e("swap", 1, t.GetNI(), 2); d("swap", 2, o.GetDX(), lx/2); d("swap", 3, t.GetDX(), 7.0); d("swap", 4, o.GetYMin(), y0); d("swap", 5, t.GetYMin(), 6.0); d("swap", 6, o.GetXMax(), x0 + lx); d("swap", 7, t.GetXMax(), 12.0); d("swap", 8, o.GetDY(), ly/3); d("swap", 9, t.GetDY(), 8.0); d("swap", 10, o.GetMissingValue(), 77.0); d("swap", 11, t.GetMissingValue(), -999.0); d("swap", 12, o(3), Z(3)); d("swap", 13, t(3), 9.0); d("swap", 14, o.GetXMin(), x0); d("swap", 15, t.GetXMin(), 5.0); d("swap", 16, o.GetYMax(), y0 + ly); d("swap", 17, t.GetYMax(), 14.0);
  Grid2D<double> g(3, 2, 4.0); g(1, 1) = V("g"); RegularSurface<double> h(x0, y0, lx, ly, g); d("from-grid", 0, h.GetDX(), lx/2); d("from-grid", 1, h.GetDY(), ly); d("from-grid", 2, h(1, 1), V("g")); d("from-grid", 3, h(0, 0), 4.0); d("from-grid", 4, h.GetXMin(), x0); d("from-grid", 5, h.GetYMin(), y0); d("from-grid", 6, h.GetXMax(), x0 + lx); d("from-grid", 7, h.GetYMax(), y0 + ly); }
// --- rotated
#define ROT double w = vp_real("w", -4, 4), cw = std::cos(w), sw = std::sin(w);
static double mn4(double a, double b, double c, double f) { double r = a; if (b < r) r = b; if (c < r) r = c; if (f < r) r = f; return r; }
static double mx4(double a, double b, double c, double f) { double r = a; if (b > r) r = b; if (c > r) r = c; if (f > r) r = f; return r; }
static void bounds(const char* r, long k, const RegularSurfaceRotated<double>& s, double x0, double y0, double lx, double ly, double w) { double cw = std::cos(w), sw = std::sin(w);
  d(r, k, s.GetXMin(), x0 + mn4(0, cw*lx, -sw*ly, cw*lx - sw*ly)); d(r, k + 1, s.GetXMax(), x0 + mx4(0, cw*lx, -sw*ly, cw*lx - sw*ly)); d(r, k + 2, s.GetYMin(), y0 + mn4(0, sw*lx, cw*ly, sw*lx + cw*ly)); d(r, k + 3, s.GetYMax(), y0 + mx4(0, sw*lx, cw*ly, sw*lx + cw*ly)); }
template<class S> static void rotated(S& s, double x0, double y0, double lx, double ly, double w, long k) { double cw = std::cos(w), sw = std::sin(w);
  for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { double x, y, a = lx/2*i, b = ly*j; s.GetXY(i, j, x, y); d("rotated-node", k + 2*(i + 3*j), x, x0 + cw*a - sw*b); d("rotated-node", k + 2*(i + 3*j) + 1, y, y0 + sw*a + cw*b); s.GetXY(i + 3*j, x, y); d("rotated-node", k + 50 + 2*(i + 3*j), x, x0 + cw*a - sw*b); d("rotated-node", k + 51 + 2*(i + 3*j), y, y0 + sw*a + cw*b); }
  bounds("rotated-bounds", k, s, x0, y0, lx, ly, w); }
ENTRY(rot_geometry) { DIMS ROT RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, w); rotated(s, x0, y0, lx, ly, w, 0); d("rotated-bounds", 90, s.GetAngle(), w); d("rotated-bounds", 91, s.GetXRef(), x0); d("rotated-bounds", 92, s.GetYRef(), y0); d("rotated-bounds", 93, s.GetDX(), lx/2); d("rotated-bounds", 94, s.GetDY(), ly); }
ENTRY(rot_from_surface) { DIMS ROT RegularSurface<double> r(x0, y0, lx, ly, 3, 2); fill(r, 0); r.SetMissingValue(55.0); RegularSurfaceRotated<double> s(r, w); rotated(s, x0, y0, lx, ly, w, 100); d("rotated-node", 999, s.GetMissingValue(), 55.0); d("rotated-node", 998, s(4), Z(4)); }
ENTRY(rot_from_grid) { DIMS ROT Grid2D<double> g(3, 2); for (int i = 0; i < 6; ++i) g(i) = Z(i); RegularSurfaceRotated<double> s(x0, y0, lx, ly, g, w); rotated(s, x0, y0, lx, ly, w, 200); d("rotated-node", 997, s(5), Z(5)); }
ENTRY(rot_changed) { DIMS ROT RegularSurfaceRotated<double> s(1, 2, 3, 4, 2, 5, w); s.Resize(3, 2); s.SetDimensions(x0, y0, lx, ly); rotated(s, x0, y0, lx, ly, w, 300); double w2 = vp_real("w2", -4, 4); s.SetAngle(w2); d("rotated-bounds", 390, s.GetAngle(), w2); rotated(s, x0, y0, lx, ly, w2, 400); }
template<int M> static void rotz() { DIMS ROT RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, w); fill(s, M); double a = lx*vp_real("rx", -0.9, 1.9), b = ly*vp_real("ry", -0.9, 1.9), u = a/(lx/2), v = b/ly, x = x0 + cw*a - sw*b, y = y0 + sw*a + cw*b;
  for (int k = -3; k < 6; ++k) vp_assume(std::fabs(u - k) > 1e-6 && std::fabs(v - k) > 1e-6);
  d("rotated-interpolation", 0, s.GetZ(x, y), bil(3, 2, M, u, v, false)); if (M == 0) d("rotated-interpolation", 1, s.GetZInside(x, y), bil(3, 2, M, u, v, true)); e("rotated-inside", 0, s.IsInsideSurface(x, y), a >= 0 && a <= lx && b >= 0 && b <= ly); }
ENTRY(rot_z_0) { rotz<0>(); } ENTRY(rot_z_8) { rotz<8>(); }
ENTRY(rot_clone) { DIMS ROT RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 2, w); fill(s, 0); Surface<double>* k = s.Clone(); RegularSurfaceRotated<double>& c = *(RegularSurfaceRotated<double>*)k; s.SetAngle(0.1); s(0) = 3.0; d("copies-independent", 10, c(0), Z(0)); d("copies-independent", 11, c.GetAngle(), w); rotated(c, x0, y0, lx, ly, w, 500); delete k; }
// the resampled surface agrees with the original at its nodes
template<int K> static void resample() { static const double ang[] = {0.0, 0.6, -0.4, 1.9, 3.0}; double w = ang[K], x0 = 1.25, y0 = -0.5; RegularSurfaceRotated<double> s(x0, y0, 2.5, 1.7, 3, 2, w); fill(s, K == 2 ? 1 : 0); s.SetMissingValue(-999.0);
  RegularSurface<double> r = s.ResampleSurface(); d("resampled", 0, r.GetXMin(), s.GetXMin()); d("resampled", 1, r.GetXMax(), s.GetXMax()); d("resampled", 2, r.GetYMin(), s.GetYMin()); d("resampled", 3, r.GetYMax(), s.GetYMax());
  long n = 0; for (size_t j = 0; j < r.GetNJ(); ++j) for (size_t i = 0; i < r.GetNI(); ++i, ++n) { double x = s.GetXMin() + r.GetDX()*i, y = s.GetYMin() + r.GetDY()*j; d("resampled", 10 + n, r(i, j), s.GetZ(x, y)); } }
ENTRY(resample_1) { resample<1>(); } ENTRY(resample_2) { resample<2>(); } ENTRY(resample_3) { resample<3>(); } ENTRY(resample_4) { resample<4>(); }
ENTRY(constant) { double z = V("z"); ConstantSurface<double> s(z); d("constant", 0, s.GetZ(V("x"), V("y")), z); s.Add(V("a")); s.Multiply(V("b")); double q = (z + V("a"))*V("b"); d("constant", 1, s.GetZ(V("x"), V("y")), q); d("constant", 2, s.Min(), q); d("constant", 3, s.Max(), q); d("constant", 4, s.GetZ(), q); e("constant", 5, s.EnclosesRectangle(-1e9, 1e9, -1e9, 1e9), 1); e("constant", 6, s.IsInsideSurface(V("x"), V("y")), 1); Surface<double>* k = s.Clone(); s.Add(1.0); d("constant", 7, k->GetZ(0, 0), q); delete k; }
// --- volumes
struct Vol : Volume { using Volume::Volume; using Volume::GlobalToLocalCoord; using Volume::LocalToGlobalCoord; };
ENTRY(vol_inside) { DIMS ROT double z0 = V("z0"), lz = L("lz"); Vol v(x0, y0, z0, lx, ly, lz, w); double a = lx*vp_real("rx", -0.9, 1.9), b = ly*vp_real("ry", -0.9, 1.9), z = z0 + lz*vp_real("rz", -1, 2), x = x0 + cw*a - sw*b, y = y0 + sw*a + cw*b;
  double t = 1e-6; vp_assume(std::fabs(a) > 1e-7 && std::fabs(b) > 1e-7 && std::fabs(a - lx) > 1e-7 && std::fabs(b - ly) > 1e-7 && std::fabs(z - z0) > 1e-7 && std::fabs(z - z0 - lz) > 1e-7);
  bool in = a >= 0 && a <= lx && b >= 0 && b <= ly; e("volume-inside", 0, v.IsInside(x, y), in); e("volume-inside", 1, v.IsInside(x, y, z), in && z > z0 && z < z0 + lz); double tol = vp_real("tol", 0.01, 2); vp_assume(std::fabs(z - z0 + tol) > 1e-7 && std::fabs(z - z0 - lz - tol) > 1e-7); e("volume-inside", 2, v.IsInsideZTolerance(x, y, z, tol), in && z > z0 - tol && z < z0 + lz + tol);
  v.SetTolerance(tol); vp_assume(std::fabs(a + tol) > 1e-7 && std::fabs(b + tol) > 1e-7 && std::fabs(a - lx - tol) > 1e-7 && std::fabs(b - ly - tol) > 1e-7); e("volume-inside", 3, v.IsInsideTolerance(x, y), a >= -tol && a <= lx + tol && b >= -tol && b <= ly + tol);
  double p, q; v.GlobalToLocalCoord(x, y, p, q); d("volume-coordinates", 0, p, a); d("volume-coordinates", 1, q, b); v.LocalToGlobalCoord(a, b, p, q); d("volume-coordinates", 2, p, x); d("volume-coordinates", 3, q, y); v.GetXYFromRelative(a/lx, b/ly, p, q); d("volume-coordinates", 4, p, x); d("volume-coordinates", 5, q, y);
  double c[3]; v.FindCenter(c[0], c[1], c[2]); d("volume-centre", 0, c[0], x0 + cw*lx/2 - sw*ly/2); d("volume-centre", 1, c[1], y0 + sw*lx/2 + cw*ly/2); d("volume-centre", 2, c[2], z0 + lz/2); d("volume-size", 0, v.GetLZ(), lz); d("volume-size", 1, v.GetLX(), lx); d("volume-size", 2, v.GetLY(), ly); d("volume-size", 3, v.GetAngle(), w); d("volume-size", 4, v.GetXMin(), x0); d("volume-size", 5, v.GetYMin(), y0); d("volume-size", 6, v.GetZMin(2, 2), z0); d("volume-size", 7, v.GetZMax(2, 2), z0 + lz); }
static void same(const char* r, long k, const Volume& a, const Volume& b) { d(r, k, a.GetXMin(), b.GetXMin()); d(r, k + 1, a.GetYMin(), b.GetYMin()); d(r, k + 2, a.GetLX(), b.GetLX()); d(r, k + 3, a.GetLY(), b.GetLY()); d(r, k + 4, a.GetLZ(), b.GetLZ()); d(r, k + 5, a.GetAngle(), b.GetAngle()); d(r, k + 6, const_cast<Volume&>(a).GetTolerance(), const_cast<Volume&>(b).GetTolerance()); d(r, k + 7, a.GetTopSurface().GetZ(1, 2), b.GetTopSurface().GetZ(1, 2)); d(r, k + 8, a.GetBotSurface().GetZ(1, 2), b.GetBotSurface().GetZ(1, 2)); }
ENTRY(vol_copy) { DIMS ROT Volume v(x0, y0, V("z0"), lx, ly, L("lz"), w); v.SetTolerance(0.5); ConstantSurface<double> et(V("et")), eb(V("eb")), t(V("t")), b(V("t") + L("h"));
  Volume c(v); same("volume-copy", 0, c, v); Volume o; o = v; same("volume-copy", 20, o, v); o = o; same("volume-copy", 40, o, v);
  ((ConstantSurface<double>&)v.GetTopSurface()).Add(1.0); d("volume-copy", 60, c.GetTopSurface().GetZ(0, 0), V("z0")); d("volume-copy", 61, o.GetTopSurface().GetZ(0, 0), V("z0")); ((ConstantSurface<double>&)v.GetBotSurface()).Add(1.0); d("volume-copy", 62, c.GetBotSurface().GetZ(0, 0), V("z0") + L("lz")); d("volume-copy", 63, o.GetBotSurface().GetZ(0, 0), V("z0") + L("lz")); }
ENTRY(vol_erosion) { Volume v; ConstantSurface<double> et(V("et")), eb(V("eb")), t(V("t")), b(V("b")); v.SetSurfaces(t, b, et, eb); d("volume-surfaces", 0, v.GetTopSurface().GetZ(0, 0), V("t")); d("volume-surfaces", 1, v.GetBotSurface().GetZ(0, 0), V("b")); d("volume-surfaces", 2, v.GetErosionTop().GetZ(0, 0), V("et")); d("volume-surfaces", 3, v.GetErosionBot().GetZ(0, 0), V("eb")); Volume c(v), o; o = c; d("volume-surfaces", 4, o.GetErosionTop().GetZ(0, 0), V("et")); d("volume-surfaces", 5, c.GetErosionBot().GetZ(0, 0), V("eb")); v.SetSurfaces(b, t); d("volume-surfaces", 6, v.GetTopSurface().GetZ(0, 0), V("b")); d("volume-surfaces", 7, v.GetBotSurface().GetZ(0, 0), V("t")); d("volume-surfaces", 8, c.GetTopSurface().GetZ(0, 0), V("t")); }
ENTRY(vol_cover) { DIMS ROT Vol v(x0, y0, 0, lx, ly, 1, w); double a = V("sx") - 3, b = V("sy") - 3, p = L("slx"), q = L("sly"); RegularSurface<double> s(a, b, p, q, 2, 2, 0.0);
  double xl = x0 + mn4(0, cw*lx, -sw*ly, cw*lx - sw*ly), xh = x0 + mx4(0, cw*lx, -sw*ly, cw*lx - sw*ly), yl = y0 + mn4(0, sw*lx, cw*ly, sw*lx + cw*ly), yh = y0 + mx4(0, sw*lx, cw*ly, sw*lx + cw*ly);
  vp_assume(std::fabs(xl - a) > 1e-7 && std::fabs(xh - a - p) > 1e-7 && std::fabs(yl - b) > 1e-7 && std::fabs(yh - b - q) > 1e-7); e("volume-covered", 0, v.CheckSurface(s), xl >= a && xh <= a + p && yl >= b && yh <= b + q); }
// boundaries belong to the surface
ENTRY(boundary) { RegularSurface<double> s(1.0, -2.0, 4.0, 3.0, 3, 4); double xs[] = {1, 5, 3}, ys[] = {-2, 1, 0}; long n = 0; for (double x : xs) for (double y : ys) e("boundary-inside", n++, s.IsInsideSurface(x, y), 1);
  e("boundary-inside", 20, s.EnclosesRectangle(1, 5, -2, 1), 1); e("boundary-inside", 21, s.EnclosesRectangle(0.999, 5, -2, 1), 0); e("boundary-inside", 22, s.EnclosesRectangle(1, 5.001, -2, 1), 0); e("boundary-inside", 23, s.EnclosesRectangle(1, 5, -2.001, 1), 0); e("boundary-inside", 24, s.EnclosesRectangle(1, 5, -2, 1.001), 0);
  e("boundary-inside", 30, s.IsInsideSurface(0.999, 0), 0); e("boundary-inside", 31, s.IsInsideSurface(5.001, 0), 0); e("boundary-inside", 32, s.IsInsideSurface(2, -2.001), 0); e("boundary-inside", 33, s.IsInsideSurface(2, 1.001), 0);
  Volume v(1.0, -2.0, 0.0, 4.0, 3.0, 2.0, 0.0); v.SetTolerance(0.0); e("boundary-inside", 40, v.IsInside(1, -2), 1); e("boundary-inside", 41, v.IsInside(5, 1), 1); e("boundary-inside", 42, v.IsInside(5.01, 1), 0); e("boundary-inside", 43, v.IsInside(5, 1.01), 0); e("boundary-inside", 44, v.IsInside(0.99, 1), 0); e("boundary-inside", 45, v.IsInside(5, -2.01), 0); }
// a volume under surfaces that vary and have holes
struct Step : Surface<double> { double a, b, at, p, q; Step(double a_, double b_, double at_) : a(a_), b(b_), at(at_), p(0), q(0) {}
  Surface<double>* Clone() const { return new Step(*this); } double GetZ(double x, double y) const { double z = b; if (x < at) z = a; if (p != 0) z += p*x + q*y; return z; } double GetZInside(double x, double y) const { return GetZ(x, y); }
  bool IsInsideSurface(double, double) const { return true; } bool EnclosesRectangle(double, double, double, double) const { return true; } void Add(double) {} void Multiply(double) {} void Assign(double) {} bool IsMissing(double z) const { return z == -999.0; } double GetMissingValue() const { return -999.0; }
  double Min() const { return a; } double Max() const { return b; } double GetXMin() const { return 0; } double GetXMax() const { return 1; } double GetYMin() const { return 0; } double GetYMax() const { return 1; } };
template<int K> static void extremes() { // four cells of 1 x 0.5 along x at y 0.25 and 0.75, turned by a quarter when K
  double w = K ? 1.57079632679489661923 : 0; Volume v(2.0, 3.0, 0.0, 4.0, 1.0, 1.0, w); double a = vp_real("a", 1, 2), c = vp_real("c", 1, 2), f = vp_real("f", 1, 2); Step t(1, 1, 0), b(2, 2, 0);
  v.SetSurfaces(t, b, true); Step& T = (Step&)v.GetTopSurface(); Step& B = (Step&)v.GetBotSurface(); T.a = T.b = 0; T.p = a; T.q = -c; B.a = B.b = 100; B.p = c*f; B.q = a; double p[4] = {1e30, -1e30, 1e30, -1e30}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) { double lx = 0.5 + i, ly = 0.25 + 0.5*j, x = K ? 2 - ly : 2 + lx, y = K ? 3 + lx : 3 + ly, zt = a*x - c*y, zb = 100 + c*x*f + a*y; if (zt < p[0]) p[0] = zt; if (zt > p[1]) p[1] = zt; if (zb < p[2]) p[2] = zb; if (zb > p[3]) p[3] = zb; }
  d("depth-extremes", 0, v.GetTopZMin(4, 2), p[0]); d("depth-extremes", 1, v.GetTopZMax(4, 2), p[1]); d("depth-extremes", 2, v.GetBotZMin(4, 2), p[2]); d("depth-extremes", 3, v.GetBotZMax(4, 2), p[3]); d("depth-extremes", 4, v.GetZMin(4, 2), p[0]); d("depth-extremes", 5, v.GetZMax(4, 2), p[3]); }
ENTRY(vol_extremes_holes) { double a = vp_real("a", 1, 2); for (int k = 0; k < 2; ++k) { Volume v(0, 0, 0, 4, 2, 1, 0); double p = k ? 1.5 : -999.0, q = k ? -999.0 : 1.5; Step t(p, q, 2.2), u(9, 9, 0); v.SetSurfaces(t, u); d("thickness", k, v.GetLZ(), 7.5); Step& T = (Step&)v.GetTopSurface(); if (k) T.a = a; else T.b = a; d("depth-extremes", 10 + k, v.GetTopZMin(4, 2), a); d("depth-extremes", 20 + k, v.GetTopZMax(4, 2), a); Volume b(0, 0, 0, 4, 2, 1, 0); b.SetSurfaces(u, t); Step& B = (Step&)b.GetBotSurface(); if (k) B.a = a; else B.b = a; d("depth-extremes", 30 + k, b.GetBotZMax(4, 2), a); d("depth-extremes", 40 + k, b.GetBotZMin(4, 2), a); d("thickness", 2 + k, b.GetLZ(), 0); } }
ENTRY(vol_thickness) { for (int k = 0; k < 2; ++k) { Volume v(0, 0, 0, 4, 2, 1, 0); double p = k ? 6 : 8.5, q = k ? 8.5 : 6; Step t(1, 1, 0), u(p, q, 2.2); v.SetSurfaces(t, u); d("thickness", 10 + k, v.GetLZ(), 7.5); } }
ENTRY(vol_unset) { Volume v; Step t(1, 2, 0), u(3, 4, 0); v.SetSurfaces(t, u); d("depth-extremes", 50, v.GetTopZMin(3, 3), 1); d("depth-extremes", 51, v.GetTopZMax(3, 3), 2); d("depth-extremes", 52, v.GetBotZMin(3, 3), 3); d("depth-extremes", 53, v.GetBotZMax(3, 3), 4); d("thickness", 20, v.GetLZ(), 0); }
ENTRY(vol_extremes_0) { extremes<0>(); } ENTRY(vol_extremes_1) { extremes<1>(); }

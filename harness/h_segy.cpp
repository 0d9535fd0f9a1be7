// SEG-Y geometries: positions, in-line / cross-line numbers and cells.
#include "vp.h"
#include <cmath>
#include <vector>
#include <string>
#include "nrlib/segy/segygeometry.hpp"
#include "nrlib/segy/segytrace.hpp"
#include "nrlib/surface/regularsurface.hpp"
#include "nrlib/surface/regularsurfacerotated.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/iotools/logkit.hpp"
using namespace NRLib;
// messages are not observed
void LogKit::LogMessage(int, const std::string&) {} void LogKit::LogMessage(int, int, const std::string&) {} void LogKit::LogFormatted(int, const char*, ...) {} void LogKit::LogFormatted(int, int, const char*, ...) {} void LogKit::WriteHeader(const std::string&, MessageLevels) {}
static double V(const char* n) { return vp_real(n, -5, 5); }
static double L(const char* n) { return vp_real(n, 0.5, 50); }
static bool far_(double x) { return (x < 0 ? -x : x) > 1e-6; }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
// a survey: lines il0, il0 + ils, ... (ni of them), xl0, xl0 + xls, ... (nj of them); one line number further is a step of (ax, ay) or (bx, by)
struct Survey { int il0, ils, ni, xl0, xls, nj; double ox, oy, ax, ay, bx, by; double x(double il, double xl) const { return ox + il*ax + xl*bx; } double y(double il, double xl) const { return oy + il*ay + xl*by; } };
static bool inside(const SegyGeometry& g, double x, double y, size_t& i, size_t& j) { try { g.FindIndex(x, y, i, j); return true; } catch (Exception&) { return false; } }
static bool inside(const SegyGeometry& g, int il, int xl, size_t& i, size_t& j) { try { g.FindIndex(il, xl, i, j); return true; } catch (Exception&) { return false; } }
static void lines(const SegyGeometry& g, const Survey& s) {
  e("line-range", 0, g.GetMinIL(), s.il0); e("line-range", 1, g.GetMaxIL(), s.il0 + (s.ni - 1)*s.ils); if (s.ni > 1) e("line-range", 2, g.GetILStep(), s.ils); e("line-range", 3, g.GetMinXL(), s.xl0); e("line-range", 4, g.GetMaxXL(), s.xl0 + (s.nj - 1)*s.xls); if (s.nj > 1) e("line-range", 5, g.GetXLStep(), s.xls); }
// every trace: position, lines and cell belong together
static void each(const SegyGeometry& g, const Survey& s, bool frame) { const long nx = g.GetNx(), ny = g.GetNy(); e("cells", 0, nx*ny, s.ni*s.nj); long k = 0;
  for (int a = 0; a < s.ni; ++a) for (int b = 0; b < s.nj; ++b, k += 20) { int il = s.il0 + a*s.ils, xl = s.xl0 + b*s.xls, I, X; double x = s.x(il, xl), y = s.y(il, xl), u, v;
    g.FindILXL(x, y, I, X); e("lines-at-position", k, I, il); e("lines-at-position", k + 1, X, xl); g.FindContILXL(x, y, u, v); d("lines-at-position", k + 2, u, il); d("lines-at-position", k + 3, v, xl);
    g.FindXYFromILXL(il, xl, u, v); d("position-of-lines", k, u, x); d("position-of-lines", k + 1, v, y); g.FindXYFromContILXL(il, xl, u, v); d("position-of-lines", k + 2, u, x); d("position-of-lines", k + 3, v, y);
    size_t i, j, p, q; bool in = inside(g, x, y, i, j); e("cell-of-position", k, in, 1); if (!in) continue; e("cell-of-position", k + 1, (long)i < nx && (long)j < ny, 1); e("cell-of-position", k + 2, g.FindIndex(x, y), (long)i + nx*(long)j); e("cell-of-position", k + 3, g.IsInside(x, y), 1);
    e("cell-of-lines", k, inside(g, il, xl, p, q), 1); e("cell-of-lines", k + 1, p, i); e("cell-of-lines", k + 2, q, j); g.FindILXL(i, j, I, X); e("lines-of-cell", k, I, il); e("lines-of-cell", k + 1, X, xl); g.FindXYFromIJ(i, j, u, v); d("position-of-cell", k, u, x); d("position-of-cell", k + 1, v, y);
    g.FindContIndexFromContILXL(il, xl, u, v); d("cell-of-lines", k + 3, u, i + 0.5); d("cell-of-lines", k + 4, v, j + 0.5);
    if (frame) { double c = g.GetCosRot(), w = g.GetSinRot(); d("frame", k, g.GetX0() + (i + 0.5)*g.GetDx()*c - (j + 0.5)*g.GetDy()*w, x); d("frame", k + 1, g.GetY0() + (i + 0.5)*g.GetDx()*w + (j + 0.5)*g.GetDy()*c, y); } }
  size_t p, q; e("cell-of-lines", 9001, inside(g, s.il0 + s.ni*s.ils, s.xl0, p, q), 0); e("cell-of-lines", 9002, inside(g, s.il0, s.xl0 + s.nj*s.xls, p, q), 0); e("cell-of-lines", 9003, inside(g, s.il0 - s.ils, s.xl0, p, q), 0); e("cell-of-lines", 9004, inside(g, s.il0, s.xl0 - s.xls, p, q), 0);
  d("frame", 9000, g.GetCosRot(), std::cos(g.GetAngle())); d("frame", 9001, g.GetSinRot(), std::sin(g.GetAngle())); d("frame", 9002, g.Getlx(), nx*g.GetDx()); d("frame", 9003, g.Getly(), ny*g.GetDy()); }
// any point, given in the geometry's own frame
static void point(const SegyGeometry& g) { double u = vp_real("u", -1.5, 6), v = vp_real("v", -1.5, 6), c = g.GetCosRot(), w = g.GetSinRot(); double nx = g.GetNx(), ny = g.GetNy(); vp_assume(far_(u) && far_(v) && far_(u - nx) && far_(v - ny) && far_(u - std::floor(u + 0.5)) && far_(v - std::floor(v + 0.5)) && far_(u - std::floor(u) - 0.5) && far_(v - std::floor(v) - 0.5)); double x = g.GetX0() + u*g.GetDx()*c - v*g.GetDy()*w, y = g.GetY0() + u*g.GetDx()*w + v*g.GetDy()*c, s, t; bool in = u >= 0 && v >= 0 && u < nx && v < ny;
  e("any-point", 0, g.FindContIndex(x, y, s, t), in); d("any-point", 1, s, u); d("any-point", 2, t, v); e("any-point", 3, g.IsInside(x, y), in); size_t i, j; bool got = inside(g, x, y, i, j); e("any-point", 4, got, in); if (got) { e("any-point", 5, i, (long)std::floor(u)); e("any-point", 6, j, (long)std::floor(v)); }
  double il, xl, X, Y; g.FindContILXL(x, y, il, xl); g.FindXYFromContILXL(il, xl, X, Y); d("any-point", 7, X, x); d("any-point", 8, Y, y); g.FindContIndexFromContILXL(il, xl, s, t); d("any-point", 9, s, u); d("any-point", 10, t, v); int I, J; g.FindILXL(x, y, I, J); e("any-point", 11, I, (long)std::floor(il + 0.5)); e("any-point", 12, J, (long)std::floor(xl + 0.5)); }
// --- from traces: directions, orders, steps, missing traces
static const double DX[] = {1, 0.8, 0.6, 0, -0.6, -0.8, -1, -0.8, -0.6, 0, 0.6, 0.8}, DY[] = {0, 0.6, 0.8, 1, 0.8, 0.6, 0, -0.6, -0.8, -1, -0.8, -0.6};
static Survey survey(int k, bool mirror, int ni, int nj, int ils, int xls) { double c = DX[k], w = DY[k], m = mirror ? -1 : 1; Survey s = {5, ils, ni, 20, xls, nj, 1000, 2000, 25*c, 25*w, -12.5*w*m, 12.5*c*m}; return s; }
static void traces(const Survey& s, int order, unsigned gone, std::vector<SegYTrace*>& t) { for (int n = 0; n < s.ni*s.nj; ++n) { int k = order & 4 ? s.ni*s.nj - 1 - n : n; int a = order & 1 ? k % s.ni : k / s.nj, b = order & 1 ? k / s.ni : k % s.nj; if (order & 2) b = s.nj - 1 - b; int il = s.il0 + a*s.ils, xl = s.xl0 + b*s.xls; if (gone >> n & 1) t.push_back(0); else t.push_back(new SegYTrace(std::vector<float>(1, 0.0f), 0, 0, s.x(il, xl), s.y(il, xl), il, xl)); } }
static void from_traces(const Survey& s, int order, unsigned gone, bool frame = true) { std::vector<SegYTrace*> t, all; traces(s, order, gone, t); all = t; SegyGeometry g(t); lines(g, s); each(g, s, frame);
  e("traces-sorted", 0, t.size(), s.ni*s.nj); long n = 0; for (size_t k = 0; k < t.size(); ++k) if (t[k]) { ++n; e("traces-sorted", 10 + 2*k, g.FindIndex(t[k]->GetX(), t[k]->GetY()), k); e("traces-sorted", 11 + 2*k, t[k]->GetTableIndex(), k); } long m = 0; for (size_t k = 0; k < all.size(); ++k) if (all[k]) ++m; e("traces-sorted", 1, n, m); for (size_t k = 0; k < all.size(); ++k) delete all[k]; }
template<int K> static void dirs() { for (int m = 0; m < 2; ++m) for (int o = 0; o < 8; o += 3) from_traces(survey(K, m, 3, 2, 1, 1), o, 0); from_traces(survey(K, false, 2, 3, 2, 5), K % 8, 0); from_traces(survey(K, true, 2, 4, 3, 2), (K + 5) % 8, 0x4); from_traces(survey(K, K & 1, 3, 3, 1, 1), 0, K & 2 ? 0x6 : 0xc1); from_traces(survey(K, !(K & 1), 3, 3, 1, 2), 0, 0x103); }
#define D(K) ENTRY(dir_##K) { dirs<K>(); }
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11)
ENTRY(trace_point_0) { std::vector<SegYTrace*> t; Survey s = survey(1, false, 3, 2, 1, 2); traces(s, 0, 0, t); std::vector<SegYTrace*> all = t; SegyGeometry g(t); point(g); for (size_t k = 0; k < all.size(); ++k) delete all[k]; }
ENTRY(trace_point_1) { std::vector<SegYTrace*> t; Survey s = survey(5, true, 2, 4, 3, 1); traces(s, 3, 0, t); std::vector<SegYTrace*> all = t; SegyGeometry g(t); point(g); for (size_t k = 0; k < all.size(); ++k) delete all[k]; }
ENTRY(trace_point_2) { std::vector<SegYTrace*> t; Survey s = survey(8, false, 4, 2, 1, 1); traces(s, 5, 0, t); std::vector<SegYTrace*> all = t; SegyGeometry g(t); point(g); for (size_t k = 0; k < all.size(); ++k) delete all[k]; }
// one line only, along either numbering, in both orders
template<int K> static void single() { for (int o = 0; o < 8; o += 2) { Survey s = survey(K, false, 5, 1, 1, 1); double l = std::sqrt(s.ax*s.ax + s.ay*s.ay); (void)l; s.bx = s.ay; s.by = -s.ax; from_traces(s, o, 0); Survey t = survey(K, false, 1, 5, 1, 1); t.ax = -t.by; t.ay = t.bx; from_traces(t, o, 0); } }
#define SI(K) ENTRY(single_##K) { single<K>(); }
SI(0) SI(1) SI(2) SI(3) SI(5) SI(6) SI(8) SI(9) SI(10)
ENTRY(one_trace) { double x = V("x"), y = V("y"); int il = vp_i32("il", -500, 500), xl = vp_i32("xl", -500, 500); std::vector<SegYTrace*> t; t.push_back(new SegYTrace(std::vector<float>(1, 0.0f), 0, 0, x, y, il, xl)); SegyGeometry g(t); Survey s = {il, 1, 1, xl, 1, 1, 0, 0, 0, 0, 0, 0}; lines(g, s); int I, X; double u, v; g.FindContILXL(x, y, u, v); d("lines-at-position", 0, u, il); d("lines-at-position", 1, v, xl); g.FindXYFromILXL(il, xl, u, v); d("position-of-lines", 0, u, x); d("position-of-lines", 1, v, y); size_t i, j; e("cell-of-position", 0, inside(g, x, y, i, j), 1); e("cell-of-position", 1, i + j, 0); g.FindILXL((size_t)0, (size_t)0, I, X); e("lines-of-cell", 0, I, il); e("lines-of-cell", 1, X, xl); point(g); delete t[0]; }
ENTRY(no_trace) { std::vector<SegYTrace*> t; bool r = false; try { SegyGeometry g(t); } catch (Exception&) { r = true; } e("bad-traces-rejected", 0, r, 1); }
// a trace that is not where its lines say is rejected
ENTRY(bad_trace) { double q = vp_real("q", -40, 40), lim = 6.25; vp_assume(far_(q*q - lim*lim)); Survey s = survey(1, false, 3, 3, 1, 1); std::vector<SegYTrace*> t; traces(s, 0, 0x10, t); int il = 6, xl = 21; t[4] = new SegYTrace(std::vector<float>(1, 0.0f), 0, 0, s.x(il, xl) + 0.6*q, s.y(il, xl) - 0.8*q, il, xl); std::vector<SegYTrace*> all = t; bool r = false; try { SegyGeometry g(t); } catch (Exception&) { r = true; } e("bad-traces-rejected", 1, r, (q < 0 ? -q : q) > lim); for (size_t k = 0; k < all.size(); ++k) delete all[k]; }
// --- from given parameters
static void sizes(int k, int& nx, int& ny) { nx = k == 0 ? 4 : k == 1 ? 2 : 3; ny = k == 0 ? 2 : k == 1 ? 5 : 3; }
template<int K> static void internal() { int nx, ny; sizes(K, nx, ny); double x0 = V("x0"), y0 = V("y0"), dx = L("dx"), dy = L("dy"), w = vp_real("w", -3, 3), c = std::cos(w), s = std::sin(w); vp_assume(far_(c) && far_(s)); SegyGeometry g(x0, y0, dx, dy, nx, ny, w); e("cells", 0, g.GetNx(), nx); e("cells", 1, g.GetNy(), ny); d("frame", 0, g.GetX0(), x0); d("frame", 1, g.GetY0(), y0); d("frame", 2, g.GetDx(), dx); d("frame", 3, g.GetDy(), dy); d("frame", 4, g.GetAngle(), w); point(g);
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { long k = 20*(i + nx*j); int I, J; size_t p, q; g.FindILXL((size_t)i, (size_t)j, I, J); e("lines-of-cell", k, I >= g.GetMinIL() && I <= g.GetMaxIL() && J >= g.GetMinXL() && J <= g.GetMaxXL(), 1); e("cell-of-lines", k, inside(g, I, J, p, q), 1); e("cell-of-lines", k + 1, p, i); e("cell-of-lines", k + 2, q, j); double X, Y; g.FindXYFromIJ(i, j, X, Y); d("position-of-cell", k, X, x0 + (i + 0.5)*dx*c - (j + 0.5)*dy*s); d("position-of-cell", k + 1, Y, y0 + (i + 0.5)*dx*s + (j + 0.5)*dy*c); } e("cells", 2, (g.GetMaxIL() - g.GetMinIL() + 1)*(g.GetMaxXL() - g.GetMinXL() + 1), nx*ny); }
ENTRY(internal_0) { internal<0>(); } ENTRY(internal_1) { internal<1>(); } ENTRY(internal_2) { internal<2>(); }
template<int K> static void given() { int nx, ny; sizes(K % 3, nx, ny); const bool first = K & 1; const int si = K & 2 ? -3 : 2, sx = K & 4 ? -1 : 4, il = 40, xl = 70; double x0 = V("x0"), y0 = V("y0"), dx = L("dx"), dy = L("dy"), w = vp_real("w", -3, 3), c = std::cos(w), s = std::sin(w); vp_assume(far_(c) && far_(s)); // first: the in-line number changes along the first axis
  double ia = first ? si*c/dx : -si*s/dy, ib = first ? si*s/dx : si*c/dy, xa = first ? -sx*s/dy : sx*c/dx, xb = first ? sx*c/dy : sx*s/dx; SegyGeometry g(x0, y0, dx, dy, nx, ny, il - 0.5*si, xl - 0.5*sx, ia, ib, xa, xb, w);
  int ni = first ? nx : ny, nj = first ? ny : nx, as = si < 0 ? -si : si, bs = sx < 0 ? -sx : sx; Survey v = {si < 0 ? il - (ni - 1)*as : il, as, ni, sx < 0 ? xl - (nj - 1)*bs : xl, bs, nj, 0, 0, 0, 0, 0, 0}; lines(g, v); point(g); e("line-range", 10, g.GetIL0(), il); e("line-range", 11, g.GetXL0(), xl);
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { long k = 20*(i + nx*j); int I, J; size_t p, q; int il1 = il + si*(first ? i : j), xl1 = xl + sx*(first ? j : i); g.FindILXL((size_t)i, (size_t)j, I, J); e("lines-of-cell", k, I, il1); e("lines-of-cell", k + 1, J, xl1); e("cell-of-lines", k, inside(g, il1, xl1, p, q), 1); e("cell-of-lines", k + 1, p, i); e("cell-of-lines", k + 2, q, j); double X, Y; g.FindXYFromIJ(i, j, X, Y); d("position-of-cell", k, X, x0 + (i + 0.5)*dx*c - (j + 0.5)*dy*s); d("position-of-cell", k + 1, Y, y0 + (i + 0.5)*dx*s + (j + 0.5)*dy*c); }
  SegyGeometry h(&g); d("copy", 0, h.GetX0(), x0); d("copy", 1, h.GetY0(), y0); d("copy", 2, h.GetDx(), dx); d("copy", 3, h.GetDy(), dy); e("copy", 4, h.GetNx(), nx); e("copy", 5, h.GetNy(), ny); d("copy", 6, h.GetAngle(), w); d("copy", 7, h.GetInLine0(), il - 0.5*si); d("copy", 8, h.GetCrossLine0(), xl - 0.5*sx); d("copy", 9, h.GetILStepX(), ia); d("copy", 10, h.GetILStepY(), ib); d("copy", 11, h.GetXLStepX(), xa); d("copy", 12, h.GetXLStepY(), xb); d("copy", 13, h.GetCosRot(), c); d("copy", 14, h.GetSinRot(), s); lines(h, v); e("copy", 15, h.GetFirstAxisIL(), first); e("copy", 16, h.GetIL0(), il); e("copy", 17, h.GetXL0(), xl); }
#define GV(K) ENTRY(given_##K) { given<K>(); }
GV(0) GV(1) GV(2) GV(3) GV(4) GV(5) GV(6) GV(7)
// --- from surfaces: one cell per surface cell
ENTRY(surface) { double x0 = V("x0"), y0 = V("y0"), lx = L("lx"), ly = L("ly"); RegularSurface<double> s(x0, y0, lx, ly, 5, 3, 0.0); SegyGeometry g(s); e("cells", 0, g.GetNx(), 4); e("cells", 1, g.GetNy(), 2); d("frame", 0, g.GetX0(), x0); d("frame", 1, g.GetY0(), y0); d("frame", 2, g.Getlx(), lx); d("frame", 3, g.Getly(), ly); d("frame", 4, g.GetAngle(), 0); point(g); for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) { double X, Y; g.FindXYFromIJ(i, j, X, Y); d("position-of-cell", 2*(i + 4*j), X, x0 + (i + 0.5)*lx/4); d("position-of-cell", 2*(i + 4*j) + 1, Y, y0 + (j + 0.5)*ly/2); int I, J; size_t p, q; g.FindILXL((size_t)i, (size_t)j, I, J); e("cell-of-lines", 20*(i + 4*j), inside(g, I, J, p, q), 1); e("cell-of-lines", 20*(i + 4*j) + 1, p + 4*q, i + 4*j); } }
ENTRY(rotated) { double x0 = V("x0"), y0 = V("y0"), lx = L("lx"), ly = L("ly"), w = vp_real("w", -3, 3), c = std::cos(w), t = std::sin(w); vp_assume(far_(c) && far_(t)); RegularSurfaceRotated<double> s(x0, y0, lx, ly, 3, 6, w, 0.0); SegyGeometry g(s); e("cells", 0, g.GetNx(), 2); e("cells", 1, g.GetNy(), 5); d("frame", 0, g.GetX0(), x0); d("frame", 1, g.GetY0(), y0); d("frame", 2, g.Getlx(), lx); d("frame", 3, g.Getly(), ly); d("frame", 4, g.GetAngle(), w); point(g); for (int i = 0; i < 2; ++i) for (int j = 0; j < 5; ++j) { double X, Y, u = (i + 0.5)*lx/2, v = (j + 0.5)*ly/5; g.FindXYFromIJ(i, j, X, Y); d("position-of-cell", 2*(i + 2*j), X, x0 + u*c - v*t); d("position-of-cell", 2*(i + 2*j) + 1, Y, y0 + u*t + v*c); int I, J; size_t p, q; g.FindILXL((size_t)i, (size_t)j, I, J); e("cell-of-lines", 20*(i + 2*j), inside(g, I, J, p, q), 1); e("cell-of-lines", 20*(i + 2*j) + 1, p + 2*q, i + 2*j); } }
// --- set up from a reference trace, for any direction
template<int M, int Q> static void setup() { double w = vp_real("w", 0.02, 0.76) + Q*0.78539816339744830962, a = L("a"), b = L("b"), m = M ? -1 : 1, c = std::cos(w), s = std::sin(w); Survey v = {5, 2, 3, 20, 3, 2, V("ox"), V("oy"), a*c, a*s, -m*b*s, m*b*c}; SegyGeometry g; g.SetupGeometry(v.x(7, 23), v.y(7, 23), 7, 23, 5, 9, 20, 23, v.ax, v.ay, v.bx, v.by, 2, 3); g.FindILXLGeometry(5, 9, 2, 20, 23, 3); lines(g, v); double x = V("x"), y = V("y"), p, q, X, Y; g.FindContILXL(x, y, p, q); d("lines-at-position", 9000, v.x(p, q), x); d("lines-at-position", 9001, v.y(p, q), y); g.FindXYFromContILXL(p, q, X, Y); d("position-of-lines", 9000, X, x); d("position-of-lines", 9001, Y, y); each(g, v, true); }
#define SU(Q) ENTRY(setup_0_##Q) { setup<0, Q>(); } ENTRY(setup_1_##Q) { setup<1, Q>(); }
SU(0) SU(1) SU(2) SU(3) SU(4) SU(5) SU(6) SU(7)
// skewed lines
ENTRY(skewed) { double ax = V("ax"), ay = V("ay"), bx = V("bx"), by = V("by"); vp_assume(std::fabs(ax*by - ay*bx) > 1 && std::fabs(ax) > 0.1 && std::fabs(ay) > 0.1 && std::fabs(bx) > 0.1 && std::fabs(by) > 0.1); Survey v = {5, 1, 3, 20, 1, 2, V("ox"), V("oy"), ax, ay, bx, by}; SegyGeometry g; g.SetupGeometry(v.x(6, 21), v.y(6, 21), 6, 21, 5, 7, 20, 21, ax, ay, bx, by, 1, 1); double x = V("x"), y = V("y"), p, q, X, Y; g.FindContILXL(x, y, p, q); d("lines-at-position", 0, v.x(p, q), x); d("lines-at-position", 1, v.y(p, q), y); g.FindXYFromContILXL(p, q, X, Y); d("position-of-lines", 0, X, x); d("position-of-lines", 1, Y, y); }
template<int K> static void skew() { double ax = K == 1 ? 0 : vp_real("ax", 0.5, 5), ay = K == 0 ? 0 : vp_real("ay", 0.5, 5), bx = K == 2 ? 0 : vp_real("bx", -5, -0.5), by = K == 3 ? 0 : vp_real("by", 0.5, 5); Survey v = {5, 1, 3, 20, 1, 2, V("ox"), V("oy"), ax, ay, bx, by}; SegyGeometry g; g.SetupGeometry(v.x(6, 21), v.y(6, 21), 6, 21, 5, 7, 20, 21, ax, ay, bx, by, 1, 1); double x = V("x"), y = V("y"), p, q, X, Y; g.FindContILXL(x, y, p, q); d("lines-at-position", 0, v.x(p, q), x); d("lines-at-position", 1, v.y(p, q), y); g.FindXYFromContILXL(p, q, X, Y); d("position-of-lines", 0, X, x); d("position-of-lines", 1, Y, y); }
ENTRY(skew_0) { skew<0>(); } ENTRY(skew_1) { skew<1>(); } ENTRY(skew_2) { skew<2>(); } ENTRY(skew_3) { skew<3>(); }
// --- parts of a geometry
static SegyGeometry* sub(SegyGeometry& g, int a, int b, int c, int f, int s, int t, bool& ip, bool& al, bool& ok) { int v[] = {a, b, c, f, s, t}; std::vector<int> r(v, v + 6); ok = true; try { return g.GetILXLSubGeometry(r, ip, al); } catch (Exception&) { ok = false; return 0; } }
template<int K> static void part() { int nx = 6, ny = 8; const bool first = K & 1; const int si = K & 2 ? -3 : 3, sx = K & 4 ? -2 : 2, il = 40, xl = 70; double x0 = V("x0"), y0 = V("y0"), dx = L("dx"), dy = L("dy"), w = vp_real("w", -3, 3), c = std::cos(w), s = std::sin(w); vp_assume(far_(c) && far_(s));
  double ia = first ? si*c/dx : -si*s/dy, ib = first ? si*s/dx : si*c/dy, xa = first ? -sx*s/dy : sx*c/dx, xb = first ? sx*c/dy : sx*s/dx; SegyGeometry g(x0, y0, dx, dy, nx, ny, il - 0.5*si, xl - 0.5*sx, ia, ib, xa, xb, w); int ni = first ? nx : ny, nj = first ? ny : nx, i0 = si < 0 ? il - (ni - 1)*3 : il, i1 = i0 + (ni - 1)*3, j0 = sx < 0 ? xl - (nj - 1)*2 : xl, j1 = j0 + (nj - 1)*2; bool ip, al, ok;
  const int A[] = {3, 9, 2, 8, -1, -1,  3, 9, 2, 8, 6, 2,  4, 9, 2, 8, -1, -1,  3, 10, 2, 7, 3, 2,  3, 9, 2, 8, 3, 3,  0, (ni - 1)*3, 0, (nj - 1)*2, -1, -1,  5, 12, 3, 8, 3, 2}, R[] = {3, 9, 2, 8, 3, 2, 0, 0,  3, 9, 2, 8, 6, 2, 0, 0,  3, 9, 2, 8, 3, 2, 0, 1,  3, 12, 2, 8, 3, 2, 0, 1,  3, 9, 2, 8, 3, 3, 1, 0,  0, (ni - 1)*3, 0, (nj - 1)*2, 3, 2, 0, 0,  6, 12, 4, 8, 3, 2, 0, 1};
  for (int k = 0; k < 7; ++k) { const int* a = A + 6*k; const int* r = R + 8*k; SegyGeometry* h = sub(g, i0 + a[0], i0 + a[1], j0 + a[2], j0 + a[3], a[4], a[5], ip, al, ok); e("part", 100*k, ok, 1); if (!ok) continue; e("part", 100*k + 1, ip, r[6]); if (!ip) e("part", 100*k + 2, al, r[7]); int m = (r[1] - r[0])/r[4] + 1, n = (r[3] - r[2])/r[5] + 1; Survey v = {i0 + r[0], r[4], m, j0 + r[2], r[5], n, 0, 0, 0, 0, 0, 0}; if (r[6]) { v.nj = (r[3] - r[2])/r[5] + 1; delete h; continue; } lines(*h, v); e("part", 100*k + 3, h->GetNx(), first ? m : n); e("part", 100*k + 4, h->GetNy(), first ? n : m);
    for (int p = 0; p < m; p += m > 1 ? m - 1 : 1) for (int q = 0; q < n; q += n > 1 ? n - 1 : 1) { double X, Y, U, W; int I = i0 + r[0] + p*r[4], J = j0 + r[2] + q*r[5]; g.FindXYFromILXL(I, J, X, Y); h->FindXYFromILXL(I, J, U, W); d("part", 100*k + 10 + 4*p + 40*q, U, X); d("part", 100*k + 11 + 4*p + 40*q, W, Y); size_t s1, s2, t1, t2; inside(*h, I, J, s1, s2); inside(*h, X, Y, t1, t2); e("part", 100*k + 12 + 4*p + 40*q, s1, t1); e("part", 100*k + 13 + 4*p + 40*q, s2, t2); } delete h; }
  const int B[] = {-1, 9, 0, 4,  0, (ni - 1)*3 + 1, 0, 4,  0, 9, -1, 4,  0, 9, 0, (nj - 1)*2 + 1}; for (int k = 0; k < 4; ++k) { const int* a = B + 4*k; SegyGeometry* h = sub(g, i0 + a[0], i0 + a[1], j0 + a[2], j0 + a[3], -1, -1, ip, al, ok); e("part-rejected", k, ok, 0); if (ok) delete h; } (void)i1; (void)j1; }
ENTRY(part_0) { part<0>(); } ENTRY(part_1) { part<1>(); } ENTRY(part_2) { part<2>(); } ENTRY(part_3) { part<3>(); } ENTRY(part_5) { part<5>(); } ENTRY(part_6) { part<6>(); }
// the lines that cover another geometry
template<int K> static void area() { const int si = K & 1 ? -3 : 3, sx = K & 2 ? -2 : 2, nx = 9, ny = 12, il = 400, xl = 700; SegyGeometry g(0, 0, 10, 20, nx, ny, il - 0.5*si, xl - 0.5*sx, si/10.0, 0, 0, sx/20.0, 0); double x0 = vp_real("x0", -20, 80), y0 = vp_real("y0", -20, 200), w = vp_real("w", -3, 3), c = std::cos(w), s = std::sin(w), lx = vp_real("lx", 5, 50), ly = vp_real("ly", 5, 50); SegyGeometry h(x0, y0, lx/4, ly/2, 4, 2, w); std::vector<int> a = g.findAreaILXL(&h); e("area", 0, a.size(), 6); const int i0 = g.GetMinIL(), i1 = g.GetMaxIL(), j0 = g.GetMinXL(), j1 = g.GetMaxXL();
  double lo = 1e9, hi = -1e9, mo = 1e9, mi = -1e9; for (int k = 0; k < 4; ++k) { double X = x0 + (k & 1 ? lx*c : 0) - (k & 2 ? ly*s : 0), Y = y0 + (k & 1 ? lx*s : 0) + (k & 2 ? ly*c : 0), p = il + si*(X/10 - 0.5), q = xl + sx*(Y/20 - 0.5); if (p < lo) lo = p; if (p > hi) hi = p; if (q < mo) mo = q; if (q > mi) mi = q; }
  vp_assume(hi > i0 + 4 && lo < i1 - 4 && mi > j0 + 4 && mo < j1 - 4); // they meet
  vp_assume(far_(lo - std::floor(lo + 0.5)) && far_(hi - std::floor(hi + 0.5)) && far_(mo - std::floor(mo + 0.5)) && far_(mi - std::floor(mi + 0.5)));
  e("area", 1, a[4], 3); e("area", 2, a[5], 2); e("area", 3, a[0] >= i0 && a[1] <= i1 && a[2] >= j0 && a[3] <= j1, 1); e("area", 4, (a[0] - i0) % 3 == 0 && (a[1] - i0) % 3 == 0 && (a[2] - j0) % 2 == 0 && (a[3] - j0) % 2 == 0, 1); vp_true("area", 5, a[0] == i0 || (a[0] <= lo && lo < a[0] + 4)); vp_true("area", 6, a[1] == i1 || (a[1] >= hi && hi > a[1] - 4)); vp_true("area", 7, a[2] == j0 || (a[2] <= mo && mo < a[2] + 3)); vp_true("area", 8, a[3] == j1 || (a[3] >= mi && mi > a[3] - 3)); }
ENTRY(area_0) { area<0>(); } ENTRY(area_1) { area<1>(); } ENTRY(area_2) { area<2>(); }

// Kriging, conditional normal distributions and sample statistics.
#include "vp.h"
#include <cmath>
#include <vector>
#include <list>
#include <string>
#include "nrlib/statistics/kriging.hpp"
#include "nrlib/statistics/statistics.hpp"
#include "nrlib/statistics/posteriormultinormal.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/statistics/multinormal.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/iotools/logkit.hpp"
using namespace NRLib;
void LogKit::LogMessage(int, const std::string&) {} void LogKit::LogMessage(int, int, const std::string&) {} void LogKit::LogFormatted(int, const char*, ...) {} void LogKit::LogFormatted(int, int, const char*, ...) {} void LogKit::WriteHeader(const std::string&, MessageLevels) {}
extern bool may_fail; // in h_blas.cpp: reference routines for the linear-algebra library
static double V(const char* n) { return vp_real(n, -5, 5); }
static double P(const char* n) { return vp_real(n, 0.5, 4); }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
static bool near_(double a, double b) { return std::fabs(a - b) < 0.3; }
// weights by Cramer's rule for up to three data
struct Sys { int n; double k[3][3]; double det() const { return n == 0 ? 1 : n == 1 ? k[0][0] : n == 2 ? k[0][0]*k[1][1] - k[0][1]*k[1][0] : k[0][0]*(k[1][1]*k[2][2] - k[1][2]*k[2][1]) - k[0][1]*(k[1][0]*k[2][2] - k[1][2]*k[2][0]) + k[0][2]*(k[1][0]*k[2][1] - k[1][1]*k[2][0]); }
  void solve(const double* b, double* x) const { double q = det(); for (int c = 0; c < n; ++c) { Sys s = *this; for (int r = 0; r < n; ++r) s.k[r][c] = b[r]; x[c] = s.det()/q; } } };
static const char* N3[3][4] = {{"x0", "y0", "z0", "s0"}, {"x1", "y1", "z1", "s1"}, {"x2", "y2", "z2", "s2"}};
static const char* M3[3][4] = {{"u0", "v0", "m0", "t0"}, {"u1", "v1", "m1", "t1"}, {"u2", "v2", "m2", "t2"}};
// --- one dimension
static void krig1(unsigned known, int n) { GenExpVario v(1.5, P("r"), 1, 1, 0, 0, P("sd")); double dx = P("dx"); std::vector<double> f, t, o; std::vector<bool> k; std::vector<int> at_; static const char* T[] = {"t0", "t1", "t2", "t3", "t4", "t5"}; for (int i = 0; i < n; ++i) { f.push_back(V(T[i])); k.push_back(known >> i & 1); if (known >> i & 1) { o.push_back(V(N3[at_.size()][2])); at_.push_back(i); } } t = f;
  Kriging::Krig1D(f, k, o, dx, v); Sys s; s.n = at_.size(); double b[3], w[3]; for (int i = 0; i < s.n; ++i) { b[i] = o[i] - t[at_[i]]; for (int j = 0; j < s.n; ++j) s.k[i][j] = v.GetCorr(dx*(at_[i] - at_[j])); } s.solve(b, w); e("size", 0, f.size(), n); for (int i = 0; i < n; ++i) { if (known >> i & 1) continue; double z = t[i]; for (int q = 0; q < s.n; ++q) z += w[q]*v.GetCorr(dx*(i - at_[q])); d("prediction", i, f[i], z); } for (int q = 0; q < s.n; ++q) d("data-honoured", q, f[at_[q]], o[q]); }
ENTRY(line_1) { krig1(0x4, 5); } ENTRY(line_2) { krig1(0x12, 5); } ENTRY(line_3) { krig1(0x29, 6); } ENTRY(line_all) { krig1(0x3, 2); }
// --- nodes of a grid (single-precision covariances)
static void field(Grid2D<double>& g, int nx, int ny) { g = Grid2D<double>(nx, ny, 0.0); double a = V("a"), b = V("b"), c = V("c"), q = V("q"); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) g(i, j) = a + b*i*0.3 + c*j*0.2 + q*i*j*0.1; }
struct Node { int i, j; };
static void nodes(int nx, int ny, const Node* p, int n, bool res, bool all, double P_, bool dup) { GenExpVario v(1.2, 6.0, 4.0, 1.0, 0.4, 0, 1.0); CovGrid2D cov(v, nx, ny, 1.0, 1.5); Grid2D<double> g; field(g, nx, ny); Grid2D<double> t = g; NodalKrigingData2D k; float z[3]; for (int q = 0; q < n; ++q) { z[q] = vp_float(N3[q][2], -5, 5); k.AddData(p[q].i, p[q].j, z[q]); } if (dup) { float w = vp_float("w", -5, 5); k.AddData(p[0].i, p[0].j, w); k.AddData(0, 0, 99999.0f); z[0] = (z[0] + w)/2; } k.FindMeanValues(); k.FindMeanValues(); e("data", 0, k.GetNumberOfData(), n); for (int q = 0; q < n; ++q) { e("data", 1 + 3*q, k.GetIndexI(q), p[q].i); e("data", 2 + 3*q, k.GetIndexJ(q), p[q].j); d("data", 3 + 3*q, k.GetData(q), z[q]); }
  if (P_ > 0) Kriging::Krig2D(g, k, cov, res, all, P_); else Kriging::Krig2D(g, k, cov, res, all);
  Sys s; s.n = n; double b[3], w[3]; for (int x = 0; x < n; ++x) { b[x] = (double)z[x] - t(p[x].i, p[x].j); for (int y = 0; y < n; ++y) s.k[x][y] = v.GetCorr(1.0*(p[x].i - p[y].i), 1.5*(p[x].j - p[y].j)); } s.solve(b, w); e("size", 0, g.GetNI(), nx); e("size", 1, g.GetNJ(), ny);
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { double q = 0; for (int x = 0; x < n; ++x) q += w[x]*v.GetCorr(1.0*(i - p[x].i), 1.5*(j - p[x].j)); d(res ? "residual" : "prediction", i + nx*j, g(i, j), res ? q : t(i, j) + q); } for (int x = 0; x < n; ++x) d("data-honoured", x, g(p[x].i, p[x].j), res ? b[x] : z[x]); }
static const Node A1[] = {{2, 1}}, A2[] = {{1, 3}, {3, 0}}, A3[] = {{4, 2}, {0, 0}, {2, 3}}, B3[] = {{11, 10}, {0, 0}, {5, 4}}, C3[] = {{2, 0}, {2, 12}, {1, 7}};
ENTRY(grid_0) { nodes(3, 4, A1, 0, false, true, 0, false); } ENTRY(grid_1) { nodes(5, 4, A1, 1, false, true, 0, false); } ENTRY(grid_2) { nodes(5, 4, A2, 2, true, true, 0, false); } ENTRY(grid_3) { nodes(5, 4, A3, 3, false, true, 0, true); }
// in blocks, when each block sees every datum, the result is the same
ENTRY(block_1) { nodes(12, 11, A1, 1, false, false, 40, false); } ENTRY(block_2) { nodes(5, 4, A2, 2, false, false, 40, false); } ENTRY(block_3) { nodes(12, 11, B3, 3, false, false, 40, true); } ENTRY(block_4) { nodes(3, 14, C3, 3, true, false, 40, false); } ENTRY(block_5) { nodes(17, 26, B3, 2, false, false, 40, false); }
// in blocks with a short reach: data are honoured, and every node is predicted from a subset of the data
static void reach(int nx, int ny, const Node* p, int n, double rx = 2, double ry = 1.5) { GenExpVario v(1.2, rx, ry, 1.0, 0.4, 0, 1.0); CovGrid2D cov(v, nx, ny, 1.0, 1.0); Grid2D<double> g; field(g, nx, ny); Grid2D<double> t = g; NodalKrigingData2D k; float z[3]; for (int q = 0; q < n; ++q) { z[q] = vp_float(N3[q][2], -5, 5); k.AddData(p[q].i, p[q].j, z[q]); } k.FindMeanValues(); Kriging::Krig2D(g, k, cov, false, false, 1.0); for (int x = 0; x < n; ++x) d("data-honoured", x, g(p[x].i, p[x].j), z[x]); }
ENTRY(reach_1) { reach(12, 11, B3, 3); } ENTRY(reach_2) { reach(20, 13, B3, 3); } ENTRY(reach_4) { const Node q[] = {{33, 3}, {2, 28}, {17, 14}}; reach(35, 34, q, 3, 1, 1); } ENTRY(reach_3) { reach(3, 14, C3, 3); }
// --- a surface with data at any position
static void surf(int n, bool res, bool index, bool all) { double x0 = V("x0_"), y0 = V("y0_"), lx = P("lx"), ly = P("ly"); RegularSurface<double> g(x0, y0, lx, ly, 4, 3, 0.0); double a = V("a"), b = V("b"), c = V("c"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) g(i, j) = a + b*i + c*j; RegularSurface<double> t = g; double far = all ? 0 : 1; GenExpVario v(1.2, P("rx") + far*lx, P("ry") + far*ly, 1.0, 0.3, 0, P("sd")); std::vector<Point> p; std::vector<Point*> pp; double u[3], w[3]; for (int q = 0; q < n; ++q) { u[q] = vp_real(N3[q][0], 0.02, 0.98); w[q] = vp_real(N3[q][1], 0.02, 0.98); p.push_back(Point(x0 + u[q]*lx, y0 + w[q]*ly, vp_real(N3[q][2], -5, 5))); } for (int q = 0; q < n; ++q) for (int r = 0; r < q; ++r) vp_assume(std::fabs(u[q] - u[r]) > 0.2); for (int q = 0; q < n; ++q) pp.push_back(&p[q]);
  Point miss(x0, y0, 99999.0); pp.push_back(&miss); Kriging::Krig2D(g, pp, v, res, index, all, 40.0); Sys s; s.n = n; double r[3], l[3]; for (int i = 0; i < n; ++i) { r[i] = p[i].z - t.GetZ(p[i].x, p[i].y); for (int j = 0; j < n; ++j) s.k[i][j] = v.GetCorr(p[i].x - p[j].x, p[i].y - p[j].y); } s.solve(r, l); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { double q = 0; for (int k = 0; k < n; ++k) q += l[k]*v.GetCorr(x0 + i*lx/3 - p[k].x, y0 + j*ly/2 - p[k].y); d(res ? "residual" : "prediction", i + 4*j, g(i, j), res ? q : t(i, j) + q); } }
ENTRY(surface_1) { surf(1, false, false, true); } ENTRY(surface_2) { surf(2, false, false, true); } ENTRY(surface_b) { surf(2, false, false, false); } ENTRY(surface_r) { surf(2, true, false, true); }
// data that are moved to the nodes of the surface
static void snapped(bool res, bool all) { RegularSurface<double> g(100, 200, 6, 4, 4, 3, 0.0); double a = V("a"), b = V("b"), c = V("c"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) g(i, j) = a + b*i + c*j; RegularSurface<double> t = g; GenExpVario v(1.2, 6, 4, 1.0, 0.3, 0, P("sd")); Point p(102.1, 201.9, V("z0")), q(103.9, 202.1, V("z1")), r(104.5, 202.2, V("z2")), w(103.5, 200.2, V("z3")), m(100, 200, 99999.0); std::vector<Point*> pp; pp.push_back(&p); pp.push_back(&q); pp.push_back(&m); pp.push_back(&r); pp.push_back(&w); const int ni[3] = {1, 1, 2}, nj[3] = {0, 1, 1}; Kriging::Krig2D(g, pp, v, res, true, all, 40.0);
  Sys s; s.n = 3; double k[3], l[3], z[3] = {(p.z + w.z)/2, q.z, r.z}; for (int i = 0; i < 3; ++i) { k[i] = z[i] - t(ni[i], nj[i]); for (int j = 0; j < 3; ++j) s.k[i][j] = v.GetCorr(2.0*(ni[i] - ni[j]), 2.0*(nj[i] - nj[j])); } s.solve(k, l); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { double o = 0; for (int x = 0; x < 3; ++x) o += l[x]*v.GetCorr(2.0*(i - ni[x]), 2.0*(j - nj[x])); d(res ? "residual" : "prediction", i + 4*j, g(i, j), res ? o : t(i, j) + o); } }
ENTRY(snap_0) { snapped(false, true); } ENTRY(snap_1) { snapped(true, true); } ENTRY(snap_2) { snapped(false, false); }
// --- conditional distributions
static void cond(int nk, int nu) { GenExpVario v(1.4, P("r"), 1, 1, 0, 0, 1.0); std::vector<double> xk, z, xu, mk, mu, sk, su; for (int i = 0; i < nk; ++i) { xk.push_back(V(N3[i][0])); z.push_back(V(N3[i][2])); mk.push_back(V(N3[i][1])); sk.push_back(P(N3[i][3])); } for (int i = 0; i < nu; ++i) { xu.push_back(V(M3[i][0])); mu.push_back(V(M3[i][2])); su.push_back(P(M3[i][3])); } for (int i = 0; i < nk; ++i) for (int j = 0; j < i; ++j) vp_assume(!near_(xk[i], xk[j])); Vector E; SymmetricMatrix C; CondDistrMultiNormal(xk, z, xu, mk, mu, sk, su, v, E, C);
  Sys s; s.n = nk; for (int i = 0; i < nk; ++i) for (int j = 0; j < nk; ++j) s.k[i][j] = sk[i]*sk[j]*v.GetCorr(xk[i] - xk[j]); e("size", 0, E.length(), nu); e("size", 1, C.dim(), nu); for (int a = 0; a < nu; ++a) { double k[3], l[3], q = mu[a]; for (int i = 0; i < nk; ++i) k[i] = sk[i]*su[a]*v.GetCorr(xk[i] - xu[a]); s.solve(k, l); for (int i = 0; i < nk; ++i) q += l[i]*(z[i] - mk[i]); d("conditional-mean", a, E(a), q); for (int b = 0; b <= a; ++b) { double c = su[a]*su[b]*v.GetCorr(xu[a] - xu[b]); for (int i = 0; i < nk; ++i) c -= l[i]*sk[i]*su[b]*v.GetCorr(xk[i] - xu[b]); d("conditional-covariance", a + 3*b, C(b, a), c); } } }
ENTRY(cond_0) { cond(0, 2); } ENTRY(cond_1) { cond(1, 2); } ENTRY(cond_2) { cond(2, 2); } ENTRY(cond_3) { cond(2, 1); }
// secondary data in the plane: correlation with the unknown is scaled; two data share the smaller scale unless both are equal
static void second(int nk, int nu, bool same) { GenExpVario v(1.4, P("r"), P("ry"), 1, 0.3, 0, 1.0); std::vector<double> z, mk, mu, sk, su, lc; std::vector<Point> xk, xu; for (int i = 0; i < nk; ++i) { xk.push_back(Point(3.0*i + vp_real(N3[i][0], 0, 1.5), V(N3[i][1]), 0)); z.push_back(V(N3[i][2])); mk.push_back(V(i ? "n1" : "n0")); sk.push_back(P(N3[i][3])); } lc.push_back(0.9); lc.push_back(same ? 0.9 : 0.6); lc.push_back(1.0); for (int i = 0; i < nu; ++i) { xu.push_back(Point(V(M3[i][0]), V(M3[i][1]), 0)); mu.push_back(V(M3[i][2])); su.push_back(P(M3[i][3])); } Vector E; SymmetricMatrix C;
  for (int i = 0; i < nk; ++i) for (int j = 0; j < i; ++j) vp_assume(v.GetCorr(xk[i].x - xk[j].x, xk[i].y - xk[j].y) < 0.95); lc.resize(nk); SecondayCondDistrMultiNormal2D(xk, z, lc, xu, mk, mu, sk, su, v, E, C); Sys s; s.n = nk; for (int i = 0; i < nk; ++i) for (int j = 0; j < nk; ++j) s.k[i][j] = sk[i]*sk[j]*(lc[i] == lc[j] ? 1.0 : lc[i] < lc[j] ? lc[i] : lc[j])*v.GetCorr(xk[i].x - xk[j].x, xk[i].y - xk[j].y);
  for (int a = 0; a < nu; ++a) { double k[3], l[3], q = mu[a]; for (int i = 0; i < nk; ++i) k[i] = sk[i]*su[a]*lc[i]*v.GetCorr(xk[i].x - xu[a].x, xk[i].y - xu[a].y); s.solve(k, l); for (int i = 0; i < nk; ++i) q += l[i]*(z[i] - mk[i]); d("secondary-mean", a, E(a), q); for (int b = 0; b <= a; ++b) { double c = su[a]*su[b]*v.GetCorr(xu[a].x - xu[b].x, xu[a].y - xu[b].y); for (int i = 0; i < nk; ++i) c -= l[i]*sk[i]*su[b]*lc[i]*v.GetCorr(xk[i].x - xu[b].x, xk[i].y - xu[b].y); d("secondary-covariance", a + 3*b, C(b, a), c); } } }
ENTRY(second_0) { second(0, 2, false); } ENTRY(second_1) { second(1, 2, false); } ENTRY(second_2) { second(2, 2, false); } ENTRY(second_3) { second(2, 1, true); }
// coinciding data: the first stands for the others
ENTRY(second_dup) { ExpVario v(3, 3); std::vector<double> z, mk(3, 0.0), mu(1, 0.0), sk, su(1, 1.0), lc; std::vector<Point> xk, xu; xu.push_back(Point(1, 2, 0)); xk.push_back(Point(0, 0, 0)); xk.push_back(Point(0, 0, 0)); xk.push_back(Point(2, 1, 0)); lc.push_back(0.9); lc.push_back(0.9); lc.push_back(0.5); for (int i = 0; i < 3; ++i) { z.push_back(V(N3[i][2])); sk.push_back(P(N3[i][3])); } Vector E, F; SymmetricMatrix C, D; SecondayCondDistrMultiNormal2D(xk, z, lc, xu, mk, mu, sk, su, v, E, C); xk.erase(xk.begin() + 1); z.erase(z.begin() + 1); lc.erase(lc.begin() + 1); sk.erase(sk.begin() + 1); mk.pop_back(); SecondayCondDistrMultiNormal2D(xk, z, lc, xu, mk, mu, sk, su, v, F, D); d("coinciding-data", 0, E(0), F(0)); d("coinciding-data", 1, C(0, 0), D(0, 0)); }
// data in one chain: those whose scaled correlation with an earlier one exceeds 0.999
static void chains(const double* lc, const double* x, int n, const int* want, int nc) { ExpVario v(3, 3); std::vector<double> l(lc, lc + n); std::vector<Point> p; for (int i = 0; i < n; ++i) p.push_back(Point(x[i], 2, 0)); std::vector<int> m; std::vector<std::vector<int> > c; IdentifyLargeCorr(p, l, v, m, c); e("chains", 0, c.size(), nc); e("chains", 1, m.size(), n); for (int i = 0; i < n; ++i) e("chains", 2 + i, m[i], want[i]); int k = 0; for (int q = 0; q < nc && q < (int)c.size(); ++q) for (size_t i = 0; i < c[q].size(); ++i, ++k) e("chains", 20 + q, want[c[q][i]], q); e("chains", 40, k, n); }
ENTRY(second_id) { const double l0[] = {0.5, 0.9999, 0.9995, 0.5}, x0[] = {1, 1, 1, 4}, l1[] = {0.9999, 0.5, 0.9995, 0.5}, l2[] = {0.7, 0.7, 0.7, 0.7}, x2[] = {1, 1.0005, 5, 1.001}, x3[] = {1, 1.003, 5, 5.0008}; const int w0[] = {0, 1, 1, 2}, w1[] = {0, 1, 0, 2}, w2[] = {0, 0, 1, 0}, w3[] = {0, 1, 2, 2}; chains(l0, x0, 4, w0, 3); chains(l1, x0, 4, w1, 3); chains(l2, x2, 4, w2, 2); chains(l2, x3, 4, w3, 3); }
ENTRY(posterior) { double ep = V("ep"), cp = P("cp"), eo = V("eo"), co = P("co"), r = vp_real("r", -0.99, 0.99), o = V("o"), a, b; Posterior1DNormal(ep, cp, eo, co, r, o, a, b); double cov = r*std::sqrt(cp)*std::sqrt(co); d("conditional-mean", 0, a, ep + cov/co*(o - eo)); d("conditional-covariance", 0, b, cp - cov*cov/co); }
// --- multivariate normal: draws have the covariance asked for, potential is minus the log density
static int zk = 0, zi = 0; extern "C" double unit_draw() { return zi++ == zk ? 1.0 : 0.0; }
static void multi(int n, bool set, bool own) { Vector m(n); SymmetricMatrix c(n); double l[3][3] = {{0}}; static const char* L[3][3] = {{"l00", "l01", "l02"}, {"l10", "l11", "l12"}, {"l20", "l21", "l22"}}; for (int i = 0; i < n; ++i) { m(i) = V(M3[i][2]); for (int j = 0; j < i; ++j) l[i][j] = V(L[i][j]); l[i][i] = P(L[i][i]); } for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += l[i][k]*l[j][k]; c(j, i) = s; }
  Vector m0(n); SymmetricMatrix c0(n); if (set) for (int i = 0; i < n; ++i) { m0(i) = 7; for (int j = 0; j <= i; ++j) c0(j, i) = i == j; } MultiNormal g = set ? MultiNormal(m0, c0) : MultiNormal(m, c); if (set) g.SetParameters(m, c); double f[3][3], base[3]; RandomGenerator rg; for (zk = -1; zk < n; ++zk) { zi = 0; Vector x = own ? g.Draw(rg) : g.Draw(); e("size", 2, x.length(), n); e("draws", 0, zi, n); for (int i = 0; i < n; ++i) if (zk < 0) { base[i] = x(i); d("draw-mean", i, x(i), m(i)); } else f[i][zk] = x(i) - base[i]; }
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double s = 0; for (int k = 0; k < n; ++k) s += f[i][k]*f[j][k]; d("draw-covariance", i + 3*j, s, c(j, i)); } }
ENTRY(multi_1) { multi(1, false, true); } ENTRY(multi_2) { multi(2, false, true); } ENTRY(multi_3) { multi(3, false, false); } ENTRY(multi_set) { multi(2, true, true); }
ENTRY(multi_pot) { Vector m(2), x(2); m(0) = V("m0"); m(1) = V("m1"); x(0) = V("u0"); x(1) = V("u1"); SymmetricMatrix c(2); c(0, 0) = 2; c(0, 1) = 0.6; c(1, 1) = 0.5; MultiNormal g(m, c); double a = x(0) - m(0), b = x(1) - m(1), det = 2*0.5 - 0.36; d("potential", 0, g.Potential(x), std::log(2*3.14159265358979323846) + 0.5*std::log(det) + 0.5*(0.5*a*a - 1.2*a*b + 2*b*b)/det); }
// --- solving and factorising
static void spd(SymmetricMatrix& A, int n, double k[3][3]) { static const char* L[3][3] = {{"l00", "l01", "l02"}, {"l10", "l11", "l12"}, {"l20", "l21", "l22"}}; double l[3][3] = {{0}}; for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) l[i][j] = V(L[i][j]); l[i][i] = P(L[i][i]); } A = SymmetricMatrix(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int q = 0; q < n; ++q) s += l[i][q]*l[j][q]; k[i][j] = s; if (j >= i) A(i, j) = s; } }
static void same(const SymmetricMatrix& A, int n, double k[3][3], const char* w) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d(w, i + 3*j, A(i <= j ? i : j, i <= j ? j : i), k[i][j]); }
static void linear(int n) { SymmetricMatrix A; double k[3][3]; spd(A, n, k); Vector b(n), x(n); Matrix B(n, 2); for (int i = 0; i < n; ++i) { b(i) = V(N3[i][0]); B(i, 0) = V(N3[i][1]); B(i, 1) = V(N3[i][2]); } Matrix B0 = B; CholeskySolve(A, b, x); CholeskySolve(A, B); same(A, n, k, "input-kept"); for (int i = 0; i < n; ++i) { double s = 0, t = 0, u = 0; for (int j = 0; j < n; ++j) { s += k[i][j]*x(j); t += k[i][j]*B(j, 0); u += k[i][j]*B(j, 1); } d("solution", i, s, b(i)); d("solution", 3 + i, t, B0(i, 0)); d("solution", 6 + i, u, B0(i, 1)); }
  SymmetricMatrix I = A; CholeskyInvert(I); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int q = 0; q < n; ++q) s += k[i][q]*I(q <= j ? q : j, q <= j ? j : q); d("inverse", i + 3*j, s, i == j); } SymmetricMatrix F = A; CholeskyFactorize(F); CholeskyDeFactorize(F); same(F, n, k, "factor"); Matrix Z = ZeroMatrix(n), J = IdentityMatrix(n); Vector o = ZeroVector(n); SymmetricMatrix S = SymmetricZeroMatrix(n); for (int i = 0; i < n; ++i) { d("constants", i, o(i), 0); for (int j = 0; j < n; ++j) { d("constants", 10 + i + 3*j, Z(i, j), 0); d("constants", 20 + i + 3*j, J(i, j), i == j); if (i <= j) d("constants", 30 + i + 3*j, S(i, j), 0); } } }
ENTRY(linear_1) { linear(1); } ENTRY(linear_2) { linear(2); } ENTRY(linear_3) { linear(3); }
ENTRY(linear_bad) { may_fail = true; SymmetricMatrix A(2); A(0, 0) = 1; A(0, 1) = 2; A(1, 1) = 3; Vector b(2), x(2); b(0) = V("x0"); b(1) = V("x1"); Matrix B(2, 1); B(0, 0) = b(0); B(1, 0) = b(1); bool r = false; try { CholeskySolve(A, b, x); } catch (Exception&) { r = true; } e("not-positive-rejected", 0, r, 1); r = false; try { CholeskySolve(A, B); } catch (Exception&) { r = true; } e("not-positive-rejected", 1, r, 1); SymmetricMatrix C = A; r = false; try { CholeskyFactorize(C); } catch (Exception&) { r = true; } e("not-positive-rejected", 2, r, 1); C = A; r = false; try { CholeskyInvert(C); } catch (Exception&) { r = true; } e("not-positive-rejected", 3, r, 1); }
ENTRY(linear_tri) { SymmetricMatrix A(3); A(0, 0) = P("a"); A(0, 1) = V("b"); A(0, 2) = V("c"); A(1, 1) = P("dd"); A(1, 2) = V("ee"); A(2, 2) = P("f"); TriangularMatrix T = A.triangular(); Vector b(3), x(3), y(3); for (int i = 0; i < 3; ++i) b(i) = V(N3[i][0]); TriangularSolve(T, b, x); TriangularSolve(A, b, y); for (int i = 0; i < 3; ++i) { double s = 0; for (int j = i; j < 3; ++j) s += A(i, j)*x(j); d("solution", 10 + i, s, b(i)); d("solution", 20 + i, y(i), x(i)); } }
ENTRY(sort3) { Vector v(3); Matrix M(3, 3); for (int i = 0; i < 3; ++i) { v(i) = vp_wide(N3[i][0], -9, 9); for (int j = 0; j < 3; ++j) M(i, j) = 10*i + j; } vp_assume(v(0) != v(1) && v(1) != v(2) && v(0) != v(2)); Vector w = v; Sort3x3(v, M); vp_true("sorted", 0, v(0) > v(1)); vp_true("sorted", 1, v(1) > v(2)); for (int j = 0; j < 3; ++j) { int k = v(j) == w(0) ? 0 : v(j) == w(1) ? 1 : 2; d("sorted", 2 + j, v(j), w(k)); for (int i = 0; i < 3; ++i) d("sorted", 10 + i + 3*j, M(i, j), 10*i + k); } d("largest", 0, FindLargestElement(w), v(0)); }
// --- sample statistics
struct Miss { bool operator()(double x) const { return x == -999; } };
static void stats(int n, unsigned miss) { std::vector<double> a, b, q; std::list<double> l; static const char* A[] = {"a0", "a1", "a2", "a3"}; static const char* B[] = {"b0", "b1", "b2", "b3"}; for (int i = 0; i < n; ++i) { if (miss >> i & 1) a.push_back(-999); else { a.push_back(V(A[i])); q.push_back(a.back()); } b.push_back(V(B[i])); l.push_back(a[i]); } Miss M; long c = q.size(); double s = 0, v = 0, hi = -1e9, lo = 1e9; for (long i = 0; i < c; ++i) { s += q[i]; if (q[i] > hi) hi = q[i]; if (q[i] < lo) lo = q[i]; } for (long i = 0; i < c; ++i) v += (q[i] - s/c)*(q[i] - s/c);
  e("count", 0, Count(a.begin(), a.end(), M), c); e("count", 1, Count(a.begin(), a.end()), n); d("sum", 0, Sum(a.begin(), a.end(), M), s); d("sum", 1, Sum(l.begin(), l.end(), M), s); std::vector<double>::iterator x = MaxElement(a.begin(), a.end(), M), y = MinElement(a.begin(), a.end(), M); e("extreme", 0, x != a.end(), c > 0); e("extreme", 1, y != a.end(), c > 0); if (c > 0) { d("extreme", 2, *x, hi); d("extreme", 3, *y, lo); d("mean", 0, Mean(a.begin(), a.end(), M), s/c); d("mean", 1, Mean(l, M), s/c); d("variance", 0, Var(a.begin(), a.end(), M), c == 1 ? 0 : v/(c - 1)); d("variance", 1, Var(l, M), c == 1 ? 0 : v/(c - 1)); }
  else { d("mean", 2, Mean(a.begin(), a.end(), M, false), 0); d("variance", 2, Var(a.begin(), a.end(), M, false), 0); bool r = false; try { Mean(a.begin(), a.end(), M); } catch (NoDataError&) { r = true; } e("no-data", 0, r, 1); r = false; try { Var(a.begin(), a.end(), M); } catch (NoDataError&) { r = true; } e("no-data", 1, r, 1); }
  if (!miss && n) { d("sum", 2, Sum(a.begin(), a.end()), s); d("mean", 3, Mean(a.begin(), a.end()), s/c); d("mean", 4, Mean(a), s/c); d("variance", 3, Var(a.begin(), a.end()), c == 1 ? 0 : v/(c - 1)); d("variance", 4, Var(a), c == 1 ? 0 : v/(c - 1)); d("extreme", 4, *MaxElement(a.begin(), a.end()), hi); d("extreme", 5, *MinElement(a.begin(), a.end()), lo); if (n > 1) { double t = 0, k = 0; for (int i = 0; i < n; ++i) t += b[i]; for (int i = 0; i < n; ++i) k += (a[i] - s/n)*(b[i] - t/n); d("covariance", 0, Cov(a.begin(), a.end(), b.begin(), b.end()), k/(n - 1)); d("covariance", 1, Cov(a, b), k/(n - 1)); b.pop_back(); bool r = false; try { Cov(a, b); } catch (InvalidDataError&) { r = true; } e("different-lengths", 0, r, 1); d("different-lengths", 1, Cov(a, b, false), 0); } }
  if (!n) { d("mean", 5, Mean(a, false), 0); d("variance", 5, Var(a, false), 0); d("covariance", 2, Cov(a, a, false), 0); bool r = false; try { Mean(a); } catch (NoDataError&) { r = true; } e("no-data", 2, r, 1); r = false; try { Var(a); } catch (NoDataError&) { r = true; } e("no-data", 3, r, 1); r = false; try { Cov(a, a); } catch (NoDataError&) { r = true; } e("no-data", 4, r, 1); } }
ENTRY(stat_0) { stats(0, 0); stats(2, 3); } ENTRY(stat_1) { stats(1, 0); stats(3, 5); } ENTRY(stat_3) { stats(3, 0); } ENTRY(stat_4) { stats(4, 0x1); stats(4, 0x8); } ENTRY(stat_5) { stats(4, 0x6); }

// Simulation entry points, called as Python calls them.
#define PYCALL_DEFINE
#include "pycall.h"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
using py::PyVal;
static void out(const char* w, const PyVal& r, long n) {
  vp_eq_i64("result-length", n, (long)r.dv.size(), n);
  for (long i = 0; i < (long)r.dv.size(); ++i) vp_out_f64(w, i, r.dv[i]);
}
static PyVal vario(const char* type, double rx, double ry, double rz, double az, double dip, double power) {
  PyVal a[7] = {PyVal(type), PyVal(rx), PyVal(ry), PyVal(rz), PyVal(az), PyVal(dip), PyVal(power)};
  return py_call("_gaussianfft", "variogram", a, 7);
}
static void seed(const char* nm) {
  PyVal s[1] = {PyVal((unsigned long)vp_i64(nm, 0, 0xffffffffll))};
  py_call("_gaussianfft", "seed", s, 1);
}
static void drop(PyVal& v) { delete static_cast<NRLib::Variogram*>(v.p); v.p = nullptr; }

// --- explicit padding, symbolic ranges, angles, spacing
#define COV1(F, N, P) ENTRY(cov1_##F##_##N##_##P) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[3] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2))}; KW k[1] = {{"padx", PyVal(P)}}; \
  PyVal r = py_call("advanced", "simulate", a, 3, k, 1); out("field", r, N); drop(v); }
#define COV2(F, N, M, P, Q) ENTRY(cov2_##F##_##N##_##M##_##P##_##Q) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[5] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2)), PyVal(M), PyVal(vp_wide("dy", 0.25, 2))}; KW k[2] = {{"padx", PyVal(P)}, {"pady", PyVal(Q)}}; \
  PyVal r = py_call("advanced", "simulate", a, 5, k, 2); out("field", r, N*M); drop(v); }
#define COV3(F, N, M, L, P, Q, R) ENTRY(cov3_##F##_##N##_##M##_##L##_##P##_##Q##_##R) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[7] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2)), PyVal(M), PyVal(vp_wide("dy", 0.25, 2)), PyVal(L), PyVal(vp_wide("dz", 0.25, 2))}; \
  KW k[3] = {{"padx", PyVal(P)}, {"pady", PyVal(Q)}, {"padz", PyVal(R)}}; \
  PyVal r = py_call("advanced", "simulate", a, 7, k, 3); out("field", r, N*M*L); drop(v); }
#define FAM(X) X(constant) X(exponential) X(spherical) X(gaussian) X(general_exponential) X(matern32) X(matern52) X(matern72)
#define D1(F) COV1(F, 4, 3)
#define D2(F) COV2(F, 3, 2, 1, 1)
#define D3(F) COV3(F, 2, 3, 2, 1, 0, 1)
FAM(D1) FAM(D2) FAM(D3)
COV1(exponential, 5, 3) COV1(spherical, 1, 0) COV1(gaussian, 2, 7) COV1(matern52, 6, 5)
COV2(exponential, 2, 3, 4, 0) COV2(spherical, 4, 5, 1, 1) COV2(general_exponential, 1, 3, 2, 2) COV2(matern32, 3, 3, 0, 3)
COV1(matern32, 30, 5) COV2(gaussian, 7, 6, 2, 1) COV3(matern52, 4, 3, 3, 0, 2, 1)
COV3(exponential, 2, 2, 3, 0, 1, 0) COV3(gaussian, 3, 2, 2, 1, 2, 0) COV3(matern72, 1, 2, 4, 1, 1, 1) COV3(spherical, 3, 2, 2, 0, 1, 2)
COV1(gaussian, 3, 12) COV2(exponential, 2, 2, 7, 1) COV2(gaussian, 2, 2, 1, 8) COV3(gaussian, 2, 2, 2, 0, 6, 0) COV3(exponential, 2, 2, 2, 5, 0, 1) COV3(gaussian, 2, 2, 2, 0, 1, 6)
// long axes
COV1(exponential, 260, 12) COV2(gaussian, 66, 2, 4, 1) COV2(exponential, 2, 66, 0, 3) COV3(exponential, 66, 2, 2, 4, 0, 0) COV3(spherical, 2, 66, 2, 0, 4, 0) COV3(exponential, 2, 2, 66, 1, 0, 4)

// --- smoothing
#define SM1(F, N, P) ENTRY(sm1_##F##_##N##_##P) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[3] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2))}; KW k[2] = {{"padx", PyVal(P)}, {"sx", PyVal(vp_real("sx", 0.01, 1.2))}}; \
  PyVal r = py_call("advanced", "simulate", a, 3, k, 2); out("field", r, N); drop(v); }
#define SM2(F, N, M, P, Q) ENTRY(sm2_##F##_##N##_##M##_##P##_##Q) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[5] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2)), PyVal(M), PyVal(vp_wide("dy", 0.25, 2))}; KW k[4] = {{"padx", PyVal(P)}, {"pady", PyVal(Q)}, {"sx", PyVal(vp_real("sx", 0.01, 1.2))}, {"sy", PyVal(vp_real("sy", 0.01, 1.2))}}; \
  PyVal r = py_call("advanced", "simulate", a, 5, k, 4); out("field", r, N*M); drop(v); }
#define SM3(F, N, M, L, P, Q, R) ENTRY(sm3_##F##_##N##_##M##_##L##_##P##_##Q##_##R) { \
  vp_py_init(); seed("seed"); \
  PyVal v = vario(#F, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); \
  PyVal a[7] = {v, PyVal(N), PyVal(vp_wide("dx", 0.25, 2)), PyVal(M), PyVal(vp_wide("dy", 0.25, 2)), PyVal(L), PyVal(vp_wide("dz", 0.25, 2))}; \
  KW k[6] = {{"padx", PyVal(P)}, {"pady", PyVal(Q)}, {"padz", PyVal(R)}, {"sx", PyVal(vp_real("sx", 0.01, 1.2))}, {"sy", PyVal(vp_real("sy", 0.01, 1.2))}, {"sz", PyVal(vp_real("sz", 0.01, 1.2))}}; \
  PyVal r = py_call("advanced", "simulate", a, 7, k, 6); out("field", r, N*M*L); drop(v); }
SM1(exponential, 4, 3) SM1(gaussian, 3, 5) SM2(gaussian, 3, 2, 1, 1) SM2(matern32, 2, 3, 2, 1) SM3(exponential, 2, 3, 2, 1, 0, 1) SM3(gaussian, 2, 2, 3, 1, 1, 0)

// --- automatic padding
#define AUTO1(F, N, R, DX) ENTRY(auto1_##F##_##N##_##R##_##DX) { vp_py_init(); seed("seed"); PyVal v = vario(#F, R, -1, -1, 0, 0, 1.5); \
  PyVal a[3] = {v, PyVal(N), PyVal(DX*0.5)}; PyVal r = py_call("_gaussianfft", "simulate", a, 3); \
  PyVal z = py_call("_gaussianfft", "simulation_size", a, 3); for (size_t i = 0; i < z.sv.size(); ++i) vp_out_i64("simsize", i, z.sv[i]); \
  out("field", r, N); drop(v); }
#define AUTO2(F, N, M, R, S, AZ) ENTRY(auto2_##F##_##N##_##M##_##R##_##S##_##AZ) { vp_py_init(); seed("seed"); PyVal v = vario(#F, R, S, -1, AZ, 0, 1.5); \
  PyVal a[5] = {v, PyVal(N), PyVal(1.0), PyVal(M), PyVal(1.0)}; PyVal r = py_call("_gaussianfft", "simulate", a, 5); \
  PyVal z = py_call("_gaussianfft", "simulation_size", a, 5); for (size_t i = 0; i < z.sv.size(); ++i) vp_out_i64("simsize", i, z.sv[i]); \
  out("field", r, N*M); drop(v); }
#define AUTO3(F, N, M, L, R, S, U) ENTRY(auto3_##F##_##N##_##M##_##L##_##R##_##S##_##U) { vp_py_init(); seed("seed"); PyVal v = vario(#F, R, S, U, 0, 0, 1.5); \
  PyVal a[7] = {v, PyVal(N), PyVal(1.0), PyVal(M), PyVal(1.0), PyVal(L), PyVal(1.0)}; PyVal r = py_call("_gaussianfft", "simulate", a, 7); \
  PyVal z = py_call("_gaussianfft", "simulation_size", a, 7); for (size_t i = 0; i < z.sv.size(); ++i) vp_out_i64("simsize", i, z.sv[i]); \
  out("field", r, N*M*L); drop(v); }
AUTO1(gaussian, 5, 2, 2) AUTO1(exponential, 3, 4, 1) AUTO1(spherical, 6, 3, 3) AUTO2(exponential, 3, 2, 2, 1, 0) AUTO2(spherical, 2, 3, 1, 2, 30) AUTO3(exponential, 2, 2, 2, 1, 1, 1) AUTO3(spherical, 2, 2, 2, 1, 2, 1)

// --- several fields from one call of the C++ API
using namespace NRLib;
template<class G> static void grids(std::vector<G>& g) {
  long k = 0;
  for (size_t f = 0; f < g.size(); ++f) { const std::vector<double>& s = g[f].GetStorage(); for (size_t i = 0; i < s.size(); ++i) vp_out_f64("field", k++, s[i]); }
}
static Variogram* cvar(Variogram::Type t) { return Variogram::Create(t, 1.5, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), 0.0, 0.0, vp_real("sd", 0.2, 4)); }
ENTRY(multi2_exponential_2_3_2_1_x2) {
  Random::Initialize((unsigned long)vp_i64("seed", 0, 0xffffffffll)); Variogram* v = cvar(Variogram::EXPONENTIAL);
  std::vector<Grid2D<double> > g; Simulate2DGaussianField(*v, 2, vp_wide("dx", 0.25, 2), 3, vp_wide("dy", 0.25, 2), 2, g, NULL, 2, 1, 1.0, 1.0);
  vp_eq_i64("number-of-fields", 2, (long)g.size(), 2); grids(g); delete v; }
ENTRY(multi2_gaussian_3_2_1_1_x3) {
  RandomGenerator rg((unsigned long)vp_i64("seed", 0, 0xffffffffll)); Variogram* v = cvar(Variogram::GAUSSIAN);
  std::vector<Grid2D<double> > g; Simulate2DGaussianField(*v, 3, vp_wide("dx", 0.25, 2), 2, vp_wide("dy", 0.25, 2), 3, g, &rg, 1, 1, 1.0, 1.0);
  vp_eq_i64("number-of-fields", 3, (long)g.size(), 3); grids(g); delete v; }
ENTRY(multi3_exponential_2_2_2_0_1_1_x2) {
  Random::Initialize((unsigned long)vp_i64("seed", 0, 0xffffffffll)); Variogram* v = cvar(Variogram::EXPONENTIAL);
  std::vector<Grid<double> > g; Simulate3DGaussianField(*v, 2, vp_wide("dx", 0.25, 2), 2, vp_wide("dy", 0.25, 2), 2, vp_wide("dz", 0.25, 2), 2, g, 0, 1, 1, 1.0, 1.0, 1.0);
  vp_eq_i64("number-of-fields", 2, (long)g.size(), 2); grids(g); delete v; }
ENTRY(multi1_matern32_5_2_x1) {
  RandomGenerator rg((unsigned long)vp_i64("seed", 0, 0xffffffffll)); Variogram* v = cvar(Variogram::MATERN32);
  std::vector<double> s(5); Simulate1DGaussianField(*v, 5, vp_wide("dx", 0.25, 2), s, &rg, 2, 1.0);
  for (size_t i = 0; i < s.size(); ++i) vp_out_f64("field", i, s[i]); delete v; }

// the single-field overload, automatic padding
#define SINGLE2(F, T_, N, M, R, S) ENTRY(single2_##F##_##N##_##M##_##R##_##S##_0) { Random::Initialize((unsigned long)vp_i64("seed", 0, 0xffffffffll)); Variogram* v = Variogram::Create(Variogram::T_, 1.5, R, S, R, 0.0, 0.0, vp_real("sd", 0.2, 4)); \
  Grid2D<double> g; Simulate2DGaussianField(*v, N, 1.0, M, 1.0, g); vp_eq_i64("result-length", 0, (long)g.GetN(), N*M); std::vector<size_t> z = FindNDimPadding(*v, N, 1.0, M, 1.0); vp_out_i64("simsize", 0, z[0] + N); vp_out_i64("simsize", 1, z[1] + M); \
  std::vector<Grid2D<double> > gs(1, g); grids(gs); delete v; }
SINGLE2(exponential, EXPONENTIAL, 3, 2, 2, 1) SINGLE2(spherical, SPHERICAL, 2, 3, 1, 2)

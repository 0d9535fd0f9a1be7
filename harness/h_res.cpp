// Ownership: nothing a call allocates outlives it except what it hands to the caller.
#define PYCALL_DEFINE
#include "pycall.h"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
#include "nrlib/fft/fftgrid2d.hpp"
#include "nrlib/fft/fftgrid3d.hpp"
#include <exception>
using py::PyVal;
static PyVal vario(const char* t, double rx) { PyVal a[2] = {PyVal(t), PyVal(rx)}; return py_call("_gaussianfft", "variogram", a, 2); }
static void seed(unsigned long v) { PyVal s[1] = {PyVal(v)}; py_call("_gaussianfft", "seed", s, 1); }
static void drop(PyVal& v) { delete static_cast<NRLib::Variogram*>(v.p); v.p = nullptr; }
static PyVal sim(PyVal& v, int d) { PyVal a[7] = {v, PyVal(2), PyVal(1.0), PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0)}; return py_call("_gaussianfft", "simulate", a, 1 + 2*d); }
static PyVal adv(PyVal& v, int d) { PyVal a[7] = {v, PyVal(2), PyVal(1.0), PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0)}; KW k[6] = {{"padx", PyVal(1)}, {"sx", PyVal(0.5)}, {"pady", PyVal(1)}, {"sy", PyVal(0.5)}, {"padz", PyVal(1)}, {"sz", PyVal(0.5)}}; return py_call("advanced", "simulate", a, 1 + 2*d, k, 2*d); }
static double corr(PyVal& v, double x) { PyVal a[2] = {v, PyVal(x)}; return py_call("Variogram", "corr", a, 2).d; }
#define R(F) ENTRY(res_make_##F) { vp_py_init(); PyVal v = vario(#F, vp_real("rx", 0.5, 4)); corr(v, 1.0); PyVal w = vario(#F, 2.0); vp_true("distinct-objects", 0, v.p != w.p); corr(w, 1.0); drop(v); corr(w, 1.0); drop(w); }
R(constant) R(exponential) R(spherical) R(gaussian) R(general_exponential) R(matern32) R(matern52) R(matern72)
#define S(D) ENTRY(res_sim_##D) { vp_py_init(); PyVal v = vario("exponential", 1.0); { PyVal r = sim(v, D); PyVal q = sim(v, D); } corr(v, 1.0); seed(1); { PyVal r = sim(v, D); } corr(v, 1.0); drop(v); } \
  ENTRY(res_adv_##D) { vp_py_init(); PyVal v = vario("matern32", 1.0); { PyVal r = adv(v, D); } seed(1); { PyVal r = adv(v, D); PyVal q = adv(v, D); } corr(v, 1.0); drop(v); } \
  ENTRY(res_size_##D) { vp_py_init(); PyVal v = vario("spherical", 3.0); PyVal a[7] = {v, PyVal(2), PyVal(1.0), PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0)}; PyVal z = py_call("_gaussianfft", "simulation_size", a, 1 + 2*D); corr(v, 0.5); drop(v); }
S(1) S(2) S(3)
ENTRY(res_owner) { vp_py_init(); int n = 0; for (int b = 0; b < py::vp_nbindings; ++b) { py::Binding* B = py::vp_bindings[b]; if (std::strcmp(B->name, "variogram")) continue; ++n;
    vp_true("result-owned-by-caller", b, B->pol == py::return_value_policy::take_ownership || B->pol == py::return_value_policy::automatic); } vp_true("factory-bound", 0, n >= 1); }
ENTRY(res_seed) { vp_py_init(); seed(3); PyVal s = py_call("_gaussianfft", "seed", nullptr, 0); PyVal q = py_call("_gaussianfft", "quote", nullptr, 0); }
// ---- library level, also when the call fails
using namespace NRLib;
ENTRY(resc_bad_range) { Variogram* v = 0; bool t = false; try { v = Variogram::Create(Variogram::SPHERICAL, 1.5, vp_real("rx", -2, 4), vp_real("ry", -2, 4), vp_real("rz", -2, 4), 0.1, 0.2, 1.0); v->SetRanges(vp_real("a", -2, 4), vp_real("b", -2, 4), vp_real("c", -2, 4)); v->SetRangeX(vp_real("a", -2, 4)); v->SetRangeY(vp_real("b", -2, 4)); v->SetRangeZ(vp_real("c", -2, 4)); v->LimitRangeY(vp_real("a", -2, 4)); } catch (const std::exception&) { t = true; } delete v; }
ENTRY(resc_bad_type) { Variogram* v = 0; try { v = Variogram::Create(static_cast<Variogram::Type>(77), 1.5, 1, 1, 1, 0, 0, 1); } catch (const std::exception&) {} delete v; }
ENTRY(resc_field1) { Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, 1, 1, 1, 0, 0, 1); { std::vector<double> s(3), t(3); RandomGenerator g(1); Simulate1DGaussianField(*v, 3, 1.0, s, &g); Simulate1DGaussianField(*v, 3, 1.0, t, NULL); Simulate1DGaussianField(*v, 3, 1.0, t, &g, 2, 0.5); g.Unif01(); } v->GetCorr(1); delete v; }
ENTRY(resc_field2) { Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, 1, 1, 1, 0, 0, 1); { std::vector<Grid2D<double> > s; RandomGenerator g(1); Simulate2DGaussianField(*v, 2, 1.0, 2, 1.0, 2, s, &g); Simulate2DGaussianField(*v, 2, 1.0, 2, 1.0, 1, s, NULL); Grid2D<double> o; Simulate2DGaussianField(*v, 2, 1.0, 2, 1.0, o); g.Unif01(); } v->GetCorr(1); delete v; }
ENTRY(resc_field2_seeded) { Random::Initialize(5); Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, 1, 1, 1, 0, 0, 1); { Grid2D<double> o; Simulate2DGaussianField(*v, 2, 1.0, 2, 1.0, o); Simulate2DGaussianField(*v, 2, 1.0, 2, 1.0, o); } v->GetCorr(1); delete v; }
ENTRY(resc_field3) { Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, 1, 1, 1, 0, 0, 1); { std::vector<Grid<double> > s; Simulate3DGaussianField(*v, 2, 1.0, 2, 1.0, 2, 1.0, 2, s); } v->GetCorr(1); delete v; }
ENTRY(resc_grids) { FFTGrid2D<double> a(2, 3, 1, 1, true); FFTGrid2D<float> b(3, 2, 0, 1, false); FFTGrid3D<double> d(2, 2, 2, 1, 0, 1, true); FFTGrid3D<float>* e = new FFTGrid3D<float>(2, 2, 2, 0, 0, 0, false); a.DoFFT(); a.DoInverseFFT(); b.DoFFT(); b.DoInverseFFT(); d.DoFFT(); d.DoInverseFFT(); e->DoFFT(); delete e; }
ENTRY(resc_cov) { Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, 1, 1, 1, 0, 0, 1); { FFTCovGrid1D a(*v, 4, 1.0, 0.5); FFTCovGrid2D b(*v, 4, 1.0, 3, 1.0, 0.5, 1.0); FFTCovGrid3D c(*v, 3, 1.0, 2, 1.0, 2, 1.0, 0.5, 0.5, 0.5); CovGrid2D d(*v, 3, 2, 1.0, 1.0); FFTCovGrid2D* p = new FFTCovGrid2D(b); delete p; } delete v; }
ENTRY(resc_grid_shapes) { for (int i = 1; i <= 3; ++i) for (int j = 1; j <= 3; ++j) { { FFTGrid2D<double> a(i, j, 0, 0, true); a.DoFFT(); a.DoInverseFFT(); } { FFTGrid2D<float> a(i, j, i == j, 0, false); a.DoFFT(); }
  for (int k = 1; k <= 3; ++k) { { FFTGrid3D<double> a(i, j, k, 0, 0, 0, true); a.DoFFT(); a.DoInverseFFT(); } { FFTGrid3D<float> a(i, j, k, 0, 1, k == j, false); a.DoFFT(); } } } }

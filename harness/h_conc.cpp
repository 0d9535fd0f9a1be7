// Calls of the Python interface as several threads may make them: which shared state each of them uses, under which locks.
#define PYCALL_DEFINE
#define PYCALL_PHASES
#include "pycall.h"
#include "nrlib/variogram/variogram.hpp"
using py::PyVal;
static PyVal vario(const char* type, double rx = 1.2, double ry = 0.9, double rz = 0.7) {
  PyVal a[7] = {PyVal(type), PyVal(rx), PyVal(ry), PyVal(rz), PyVal(20.0), PyVal(10.0), PyVal(1.2)};
  return py_call("_gaussianfft", "variogram", a, 7);
}
static void seed(unsigned long v) { PyVal s[1] = {PyVal(v)}; py_call("_gaussianfft", "seed", s, 1); }
static void getseed() { try { py_call("_gaussianfft", "seed", nullptr, 0); } catch (...) {} }
static void drop(PyVal& v) { delete static_cast<NRLib::Variogram*>(v.p); v.p = nullptr; }
static void sim(PyVal& v, int d) {
  PyVal a[7] = {v, PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0), PyVal(2), PyVal(1.0)};
  try { PyVal r = py_call("_gaussianfft", "simulate", a, 1 + 2*d); } catch (...) {}
}
static void adv(PyVal& v, int d, int pad, double s) {
  PyVal a[7] = {v, PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0), PyVal(2), PyVal(1.0)};
  KW k[6] = {{"padx", PyVal(pad)}, {"pady", PyVal(pad)}, {"padz", PyVal(pad)}, {"sx", PyVal(s)}, {"sy", PyVal(s)}, {"sz", PyVal(s)}};
  try { PyVal r = py_call("advanced", "simulate", a, 1 + 2*d, k, 6); } catch (...) {}
}
static void size(PyVal& v, int d) { PyVal a[7] = {v, PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0), PyVal(2), PyVal(1.0)}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 1 + 2*d); }
static void corr(PyVal& v) { for (int d = 1; d <= 3; ++d) { PyVal a[4] = {v, PyVal(0.5), PyVal(0.25), PyVal(0.75)}; py_call("Variogram", "corr", a, 1 + d); } }
#define FAM(F) ENTRY(all_##F) { vp_py_init(); py_call("_gaussianfft", "quote", nullptr, 0); PyVal v = vario(#F); seed(17); getseed(); corr(v); \
  for (int d = 1; d <= 3; ++d) { size(v, d); sim(v, d); adv(v, d, 1, 0.3); size(v, d); sim(v, d); adv(v, d, 1, 0.3); adv(v, d, 0, 1.0); } \
  corr(v); getseed(); seed(3); PyVal w = vario(#F, 1, 1, 1); sim(w, 2); sim(v, 2); corr(w); drop(v); drop(w); }
FAM(constant) FAM(exponential) FAM(spherical) FAM(gaussian) FAM(general_exponential) FAM(matern32) FAM(matern52) FAM(matern72)
ENTRY(opts) { vp_py_init(); }
// no seed set: the first simulation seeds the generator from the clock
#define UNSEEDED(D) ENTRY(unseeded_##D) { vp_py_init(); getseed(); PyVal v = vario("gaussian"); sim(v, D); getseed(); sim(v, D); drop(v); } \
ENTRY(unseeded_adv_##D) { vp_py_init(); PyVal v = vario("gaussian"); adv(v, D, 1, 0.3); adv(v, D, 1, 0.3); drop(v); }
UNSEEDED(1) UNSEEDED(2) UNSEEDED(3)
// one simulation, in which an allocation fails, and then another
#define FAILS(D) ENTRY(fails_##D) { vp_py_init(); seed(5); PyVal v = vario("exponential"); adv(v, D, 0, 1.0); getseed(); seed(7); adv(v, D, 0, 1.0); sim(v, D); drop(v); }
FAILS(1) FAILS(2) FAILS(3)

// Call histories of the Python interface: reproducibility, seed bookkeeping, query purity, dispatch, result layout.
#define PYCALL_DEFINE
#include "pycall.h"
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include "nrlib/grid/grid.hpp"
#include "nrlib/grid/grid2d.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include <exception>
using py::PyVal;
static PyVal vario(const char* type, double rx, double ry, double rz, double az, double dip, double power) {
  PyVal a[7] = {PyVal(type), PyVal(rx), PyVal(ry), PyVal(rz), PyVal(az), PyVal(dip), PyVal(power)};
  return py_call("_gaussianfft", "variogram", a, 7);
}
static PyVal vsym(const char* type) { return vario(type, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)); }
static unsigned long anyseed(const char* n = "seed") { return (unsigned long)vp_i64(n, 0, 0xffffffffll); }
static void seed(unsigned long v) { PyVal s[1] = {PyVal(v)}; py_call("_gaussianfft", "seed", s, 1); }
static void drop(PyVal& v) { delete static_cast<NRLib::Variogram*>(v.p); v.p = nullptr; }
static double DX() { return vp_wide("dx", 0.25, 2); }
static double DY() { return vp_wide("dy", 0.25, 2); }
static double DZ() { return vp_wide("dz", 0.25, 2); }

// a simulation of the given kind; sizes small, padding explicit
static PyVal sim1(PyVal& v, int n, int p) { PyVal a[3] = {v, PyVal(n), PyVal(DX())}; KW k[1] = {{"padx", PyVal(p)}}; return py_call("advanced", "simulate", a, 3, k, 1); }
static PyVal sim2(PyVal& v, int n, int m, int p, int q) { PyVal a[5] = {v, PyVal(n), PyVal(DX()), PyVal(m), PyVal(DY())}; KW k[2] = {{"padx", PyVal(p)}, {"pady", PyVal(q)}}; return py_call("advanced", "simulate", a, 5, k, 2); }
static PyVal sim3(PyVal& v, int n, int m, int l, int p, int q, int r) { PyVal a[7] = {v, PyVal(n), PyVal(DX()), PyVal(m), PyVal(DY()), PyVal(l), PyVal(DZ())}; KW k[3] = {{"padx", PyVal(p)}, {"pady", PyVal(q)}, {"padz", PyVal(r)}}; return py_call("advanced", "simulate", a, 7, k, 3); }
static PyVal sim3s(PyVal& v, int n, int m, int l, int p, int q, int r) { PyVal a[7] = {v, PyVal(n), PyVal(DX()), PyVal(m), PyVal(DY()), PyVal(l), PyVal(DZ())}; KW k[6] = {{"padx", PyVal(p)}, {"pady", PyVal(q)}, {"padz", PyVal(r)}, {"sx", PyVal(0.3)}, {"sy", PyVal(0.4)}, {"sz", PyVal(0.5)}}; return py_call("advanced", "simulate", a, 7, k, 6); }
static PyVal simd(PyVal& v, int d) { return d == 1 ? sim1(v, 3, 2) : d == 2 ? sim2(v, 2, 3, 1, 1) : sim3(v, 2, 2, 2, 1, 0, 1); }
static PyVal plain(PyVal& v, int d) {
  PyVal a[7] = {v, PyVal(3), PyVal(1.0), PyVal(2), PyVal(1.0), PyVal(2), PyVal(1.0)};
  return py_call("_gaussianfft", "simulate", a, 1 + 2*d);
}
static void same(const char* w, const PyVal& a, const PyVal& b) {
  vp_eq_i64(w, -1, (long)a.dv.size(), (long)b.dv.size());
  for (long i = 0; i < (long)a.dv.size() && i < (long)b.dv.size(); ++i) vp_eq_f64(w, i, a.dv[i], b.dv[i]);
}
static void put(const char* w, const PyVal& a) { for (long i = 0; i < (long)a.dv.size(); ++i) vp_out_f64(w, i, a.dv[i]); }

// ---------------------------------------------------------------- C02: reproducibility
#define REP(D) \
ENTRY(rep_repeat_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("matern32"); \
  seed(s); PyVal a = simd(v, D); seed(s); PyVal b = simd(v, D); same("same-seed-same-field", b, a); drop(v); } \
ENTRY(rep_after_others_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("exponential"); PyVal w = vario("gaussian", 2, 3, 1, 20, 10, 1.5); \
  seed(s); PyVal a = simd(v, D); \
  PyVal x1 = simd(w, 1); PyVal x2 = simd(w, 2); PyVal x3 = simd(w, 3); PyVal x4 = sim3s(v, 2, 2, 2, 0, 1, 0); PyVal x5 = sim2(v, 3, 2, 0, 2); PyVal x6 = sim1(v, 5, 1); \
  seed(s); PyVal b = simd(v, D); same("same-seed-same-field", b, a); drop(v); drop(w); } \
ENTRY(rep_fresh_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("spherical"); seed(s); PyVal a = simd(v, D); put("field", a); drop(v); } \
ENTRY(rep_history_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal w = vario("spherical", 2, 3, 1, 20, 10, 1.5); PyVal y = simd(w, D); seed(anyseed("otherseed")); PyVal z = simd(w, 2); PyVal u = plain(w, 1); drop(w); \
  PyVal v = vsym("spherical"); seed(s); PyVal a = simd(v, D); put("field", a); drop(v); } \
ENTRY(rep_sequence_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("general_exponential"); \
  seed(s); PyVal a1 = simd(v, D); PyVal a2 = simd(v, 3); PyVal a3 = simd(v, 1); PyVal a4 = simd(v, 2); PyVal a5 = simd(v, D); \
  seed(s); PyVal b1 = simd(v, D); PyVal b2 = simd(v, 3); PyVal b3 = simd(v, 1); PyVal b4 = simd(v, 2); PyVal b5 = simd(v, D); \
  same("same-seed-same-sequence", b1, a1); same("same-seed-same-sequence", b2, a2); same("same-seed-same-sequence", b3, a3); same("same-seed-same-sequence", b4, a4); same("same-seed-same-sequence", b5, a5); drop(v); } \
ENTRY(rep_indep_##D) { vp_py_init(); PyVal v = vsym("exponential"); seed(anyseed()); PyVal a = simd(v, D); PyVal b = simd(v, D); put("first", a); put("second", b); drop(v); }
REP(1) REP(2) REP(3)
ENTRY(rep_cpp_generator) {
  using namespace NRLib; unsigned long s = anyseed();
  Variogram* v = Variogram::Create(Variogram::EXPONENTIAL, 1.5, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), 0.0, 0.0, vp_real("sd", 0.2, 4));
  RandomGenerator g1(s), g2(anyseed("otherseed")); std::vector<double> a(4), b(4), c(4);
  Simulate1DGaussianField(*v, 4, DX(), a, &g1, 2, 1.0);
  Simulate1DGaussianField(*v, 4, DX(), c, &g2, 2, 1.0);
  g2.Initialize(s); Simulate1DGaussianField(*v, 4, DX(), b, &g2, 2, 1.0);
  for (int i = 0; i < 4; ++i) vp_eq_f64("same-seed-same-field", i, b[i], a[i]);
  delete v; }
ENTRY(rep_cpp_generator2) {
  using namespace NRLib; unsigned long s = anyseed();
  Variogram* v = Variogram::Create(Variogram::GAUSSIAN, 1.5, vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), 0.0, 0.0, vp_real("sd", 0.2, 4));
  RandomGenerator g1(s); std::vector<Grid2D<double> > a, b;
  Simulate2DGaussianField(*v, 2, DX(), 3, DY(), 2, a, &g1, 1, 1, 1.0, 1.0);
  g1.Initialize(s); Simulate2DGaussianField(*v, 2, DX(), 3, DY(), 2, b, &g1, 1, 1, 1.0, 1.0);
  for (int k = 0; k < 2; ++k) for (int i = 0; i < 6; ++i) vp_eq_f64("same-seed-same-field", k*6+i, b[k](i % 2, i / 2), a[k](i % 2, i / 2));
  delete v; }
// state of the generators: what the draws read must be re-established by seeding
ENTRY(reset_global) { NRLib::Random::Initialize(anyseed()); }
ENTRY(drawn_global_norm) { NRLib::Random::Initialize(anyseed()); vp_out_f64("Norm01", 0, NRLib::Random::Norm01()); }
ENTRY(drawn_global_norm2) { NRLib::Random::Norm01(); NRLib::Random::Initialize(anyseed()); vp_out_f64("Norm01", 0, NRLib::Random::Norm01()); vp_out_f64("second Norm01", 1, NRLib::Random::Norm01()); }
ENTRY(drawn_global_others) { NRLib::Random::Initialize(anyseed()); vp_out_f64("Unif01", 2, NRLib::Random::Unif01()); vp_out_f64("Unif01Open", 3, NRLib::Random::Unif01Open()); vp_out_i64("DrawUint32", 4, (long)NRLib::Random::DrawUint32()); vp_out_f64("Unif01", 5, NRLib::Random::Unif01()); }
ENTRY(drawn_object_norm) { NRLib::RandomGenerator* g = new NRLib::RandomGenerator(1); vp_havoc(g, sizeof *g); g->Initialize(anyseed()); vp_out_f64("Norm01", 0, g->Norm01()); }
ENTRY(drawn_object_norm2) { NRLib::RandomGenerator* g = new NRLib::RandomGenerator(1); g->Norm01(); g->Initialize(anyseed()); vp_out_f64("Norm01", 0, g->Norm01()); vp_out_f64("second Norm01", 1, g->Norm01()); }
ENTRY(drawn_object_others) { NRLib::RandomGenerator* g = new NRLib::RandomGenerator(1); vp_havoc(g, sizeof *g); g->Initialize(anyseed()); vp_out_f64("Unif01", 2, g->Unif01()); vp_out_f64("Unif01Open", 3, g->Unif01Open()); vp_out_i64("DrawUint32", 4, (long)g->DrawUint32()); vp_out_f64("Unif01", 5, g->Unif01()); }
ENTRY(drawn_object_ctor) { NRLib::RandomGenerator* g = new NRLib::RandomGenerator(anyseed()); vp_out_f64("Unif01", 5, g->Unif01()); vp_out_i64("DrawUint32", 4, (long)g->DrawUint32()); }
ENTRY(drawn_object_ctor_norm) { NRLib::RandomGenerator* g = new NRLib::RandomGenerator(anyseed()); vp_out_f64("Norm01", 0, g->Norm01()); vp_out_f64("second Norm01", 0, g->Norm01()); }
ENTRY(havoc_1) { vp_py_init(); PyVal v = vsym("exponential"); seed(anyseed()); PyVal a = simd(v, 1); put("field", a); drop(v); }
ENTRY(havoc_2) { vp_py_init(); PyVal v = vsym("exponential"); seed(anyseed()); PyVal a = simd(v, 2); put("field", a); drop(v); }
ENTRY(havoc_3) { vp_py_init(); PyVal v = vsym("exponential"); seed(anyseed()); PyVal a = simd(v, 3); put("field", a); drop(v); }

static double corr1(PyVal& v, double x) { PyVal c[2] = {v, PyVal(x)}; return py_call("Variogram", "corr", c, 2).d; }
static double corr2(PyVal& v, double x, double y) { PyVal c[3] = {v, PyVal(x), PyVal(y)}; return py_call("Variogram", "corr", c, 3).d; }
static double corr3(PyVal& v, double x, double y, double z) { PyVal c[4] = {v, PyVal(x), PyVal(y), PyVal(z)}; return py_call("Variogram", "corr", c, 4).d; }
// ---- histories that differ from the simulation in one argument only (a stale cache keyed by the others would be hit)
struct Cfg { const char* type; double v[6], d[3], s[3]; int n[3], p[3]; };
static Cfg cfg() { Cfg c = {"general_exponential", {vp_wide("rx", 0.5, 8), vp_wide("ry", 0.5, 8), vp_wide("rz", 0.5, 8), vp_real("az", -400, 400), vp_real("dip", -400, 400), vp_real("power", 0.3, 2)},
  {DX(), DY(), DZ()}, {vp_real("sx", 0.1, 0.9), vp_real("sy", 0.1, 0.9), vp_real("sz", 0.1, 0.9)}, {2, 3, 2}, {1, 1, 0}}; return c; }
static void change(Cfg& c, int k) {
  if (k == 0) c.type = "matern52"; else if (k == 6) c.v[5] = vp_real("o", 0.3, 2); else if (k == 4) c.v[3] = vp_real("o", -180, 180); else if (k == 5) c.v[4] = vp_real("o", -90, 90);
  else if (k < 4) c.v[k - 1] = vp_real("o", 0.5, 8); else if (k < 10) c.n[k - 7] += 1; else if (k < 13) c.d[k - 10] = vp_real("o", 0.25, 2); else if (k < 16) c.p[k - 13] += 2; else if (k < 19) c.s[k - 16] = vp_real("o", 0.1, 0.9); }
static PyVal mk(const Cfg& c) { return vario(c.type, c.v[0], c.v[1], c.v[2], c.v[3], c.v[4], c.v[5]); }
static PyVal runc(const Cfg& c, PyVal& v, int D) {
  PyVal a[7] = {v, PyVal(c.n[0]), PyVal(c.d[0]), PyVal(c.n[1]), PyVal(c.d[1]), PyVal(c.n[2]), PyVal(c.d[2])};
  KW k[6] = {{"padx", PyVal(c.p[0])}, {"sx", PyVal(c.s[0])}, {"pady", PyVal(c.p[1])}, {"sy", PyVal(c.s[1])}, {"padz", PyVal(c.p[2])}, {"sz", PyVal(c.s[2])}};
  return py_call("advanced", "simulate", a, 1 + 2*D, k, 2*D); }
static void past(int D, int k) { vp_py_init(); unsigned long s = anyseed(); Cfg c = cfg();
  if (k >= 0) { Cfg h = c; change(h, k); PyVal w = mk(h); PyVal x = runc(h, w, k == 19 ? D % 3 + 1 : D); drop(w); }
  PyVal v = mk(c); seed(s); PyVal a = runc(c, v, D); put("field", a); drop(v); }
#define PAST(D) ENTRY(past_fresh_##D) { past(D, -1); } PAST1(D, 0) PAST1(D, 1) PAST1(D, 2) PAST1(D, 3) PAST1(D, 4) PAST1(D, 5) PAST1(D, 6) PAST1(D, 7) PAST1(D, 8) PAST1(D, 9) PAST1(D, 10) PAST1(D, 11) PAST1(D, 12) PAST1(D, 13) PAST1(D, 14) PAST1(D, 15) PAST1(D, 16) PAST1(D, 17) PAST1(D, 18) PAST1(D, 19)
#define PAST1(D, K) ENTRY(past_##K##_##D) { past(D, K); }
PAST(1) PAST(2) PAST(3)
static PyVal sizec(const Cfg& c, PyVal& v, int D) { PyVal a[7] = {v, PyVal(c.n[0]), PyVal(c.d[0]), PyVal(c.n[1]), PyVal(c.d[1]), PyVal(c.n[2]), PyVal(c.d[2])}; return py_call("_gaussianfft", "simulation_size", a, 1 + 2*D); }
// the same for queries: one argument different in the call before
static void pastq(int k) { vp_py_init(); Cfg c = cfg(); double x[3] = {vp_wide("x", -5, 5), vp_wide("y", -5, 5), vp_wide("z", -5, 5)};
  if (k >= 0) { Cfg h = c; double y[3] = {x[0], x[1], x[2]}; if (k < 19) change(h, k); else y[k - 19] = vp_real("o", -5, 5); PyVal w = mk(h);
    corr1(w, y[0]); corr2(w, y[0], y[1]); corr3(w, y[0], y[1], y[2]); sizec(h, w, 1); sizec(h, w, 2); sizec(h, w, 3); drop(w); }
  PyVal v = mk(c); vp_out_f64("corr", 0, corr1(v, x[0])); vp_out_f64("corr", 1, corr2(v, x[0], x[1])); vp_out_f64("corr", 2, corr3(v, x[0], x[1], x[2]));
  for (int D = 1; D < 4; ++D) { PyVal z = sizec(c, v, D); for (size_t i = 0; i < z.sv.size(); ++i) vp_out_f64("size", D*4 + i, (double)z.sv[i]); } drop(v); }
#define PQ(K) ENTRY(pastq_##K) { pastq(K); }
ENTRY(pastq_fresh) { pastq(-1); }
PQ(0) PQ(1) PQ(2) PQ(3) PQ(4) PQ(5) PQ(6) PQ(7) PQ(8) PQ(9) PQ(10) PQ(11) PQ(12) PQ(19) PQ(20) PQ(21)
// ---------------------------------------------------------------- C03: seed bookkeeping
static unsigned long getseed() { return (unsigned long)py_call("_gaussianfft", "seed", nullptr, 0).i; }
ENTRY(seed_unset) {
  vp_py_init(); int thrown = 0, std_exc = 0;
  try { getseed(); } catch (const std::exception&) { thrown = 1; std_exc = 1; } catch (...) { thrown = 1; }
  vp_true("unset-seed-raises", 0, thrown); vp_true("unset-seed-raises", 1, std_exc); }
ENTRY(seed_unset_after_queries) {
  vp_py_init(); PyVal v = vsym("spherical"); PyVal c[2] = {v, PyVal(vp_real("x", -3, 3))}; py_call("Variogram", "corr", c, 2);
  PyVal z[3] = {v, PyVal(10), PyVal(1.0)}; py_call("_gaussianfft", "simulation_size", z, 3);
  int thrown = 0; try { getseed(); } catch (const std::exception&) { thrown = 1; }
  vp_true("unset-seed-raises", 2, thrown); drop(v); }
ENTRY(seed_get) { vp_py_init(); unsigned long s = anyseed(); seed(s); vp_eq_i64("seed-is-returned", 0, (long)getseed(), (long)s); vp_eq_i64("seed-is-returned", 1, (long)getseed(), (long)s); }
ENTRY(seed_big) { vp_py_init(); unsigned long s = (unsigned long)vp_i64("seed", 0, 0x7fffffffffffffffll); seed(s); vp_eq_i64("seed-is-returned", 2, (long)getseed(), (long)s); }
#define SEEDS(D) \
ENTRY(seed_kept_##D) { vp_py_init(); PyVal v = vsym("exponential"); unsigned long s = anyseed(); seed(s); simd(v, D); vp_eq_i64("seed-kept-by-simulation", 0, (long)getseed(), (long)s); simd(v, D); simd(v, 3); vp_eq_i64("seed-kept-by-simulation", 1, (long)getseed(), (long)s); drop(v); } \
ENTRY(seed_auto_##D) { vp_py_init(); PyVal v = vsym("gaussian"); PyVal a = simd(v, D); unsigned long s = getseed(); PyVal a2 = simd(v, D); vp_eq_i64("seed-kept-by-simulation", 2, (long)getseed(), (long)s); \
  seed(s); PyVal b = simd(v, D); PyVal b2 = simd(v, D); same("reported-seed-reproduces", b, a); same("reported-seed-reproduces", b2, a2); drop(v); } \
ENTRY(seed_query_neutral_##D) { vp_py_init(); PyVal v = vsym("matern52"); unsigned long s = anyseed(); seed(s); PyVal a = simd(v, D); PyVal c = simd(v, D); seed(s); getseed(); PyVal b = simd(v, D); getseed(); PyVal e = simd(v, D); same("reading-the-seed-is-neutral", b, a); same("reading-the-seed-is-neutral", e, c); drop(v); } \
ENTRY(seed_not_clock_##D) { vp_py_init(); PyVal v = vsym("matern52"); seed(anyseed()); PyVal a = simd(v, D); PyVal c = simd(v, D); put("field", a); put("field2", c); drop(v); } \
ENTRY(seed_distinct_##D) { vp_py_init(); PyVal v = vsym("exponential"); seed(anyseed()); PyVal a = simd(v, D); put("a", a); drop(v); }
SEEDS(1) SEEDS(2) SEEDS(3)

// ---------------------------------------------------------------- C04: queries do not disturb, simulations leave the variogram alone
static PyVal size_(PyVal& v, int d) { PyVal a[7] = {v, PyVal(6), PyVal(1.0), PyVal(5), PyVal(1.0), PyVal(4), PyVal(1.0)}; return py_call("_gaussianfft", "simulation_size", a, 1 + 2*d); }
static void queries(PyVal& v) {
  double x = vp_wide("x", -5, 5), y = vp_wide("y", -5, 5), z = vp_wide("z", -5, 5);
  corr1(v, x); corr2(v, x, y); corr3(v, x, y, z); size_(v, 1); size_(v, 2); size_(v, 3); getseed(); py_call("_gaussianfft", "quote", nullptr, 0);
  PyVal o = vario("constant", 2, 3, 4, 5, 6, 1); drop(o);
}
#define PURE(D, F) \
ENTRY(pure_query_##D) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym(F); seed(s); PyVal a = simd(v, D); PyVal a2 = simd(v, 3); \
  seed(s); queries(v); PyVal b = simd(v, D); queries(v); PyVal b2 = simd(v, 3); same("queries-do-not-disturb", b, a); same("queries-do-not-disturb", b2, a2); drop(v); } \
ENTRY(pure_vario_##D) { vp_py_init(); PyVal v = vsym(F); double x = vp_wide("x", -5, 5), y = vp_wide("y", -5, 5), z = vp_wide("z", -5, 5); \
  NRLib::Variogram* p = static_cast<NRLib::Variogram*>(v.p); \
  double c0[9] = {corr1(v, x), corr2(v, x, y), corr3(v, x, y, z), p->GetRangeX(), p->GetRangeY(), p->GetRangeZ(), p->GetAzimuthAngle(), p->GetDipAngle(), p->GetStdDev()}; PyVal s0 = size_(v, 3); \
  seed(anyseed()); simd(v, D); sim3s(v, 2, 2, 2, 0, 1, 0); \
  double c1[9] = {corr1(v, x), corr2(v, x, y), corr3(v, x, y, z), p->GetRangeX(), p->GetRangeY(), p->GetRangeZ(), p->GetAzimuthAngle(), p->GetDipAngle(), p->GetStdDev()}; PyVal s1 = size_(v, 3); \
  for (int i = 0; i < 9; ++i) vp_eq_f64("variogram-unchanged-by-simulation", i, c1[i], c0[i]); \
  vp_eq_i64("variogram-unchanged-by-simulation", 9, (long)s1.sv.size(), (long)s0.sv.size()); for (size_t i = 0; i < s1.sv.size() && i < s0.sv.size(); ++i) vp_eq_i64("variogram-unchanged-by-simulation", 10 + i, (long)s1.sv[i], (long)s0.sv[i]); drop(v); }
PURE(1, "spherical") PURE(2, "general_exponential") PURE(3, "matern72")
ENTRY(pure_repeat) { vp_py_init(); PyVal v = vsym("general_exponential"); PyVal w = vario("gaussian", 3, 4, 5, 6, 7, 1); double x = vp_wide("x", -5, 5), y = vp_wide("y", -5, 5), z = vp_wide("z", -5, 5);
  double a = corr3(v, x, y, z), a1 = corr1(v, x), a2 = corr2(v, x, y); corr3(w, y, x, z); corr1(w, z); corr2(w, z, x); corr3(v, 0, 0, 0); corr1(v, 0);
  vp_eq_f64("corr-is-a-function", 0, corr3(v, x, y, z), a); vp_eq_f64("corr-is-a-function", 1, corr1(v, x), a1); vp_eq_f64("corr-is-a-function", 2, corr2(v, x, y), a2); drop(v); drop(w); }
ENTRY(pure_two_variograms) { vp_py_init(); double x = vp_wide("x", -5, 5), y = vp_wide("y", -5, 5), z = vp_wide("z", -5, 5);
  PyVal v = vsym("matern52"); double a = corr3(v, x, y, z); PyVal w = vario("matern52", 2, 3, 4, 50, 60, 1); PyVal u = vario("spherical", 2, 3, 4, 50, 60, 1);
  seed(anyseed()); simd(w, 2); simd(u, 3); vp_eq_f64("variograms-are-independent", 0, corr3(v, x, y, z), a); drop(w); drop(u); vp_eq_f64("variograms-are-independent", 1, corr3(v, x, y, z), a); drop(v); }
ENTRY(pure_same_variogram_again) { vp_py_init(); unsigned long s = anyseed();      // a variogram with the same parameters is interchangeable
  PyVal v = vsym("exponential"); seed(s); PyVal a = simd(v, 2); drop(v); PyVal w = vsym("exponential"); seed(s); PyVal b = simd(w, 2); same("variogram-is-a-value", b, a); drop(w); }
ENTRY(pure_other_variogram_between) { vp_py_init(); unsigned long s = anyseed();
  PyVal v = vsym("exponential"); PyVal w = vario("exponential", 2, 3, 4, 0, 0, 1.5); seed(s); PyVal x = simd(w, 3); PyVal a = simd(v, 3); seed(s); PyVal y = simd(v, 3); PyVal b = simd(v, 3); same("variogram-is-a-value", b, a); drop(v); drop(w); }
ENTRY(pure_mutate_between) { using namespace NRLib; unsigned long s = anyseed();
  Variogram* v = Variogram::Create(Variogram::MATERN52, 1.5, 2.0, 3.0, 4.0, 0.1, 0.2, 1.0); Random::Initialize(s);
  std::vector<Grid2D<double> > a, b; Simulate2DGaussianField(*v, 2, DX(), 3, DY(), 1, a, NULL, 1, 1, 1.0, 1.0);
  double rx = vp_wide("rx", 0.5, 8), ry = vp_wide("ry", 0.5, 8), rz = vp_wide("rz", 0.5, 8), az = vp_real("azr", -3, 3), dp = vp_real("dipr", -1.5, 1.5), sd = vp_real("sd", 0.2, 4);
  v->SetRangeX(rx); v->SetRangeY(ry); v->SetRangeZ(rz); v->SetAngles(az, dp); v->SetStdDev(sd);
  Random::Initialize(s); Simulate2DGaussianField(*v, 2, DX(), 3, DY(), 1, a, NULL, 1, 1, 1.0, 1.0);
  Variogram* w = Variogram::Create(Variogram::MATERN52, 1.5, rx, ry, rz, az, dp, sd); Random::Initialize(s); Simulate2DGaussianField(*w, 2, DX(), 3, DY(), 1, b, NULL, 1, 1, 1.0, 1.0);
  for (int i = 0; i < 6; ++i) vp_eq_f64("variogram-is-a-value", i, a[a.size()-1](i % 2, i / 2), b[0](i % 2, i / 2)); delete v; delete w; }

// ---------------------------------------------------------------- C05: dimension dispatch and argument routing
#define TWICE(NAME, RULE, A_, B_) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("exponential"); double dx = DX(), dy = DY(), dz = DZ(); (void)dx; (void)dy; (void)dz; seed(s); PyVal a = A_; seed(s); PyVal b = B_; same(RULE, a, b); vp_true(RULE, -2, b.dv.size() > 0); drop(v); }
struct Args { PyVal a[13]; int n; KW k[13]; int nk; };
template<class... P> static PyVal call(const char* sc, P... p) { PyVal a[sizeof...(P)] = {PyVal(p)...}; return py_call(sc, "simulate", a, (int)sizeof...(P)); }
static PyVal kw(const char* sc, PyVal v, std::initializer_list<KW> ks) { PyVal a[1] = {v}; KW k[13]; int n = 0; for (const KW& x : ks) k[n++] = x; return py_call(sc, "simulate", a, 1, k, n); }
#define G "_gaussianfft"
TWICE(dim_1d_default, "one-dimensional", call("advanced", v, 4, dx, 1, dy, 1, dz, 2, 5, 6), call("advanced", v, 4, dx, 1, -1.0, 1, -1.0, 2))
TWICE(dim_1d_ny0, "one-dimensional", call("advanced", v, 4, dx, 0, dy, 3, dz, 2, 5, 6), call("advanced", v, 4, dx, 1, -1.0, 1, -1.0, 2))
TWICE(dim_1d_nz, "one-dimensional", call("advanced", v, 4, dx, 1, dy, 3, dz, 2, 1, 1), call("advanced", v, 4, dx, 1, -1.0, 1, -1.0, 2))
TWICE(dim_1d_nody, "one-dimensional", call("advanced", v, 4, dx, 3, -1.0, 3, dz, 2, 1, 1), call("advanced", v, 4, dx, 1, -1.0, 1, -1.0, 2))
TWICE(dim_2d_nz0, "two-dimensional", call("advanced", v, 3, dx, 2, dy, 0, dz, 1, 1, 4), call("advanced", v, 3, dx, 2, dy, 1, -1.0, 1, 1))
TWICE(dim_2d_nz1, "two-dimensional", call("advanced", v, 3, dx, 2, dy, 1, dz, 1, 1, 4), call("advanced", v, 3, dx, 2, dy, 1, -1.0, 1, 1))
TWICE(dim_2d_nodz, "two-dimensional", call("advanced", v, 3, dx, 2, dy, 3, -1.0, 1, 1, 4), call("advanced", v, 3, dx, 2, dy, 1, -1.0, 1, 1))
TWICE(kw_3d, "keywords-name-the-same-arguments", kw("advanced", v, {{"sz", PyVal(0.5)}, {"sy", PyVal(0.6)}, {"sx", PyVal(0.7)}, {"padz", PyVal(1)}, {"pady", PyVal(0)}, {"padx", PyVal(2)}, {"dz", PyVal(dz)}, {"nz", PyVal(2)}, {"dy", PyVal(dy)}, {"ny", PyVal(3)}, {"dx", PyVal(dx)}, {"nx", PyVal(2)}}), call("advanced", v, 2, dx, 3, dy, 2, dz, 2, 0, 1, 0.7, 0.6, 0.5))
#undef TWICE
#define TWICE(NAME, RULE, A_, B_) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vario("exponential", 2, 1, 1, 30, 20, 1.5); double dx = 1.0, dy = 0.5, dz = 1.0; (void)dx; (void)dy; (void)dz; seed(s); PyVal a = A_; seed(s); PyVal b = B_; same(RULE, a, b); vp_true(RULE, -2, b.dv.size() > 0); drop(v); }
TWICE(kw_plain, "keywords-name-the-same-arguments", kw(G, v, {{"dz", PyVal(dz)}, {"nz", PyVal(2)}, {"dy", PyVal(dy)}, {"ny", PyVal(2)}, {"dx", PyVal(dx)}, {"nx", PyVal(3)}}), call(G, v, 3, dx, 2, dy, 2, dz))
TWICE(adv_1, "advanced-defaults", call("advanced", v, 4, dx), call(G, v, 4, dx))
TWICE(adv_2, "advanced-defaults", call("advanced", v, 3, dx, 2, dy), call(G, v, 3, dx, 2, dy))
TWICE(adv_3, "advanced-defaults", call("advanced", v, 2, dx, 3, dy, 2, dz), call(G, v, 2, dx, 3, dy, 2, dz))
TWICE(adv_1s, "advanced-defaults", call("advanced", v, 4, dx, 1, -1.0, 1, -1.0, -1, -1, -1, 1.0, 1.0, 1.0), call(G, v, 4, dx))
TWICE(adv_2s, "advanced-defaults", call("advanced", v, 3, dx, 2, dy, 1, -1.0, -1, -1, -1, 1.0, 1.0, 1.0), call(G, v, 3, dx, 2, dy))
TWICE(adv_3s, "advanced-defaults", call("advanced", v, 2, dx, 3, dy, 2, dz, -1, -1, -1, 1.0, 1.5, 2.0), call(G, v, 2, dx, 3, dy, 2, dz))
static PyVal autopad(PyVal v, int d) {      // simulate with the padding simulation_size announces
  PyVal a[7] = {v, PyVal(2), PyVal(1.0), PyVal(3), PyVal(0.5), PyVal(2), PyVal(1.0)};
  PyVal z = py_call(G, "simulation_size", a, 1 + 2*d); long n[3] = {2, 3, 2}; KW k[3]; const char* nm[3] = {"padx", "pady", "padz"};
  for (int i = 0; i < d; ++i) k[i] = {nm[i], PyVal((long)z.sv[i] - n[i])};
  return py_call("advanced", "simulate", a, 1 + 2*d, k, d);
}
TWICE(auto_1, "automatic-padding-is-simulation-size", autopad(v, 1), call(G, v, 2, 1.0))
TWICE(auto_2, "automatic-padding-is-simulation-size", autopad(v, 2), call(G, v, 2, 1.0, 3, 0.5))
TWICE(auto_3, "automatic-padding-is-simulation-size", autopad(v, 3), call(G, v, 2, 1.0, 3, 0.5, 2, 1.0))
#undef TWICE
#define TWICE(NAME, RULE, V, W) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = V, w = W; seed(s); PyVal a = simd(v, 3); seed(s); PyVal b = simd(w, 3); same(RULE, a, b); drop(v); drop(w); }
TWICE(vario_dummy, "deterministic-factory", vsym("matern32"), vsym("matern32"))

// ---------------------------------------------------------------- C06: shape and layout of the result
#define LEN(NAME, WANT, ...) ENTRY(NAME) { vp_py_init(); PyVal v = vario("exponential", 1, 1, 1, 0, 0, 1.5); seed(anyseed()); PyVal a = call(G, v, __VA_ARGS__); vp_eq_i64("result-length", WANT, (long)a.dv.size(), WANT); vp_eq_i64("result-is-a-vector", 0, a.kind, PyVal::DVEC); drop(v); }
LEN(len_1, 1, 1, 1.0) LEN(len_2, 7, 7, 1.0) LEN(len_3, 7, 7, 1.0, 1, 1.0) LEN(len_4, 7, 7, 1.0, 0, 1.0) LEN(len_5, 6, 3, 1.0, 2, 1.0) LEN(len_6, 6, 3, 1.0, 2, 1.0, 1, 1.0) LEN(len_7, 6, 2, 1.0, 3, 1.0, 0, 1.0)
LEN(len_8, 12, 2, 1.0, 3, 1.0, 2, 1.0) LEN(len_9, 6, 1, 1.0, 3, 1.0, 2, 1.0) LEN(len_10, 5, 1, 1.0, 5, 1.0) LEN(len_11, 30, 5, 1.0, 3, 1.0, 2, 1.0) LEN(len_12, 13, 13, 0.5) LEN(len_13, 24, 8, 1.0, 3, 1.0) LEN(len_14, 2, 2, 1.0, 1, 1.0, 4, 1.0)
#define LAY3(NAME, NX, NY, NZ, PX, PY_, PZ) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("exponential"); seed(s); PyVal a = sim3(v, NX, NY, NZ, PX, PY_, PZ); \
  NRLib::Random::Initialize(s); std::vector<NRLib::Grid<double> > g; NRLib::Simulate3DGaussianField(*static_cast<NRLib::Variogram*>(v.p), NX, DX(), NY, DY(), NZ, DZ(), 1, g, PX, PY_, PZ, 1.0, 1.0, 1.0); \
  vp_eq_i64("result-length", 0, (long)a.dv.size(), NX*NY*NZ); vp_eq_i64("result-length", 1, (long)g.size(), 1); \
  for (int k = 0; k < NZ; ++k) for (int j = 0; j < NY; ++j) for (int i = 0; i < NX; ++i) vp_eq_f64("fortran-order", i + NX*(j + NY*k), a.dv[i + NX*(j + NY*k)], g[0](i, j, k)); drop(v); }
#define LAY2(NAME, NX, NY, PX, PY_) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("gaussian"); seed(s); PyVal a = sim2(v, NX, NY, PX, PY_); \
  NRLib::Random::Initialize(s); std::vector<NRLib::Grid2D<double> > g; NRLib::Simulate2DGaussianField(*static_cast<NRLib::Variogram*>(v.p), NX, DX(), NY, DY(), 1, g, NULL, PX, PY_, 1.0, 1.0); \
  vp_eq_i64("result-length", 0, (long)a.dv.size(), NX*NY); \
  for (int j = 0; j < NY; ++j) for (int i = 0; i < NX; ++i) vp_eq_f64("fortran-order", i + NX*j, a.dv[i + NX*j], g[0](i, j)); drop(v); }
#define LAY1(NAME, NX, PX) ENTRY(NAME) { vp_py_init(); unsigned long s = anyseed(); PyVal v = vsym("matern32"); seed(s); PyVal a = sim1(v, NX, PX); \
  NRLib::Random::Initialize(s); std::vector<double> g(NX); NRLib::Simulate1DGaussianField(*static_cast<NRLib::Variogram*>(v.p), NX, DX(), g, NULL, PX, 1.0); \
  vp_eq_i64("result-length", 0, (long)a.dv.size(), NX); for (int i = 0; i < NX; ++i) vp_eq_f64("fortran-order", i, a.dv[i], g[i]); drop(v); }
LAY3(lay3_a, 2, 3, 4, 1, 0, 1) LAY3(lay3_b, 4, 2, 3, 0, 2, 0) LAY3(lay3_c, 1, 2, 2, 3, 1, 1) LAY3(lay3_d, 3, 4, 2, 0, 0, 0)
LAY2(lay2_a, 2, 3, 1, 1) LAY2(lay2_b, 4, 3, 0, 2) LAY2(lay2_c, 1, 5, 2, 0) LAY2(lay2_d, 5, 2, 1, 0)
LAY1(lay1_a, 5, 2) LAY1(lay1_b, 1, 4) LAY1(lay1_c, 9, 0)
LAY3(lay3_l, 66, 2, 3, 4, 0, 1) LAY3(lay3_m, 2, 66, 2, 0, 4, 0) LAY3(lay3_n, 2, 3, 66, 1, 0, 4) LAY2(lay2_l, 130, 2, 5, 1) LAY2(lay2_m, 3, 130, 0, 5) LAY1(lay1_l, 520, 5)

// Variogram object: geometry, mutation, factory, padding, covariance grids.
#define PYCALL_DEFINE
#include "pycall.h"
#include "spec.h"
#include <exception>
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
#include "nrlib/variogram/gaussianfield.hpp"
#include "nrlib/variogram/fftcovgrid.hpp"
#include "nrlib/variogram/covgrid2d.hpp"
#include "nrlib/fft/fft.hpp"
using py::PyVal;
using namespace NRLib;
#define R(n) vp_wide(n, 0.05, 500)
#define LAG(n) vp_wide(n, -300, 300)
#define ANG(n) vp_real(n, -7, 7)
static Variogram* mk(int t, double p, double rx, double ry, double rz, double az, double dip, double sd) { return Variogram::Create(static_cast<Variogram::Type>(t), p, rx, ry, rz, az, dip, sd); }
static Variogram* mksym(int t) { return mk(t, vp_real("power", 0.1, 2), R("rx"), R("ry"), R("rz"), ANG("az"), ANG("dip"), vp_real("sd", 0, 10)); }
#define ALLT(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)

// ------------------------------------------------ C10
#define GEO(T) ENTRY(geo_##T) { \
  double rx = R("rx"), ry = R("ry"), rz = R("rz"), az = ANG("az"), dp = ANG("dip"), p = vp_real("power", 0.1, 2), sd = vp_real("sd", 0, 10), x = LAG("x"), y = LAG("y"), z = LAG("z"); \
  Variogram* v = mksym(T); double c3 = spec_corr3(T, x, y, z, rx, ry, rz, az, dp, p); \
  vp_eq_f64("anisotropic-distance", 3, v->GetCorr(x, y, z), c3); \
  vp_eq_f64("lower-dimension-agrees", 2, v->GetCorr(x, y), v->GetCorr(x, y, 0.0)); \
  vp_eq_f64("lower-dimension-agrees", 1, v->GetCorr(x), v->GetCorr(x, 0.0, 0.0)); \
  vp_eq_f64("even-in-the-lag", 3, v->GetCorr(-x, -y, -z), v->GetCorr(x, y, z)); \
  vp_eq_f64("even-in-the-lag", 2, v->GetCorr(-x, -y), v->GetCorr(x, y)); \
  vp_eq_f64("even-in-the-lag", 1, v->GetCorr(-x), v->GetCorr(x)); \
  vp_eq_f64("one-at-zero-lag", 3, v->GetCorr(0.0, 0.0, 0.0), 1.0); vp_eq_f64("one-at-zero-lag", 2, v->GetCorr(0.0, 0.0), 1.0); vp_eq_f64("one-at-zero-lag", 1, v->GetCorr(0.0), 1.0); \
  vp_true("at-most-one", 3, v->GetCorr(x, y, z) <= 1.0 + 1e-12); vp_true("not-negative", 3, v->GetCorr(x, y, z) >= -1e-12); \
  double cx = vp_real("cx", -50, 50), cy = vp_real("cy", -50, 50), cz = vp_real("cz", -50, 50); \
  vp_eq_f64("points-use-the-difference", 3, v->GetCorrpoint(cx, cy, cz, x, y, z), v->GetCorr(x - cx, y - cy, z - cz)); \
  vp_eq_f64("points-use-the-difference", 2, v->GetCorrpoint(cx, cy, x, y), v->GetCorr(x - cx, y - cy)); \
  vp_eq_f64("points-use-the-difference", 1, v->GetCorrpoint(cx, x), v->GetCorr(x - cx)); \
  vp_eq_f64("covariance-is-variance-times-correlation", 3, v->GetCov(x, y, z), sd*sd*c3); \
  vp_eq_f64("covariance-is-variance-times-correlation", 2, v->GetCov(x, y), sd*sd*v->GetCorr(x, y)); \
  vp_eq_f64("covariance-is-variance-times-correlation", 1, v->GetCov(x), sd*sd*v->GetCorr(x)); \
  vp_eq_f64("covariance-is-variance-times-correlation", 13, v->GetCovpoint(cx, cy, cz, x, y, z), sd*sd*v->GetCorr(x - cx, y - cy, z - cz)); \
  vp_eq_f64("covariance-is-variance-times-correlation", 12, v->GetCovpoint(cx, cy, x, y), sd*sd*v->GetCorr(x - cx, y - cy)); \
  vp_eq_f64("covariance-is-variance-times-correlation", 11, v->GetCovpoint(cx, x), sd*sd*v->GetCorr(x - cx)); \
  vp_eq_f64("variogram-complements-covariance", 3, v->GetVariogram(x, y, z), sd*sd - v->GetCov(x, y, z)); \
  vp_eq_f64("variogram-complements-covariance", 2, v->GetVariogram(x, y), sd*sd - v->GetCov(x, y)); \
  vp_eq_f64("variogram-complements-covariance", 1, v->GetVariogram(x), sd*sd - v->GetCov(x)); \
  vp_eq_f64("parameters-are-kept", 0, v->GetRangeX(), rx); vp_eq_f64("parameters-are-kept", 1, v->GetRangeY(), ry); vp_eq_f64("parameters-are-kept", 2, v->GetRangeZ(), rz); \
  vp_eq_f64("parameters-are-kept", 3, v->GetAzimuthAngle(), az); vp_eq_f64("parameters-are-kept", 4, v->GetDipAngle(), dp); vp_eq_f64("parameters-are-kept", 5, v->GetStdDev(), sd); \
  delete v; }
ALLT(GEO)
// principal directions: one range along each principal axis gives unit distance (checked with the exponential family)
ENTRY(geo_axes) {
  double rx = R("rx"), ry = R("ry"), rz = R("rz"), az = ANG("az"), dp = ANG("dip"), t = vp_real("t", 0, 3); Variogram* v = mk(Variogram::EXPONENTIAL, 1.5, rx, ry, rz, az, dp, 1.0);
  double ca = std::cos(az), sa = std::sin(az), cd = std::cos(dp), sd = std::sin(dp);
  vp_eq_f64("principal-directions", 0, v->GetCorr(t*rx*ca*cd, t*rx*sa*cd, t*rx*sd), std::exp(-3.0*t));
  vp_eq_f64("principal-directions", 1, v->GetCorr(-t*ry*sa, t*ry*ca, 0.0), std::exp(-3.0*t));
  vp_eq_f64("principal-directions", 2, v->GetCorr(-t*rz*ca*sd, -t*rz*sa*sd, t*rz*cd), std::exp(-3.0*t)); delete v; }
ENTRY(geo_python) {      // the Python method is the same function
  vp_py_init(); double x = LAG("x"), y = LAG("y"), z = LAG("z"); Variogram* v = mksym(Variogram::EXPONENTIAL); PyVal h = PyVal::ptr(v);
  PyVal a1[2] = {h, PyVal(x)}, a2[3] = {h, PyVal(x), PyVal(y)}, a3[4] = {h, PyVal(x), PyVal(y), PyVal(z)};
  vp_eq_f64("python-corr", 1, py_call("Variogram", "corr", a1, 2).d, v->GetCorr(x)); vp_eq_f64("python-corr", 2, py_call("Variogram", "corr", a2, 3).d, v->GetCorr(x, y)); vp_eq_f64("python-corr", 3, py_call("Variogram", "corr", a3, 4).d, v->GetCorr(x, y, z)); delete v; }

// ------------------------------------------------ C11
static void equiv(const char* w, Variogram* a, Variogram* b) {
  double x = LAG("x"), y = LAG("y"), z = LAG("z");
  vp_eq_f64(w, 0, a->GetCorr(x, y, z), b->GetCorr(x, y, z)); vp_eq_f64(w, 1, a->GetCorr(x, y), b->GetCorr(x, y)); vp_eq_f64(w, 2, a->GetCorr(x), b->GetCorr(x));
  vp_eq_f64(w, 3, a->GetCov(x, y, z), b->GetCov(x, y, z)); vp_eq_f64(w, 4, a->GetVariogram(x, y), b->GetVariogram(x, y));
  vp_eq_f64(w, 5, a->GetRangeX(), b->GetRangeX()); vp_eq_f64(w, 6, a->GetRangeY(), b->GetRangeY()); vp_eq_f64(w, 7, a->GetRangeZ(), b->GetRangeZ());
  vp_eq_f64(w, 8, a->GetAzimuthAngle(), b->GetAzimuthAngle()); vp_eq_f64(w, 9, a->GetDipAngle(), b->GetDipAngle()); vp_eq_f64(w, 10, a->GetStdDev(), b->GetStdDev());
  vp_eq_f64(w, 11, a->GetMinimumRangeToGridRatio(), b->GetMinimumRangeToGridRatio());
}
#define P_ vp_real("power", 0.1, 2)
#define SD vp_real("sd", 0, 10)
#define MUT(NAME, T, RULE, STMT, ...) ENTRY(mut_##NAME##_##T) { double rx = R("rx"), ry = R("ry"), rz = R("rz"), az = ANG("az"), dp = ANG("dip"), sd = SD, n = R("n"), m = R("m"), l = R("l"), b = ANG("b"), c = ANG("c"), s = vp_real("s", 0, 10); \
  (void)rx; (void)ry; (void)rz; (void)az; (void)dp; (void)sd; (void)n; (void)m; (void)l; (void)b; (void)c; (void)s; \
  Variogram* v = mksym(T); STMT; Variogram* w = mk(T, P_, __VA_ARGS__); equiv(RULE, v, w); delete v; delete w; }
#define MUTS(T) \
  MUT(rx, T, "setter-rederives", v->SetRangeX(n), n, ry, rz, az, dp, sd) MUT(ry, T, "setter-rederives", v->SetRangeY(n), rx, n, rz, az, dp, sd) MUT(rz, T, "setter-rederives", v->SetRangeZ(n), rx, ry, n, az, dp, sd) \
  MUT(ranges, T, "setter-rederives", v->SetRanges(n, m, l), n, m, l, az, dp, sd) MUT(angles, T, "setter-rederives", v->SetAngles(b, c), rx, ry, rz, b, c, sd) MUT(angles1, T, "setter-rederives", v->SetAngles(b), rx, ry, rz, b, 0.0, sd) \
  MUT(rotate, T, "setter-rederives", v->RotateAngles(b, c), rx, ry, rz, az + b, dp + c, sd) MUT(rotate1, T, "setter-rederives", v->RotateAngles(b), rx, ry, rz, az + b, dp, sd) MUT(std, T, "setter-rederives", v->SetStdDev(s), rx, ry, rz, az, dp, s) \
  MUT(limx, T, "limit-is-minimum", v->LimitRangeX(n), n < rx ? n : rx, ry, rz, az, dp, sd) MUT(limy, T, "limit-is-minimum", v->LimitRangeY(n), rx, n < ry ? n : ry, rz, az, dp, sd) MUT(limz, T, "limit-is-minimum", v->LimitRangeZ(n), rx, ry, n < rz ? n : rz, az, dp, sd) \
  MUT(same_xy, T, "setter-rederives", v->SetRanges(rx, ry, l), rx, ry, l, az, dp, sd) MUT(same_yz, T, "setter-rederives", v->SetRanges(n, ry, rz), n, ry, rz, az, dp, sd) MUT(same_xz, T, "setter-rederives", v->SetRanges(rx, m, rz), rx, m, rz, az, dp, sd) \
  MUT(same_az, T, "setter-rederives", v->SetAngles(az, c), rx, ry, rz, az, c, sd) MUT(same_dip, T, "setter-rederives", v->SetAngles(b, dp), rx, ry, rz, b, dp, sd) MUT(rot_az, T, "setter-rederives", v->RotateAngles(b, 0.0), rx, ry, rz, az + b, dp, sd) MUT(rot_dip, T, "setter-rederives", v->RotateAngles(0.0, c), rx, ry, rz, az, dp + c, sd) \
  MUT(chain, T, "setters-compose", v->SetRangeX(m); v->SetAngles(b, c); v->SetRangeZ(l); v->RotateAngles(az, dp); v->SetStdDev(s); v->SetRangeY(n), m, n, l, b + az, c + dp, s)
ALLT(MUTS)
#define CLONE(T) ENTRY(clone_##T) { Variogram* v = mksym(T); Variogram* w = v->Clone(); equiv("clone-is-equal", w, v); vp_true("clone-is-a-new-object", 0, w != v); vp_true("clone-keeps-the-type", 0, w->GetName() == v->GetName()); \
  Variogram* u = mksym(T); w->SetRanges(R("n"), R("m"), R("l")); w->SetAngles(ANG("b"), ANG("c")); w->SetStdDev(vp_real("s", 0, 10)); equiv("clone-is-independent", v, u); \
  Variogram* q = mk(T, P_, R("n"), R("m"), R("l"), ANG("b"), ANG("c"), vp_real("s", 0, 10)); delete v; equiv("clone-is-independent", w, q); delete w; delete u; delete q; }
ALLT(CLONE)
template<class F> static void rejected(int T, const char* what, F f) {
  Variogram* v = mksym(T); Variogram* u = mksym(T); int thrown = 0; int std_exc = 0;
  try { f(v); } catch (const std::exception&) { thrown = 1; std_exc = 1; } catch (...) { thrown = 1; }
  vp_true("invalid-range-rejected", 0, thrown); vp_true("invalid-range-rejected", 1, std_exc); equiv("rejected-change-leaves-object", v, u); delete v; delete u; }
#define BAD vp_real("bad", -100, 0)
ENTRY(rej_x) { rejected(1, "x", [](Variogram* v) { v->SetRangeX(BAD); }); }
ENTRY(rej_y) { rejected(2, "y", [](Variogram* v) { v->SetRangeY(BAD); }); }
ENTRY(rej_z) { rejected(4, "z", [](Variogram* v) { v->SetRangeZ(BAD); }); }
ENTRY(rej_r1) { rejected(1, "r", [](Variogram* v) { v->SetRanges(BAD, R("m"), R("l")); }); }
ENTRY(rej_r2) { rejected(3, "r", [](Variogram* v) { v->SetRanges(R("n"), BAD, R("l")); }); }
ENTRY(rej_r3) { rejected(5, "r", [](Variogram* v) { v->SetRanges(R("n"), R("m"), BAD); }); }
ENTRY(rej_lx) { rejected(1, "lx", [](Variogram* v) { v->LimitRangeX(BAD); }); }
ENTRY(rej_ly) { rejected(1, "ly", [](Variogram* v) { v->LimitRangeY(BAD); }); }
ENTRY(rej_lz) { rejected(1, "lz", [](Variogram* v) { v->LimitRangeZ(BAD); }); }
ENTRY(rej_type) { int thrown = 0; try { mk(8, 1, 1, 1, 1, 0, 0, 1); } catch (const std::exception&) { thrown = 1; } vp_true("unknown-type-rejected", 0, thrown); }

// ------------------------------------------------ C12
static PyVal pyv(const char* t, int n, KW* k = nullptr, int nk = 0) {
  PyVal a[7] = {PyVal(t), PyVal(R("rx")), PyVal(R("ry")), PyVal(R("rz")), PyVal(vp_real("azd", -800, 800)), PyVal(vp_real("dipd", -800, 800)), PyVal(P_)};
  return py_call("_gaussianfft", "variogram", a, n, k, nk);
}
#define DEG (SPEC_PI/180.0)
#define NAMED(ID, T, STR) ENTRY(fac_##T##_##ID) { vp_py_init(); PyVal h = pyv(STR, 7); Variogram* v = static_cast<Variogram*>(h.p); Variogram* w = mk(T, P_, R("rx"), R("ry"), R("rz"), vp_real("azd", -800, 800)*DEG, vp_real("dipd", -800, 800)*DEG, 1.0); equiv("name-selects-family", v, w); \
  vp_true("name-selects-family", 20, v->GetName() == w->GetName()); delete v; delete w; }
#define NAMES(T, LO, UP, MIX) NAMED(lower, T, LO) NAMED(upper, T, UP) NAMED(mixed, T, MIX)

NAMES(0, "constant", "CONSTANT", "Constant") NAMES(1, "exponential", "EXPONENTIAL", "expoNential") NAMES(2, "spherical", "SPHERICAL", "Spherical") NAMES(3, "gaussian", "GAUSSIAN", "gaussiaN")
NAMES(4, "general_exponential", "GENERAL_EXPONENTIAL", "General_Exponential") NAMES(5, "matern32", "MATERN32", "Matern32") NAMES(6, "matern52", "MATERN52", "mAtern52") NAMES(7, "matern72", "MATERN72", "materN72")
// defaults: 1..7 positional arguments given
#define FDEF(N, RY, RZ, AZ, DIP, PW) ENTRY(fdef_##N) { vp_py_init(); PyVal h = pyv("general_exponential", N); Variogram* v = static_cast<Variogram*>(h.p); double rx = R("rx"), ry = R("ry"), rz = R("rz"), azd = vp_real("azd", -800, 800), dipd = vp_real("dipd", -800, 800); \
  (void)ry; (void)rz; (void)azd; (void)dipd; Variogram* w = mk(4, PW, rx, RY, RZ, (AZ)*DEG, (DIP)*DEG, 1.0); equiv("documented-defaults", v, w); delete v; delete w; }
FDEF(2, rx, rx, 0.0, 0.0, 1.5) FDEF(3, ry, rx, 0.0, 0.0, 1.5) FDEF(4, ry, rz, 0.0, 0.0, 1.5) FDEF(5, ry, rz, azd, 0.0, 1.5) FDEF(6, ry, rz, azd, dipd, 1.5) FDEF(7, ry, rz, azd, dipd, P_)
// zero or negative secondary ranges mean the main range
#define FZ(ID, RYV, RZV, WY, WZ) ENTRY(fzero_##ID) { vp_py_init(); double rx = R("rx"), ry = R("ry"), rz = R("rz"); (void)ry; (void)rz; PyVal a[4] = {PyVal("gaussian"), PyVal(rx), PyVal(RYV), PyVal(RZV)}; PyVal h = py_call("_gaussianfft", "variogram", a, 4); \
  Variogram* v = static_cast<Variogram*>(h.p); Variogram* w = mk(3, 1.5, rx, WY, WZ, 0.0, 0.0, 1.0); equiv("missing-range-is-main-range", v, w); delete v; delete w; }
FZ(neg_y, vp_real("bad", -100, -1e-3), rz, rx, rz) FZ(neg_z, ry, vp_real("bad", -100, -1e-3), ry, rx) FZ(zero_y, 0.0, rz, rx, rz) FZ(zero_z, ry, 0.0, ry, rx) FZ(zero_both, 0.0, 0.0, rx, rx)
// keywords
#define FKW(ID, NAME, VAL, RY, RZ, AZ, DIP, PW) ENTRY(fkw_##ID) { vp_py_init(); double rx = R("rx"), k_ = VAL; PyVal a[2] = {PyVal("general_exponential"), PyVal(rx)}; KW kw[1] = {{NAME, PyVal(k_)}}; PyVal h = py_call("_gaussianfft", "variogram", a, 2, kw, 1); \
  Variogram* v = static_cast<Variogram*>(h.p); Variogram* w = mk(4, PW, rx, RY, RZ, AZ, DIP, 1.0); equiv("keyword-selects-parameter", v, w); delete v; delete w; }
FKW(perp, "perp_range", R("n"), k_, rx, 0.0, 0.0, 1.5) FKW(depth, "depth_range", R("n"), rx, k_, 0.0, 0.0, 1.5) FKW(azimuth, "azimuth", vp_real("azd", -800, 800), rx, rx, k_*DEG, 0.0, 1.5) FKW(dip, "dip", vp_real("dipd", -800, 800), rx, rx, 0.0, k_*DEG, 1.5) FKW(power, "power", P_, rx, rx, 0.0, 0.0, k_)
ENTRY(fkw_all) { vp_py_init(); KW kw[7] = {{"power", PyVal(P_)}, {"dip", PyVal(vp_real("dipd", -800, 800))}, {"azimuth", PyVal(vp_real("azd", -800, 800))}, {"depth_range", PyVal(R("rz"))}, {"perp_range", PyVal(R("ry"))}, {"main_range", PyVal(R("rx"))}, {"type", PyVal("matern32")}};
  PyVal h = py_call("_gaussianfft", "variogram", nullptr, 0, kw, 7); Variogram* v = static_cast<Variogram*>(h.p); Variogram* w = mk(5, P_, R("rx"), R("ry"), R("rz"), vp_real("azd", -800, 800)*DEG, vp_real("dipd", -800, 800)*DEG, 1.0); equiv("keyword-selects-parameter", v, w); delete v; delete w; }
// two variograms are independent objects; the library never keeps a hold on them
ENTRY(fac_fresh) { vp_py_init(); PyVal h1 = pyv("spherical", 7), h2 = pyv("spherical", 7); vp_true("factory-makes-a-new-object", 0, h1.p != h2.p); Variogram* a = static_cast<Variogram*>(h1.p); Variogram* b = static_cast<Variogram*>(h2.p);
  Variogram* w = mksym(1); a->SetRanges(R("n"), R("m"), R("l")); Variogram* q = mk(2, P_, R("rx"), R("ry"), R("rz"), vp_real("azd", -800, 800)*DEG, vp_real("dipd", -800, 800)*DEG, 1.0); equiv("factory-makes-a-new-object", b, q); delete a; equiv("factory-makes-a-new-object", b, q); delete b; delete w; delete q; }

// ------------------------------------------------ C07
static long spec_pad(int t, double p, double range, double step, double n) { long a = (long)(spec_ratio(t, p)*range/step - n), b = (long)(range/step); return (a > b ? a : b) + 1; }
static double mx(double a, double b) { return a < b ? b : a; }
static double zsel(double az, double ry, double m) { return az == 0.0 ? ry : m; }
#define ST(n) vp_real(n, 0.5, 50)
#define NN(n) vp_i64(n, 2, 100000)
static Variogram* mkpy(const char* nm) { PyVal a[7] = {PyVal(nm), PyVal(R("rx")), PyVal(R("ry")), PyVal(R("rz")), PyVal(vp_real("azd", -800, 800)), PyVal(vp_real("dipd", -800, 800)), PyVal(P_)}; return static_cast<Variogram*>(py_call("_gaussianfft", "variogram", a, 7).p); }
static Variogram* mkpy0(const char* nm) { PyVal a[7] = {PyVal(nm), PyVal(R("rx")), PyVal(R("ry")), PyVal(R("rz")), PyVal(0.0), PyVal(vp_real("dipd", -800, 800)), PyVal(P_)}; return static_cast<Variogram*>(py_call("_gaussianfft", "variogram", a, 7).p); }
static void sizes(const PyVal& r, long n, long a, long b, long c) { vp_eq_i64("one-size-per-dimension", n, (long)r.sv.size(), n); long e[3] = {a, b, c}; for (long i = 0; i < n && i < (long)r.sv.size(); ++i) vp_eq_i64("announced-size", i, (long)r.sv[i], e[i]); }
#define PADT(T, NM) \
ENTRY(pad1_##T) { vp_py_init(); Variogram* v = mkpy(NM); long nx = vp_i64("nx", 1, 100000); PyVal a[3] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx"))}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 3); \
  sizes(r, 1, nx + spec_pad(T, P_, R("rx"), ST("dx"), (double)nx), 0, 0); delete v; } \
ENTRY(pad2_##T) { vp_py_init(); Variogram* v = mkpy(NM); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"); PyVal a[5] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy"))}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 5); \
  double m = mx(R("rx"), R("ry")), my = zsel(vp_real("azd", -800, 800), R("ry"), m); sizes(r, 2, nx + spec_pad(T, P_, m, ST("dx"), (double)nx), ny + spec_pad(T, P_, my, ST("dy"), (double)ny), 0); delete v; } \
ENTRY(pad2z_##T) { vp_py_init(); Variogram* v = mkpy0(NM); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"); PyVal a[5] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy"))}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 5); \
  double m = mx(R("rx"), R("ry")); sizes(r, 2, nx + spec_pad(T, P_, m, ST("dx"), (double)nx), ny + spec_pad(T, P_, R("ry"), ST("dy"), (double)ny), 0); delete v; } \
ENTRY(pad3_##T) { vp_py_init(); Variogram* v = mkpy(NM); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"), nz = NN("nz"); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy")), PyVal(nz), PyVal(ST("dz"))}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 7); \
  double m = mx(R("rx"), R("ry")), my = zsel(vp_real("azd", -800, 800), R("ry"), m); sizes(r, 3, nx + spec_pad(T, P_, m, ST("dx"), (double)nx), ny + spec_pad(T, P_, my, ST("dy"), (double)ny), nz + spec_pad(T, P_, R("rz"), ST("dz"), (double)nz)); delete v; } \
ENTRY(pad3z_##T) { vp_py_init(); Variogram* v = mkpy0(NM); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"), nz = NN("nz"); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy")), PyVal(nz), PyVal(ST("dz"))}; PyVal r = py_call("_gaussianfft", "simulation_size", a, 7); \
  double m = mx(R("rx"), R("ry")); sizes(r, 3, nx + spec_pad(T, P_, m, ST("dx"), (double)nx), ny + spec_pad(T, P_, R("ry"), ST("dy"), (double)ny), nz + spec_pad(T, P_, R("rz"), ST("dz"), (double)nz)); delete v; }
PADT(0, "constant") PADT(1, "exponential") PADT(2, "spherical") PADT(3, "gaussian") PADT(4, "general_exponential") PADT(5, "matern32") PADT(6, "matern52") PADT(7, "matern72")
// a reduced dimension needs no padding of its own
ENTRY(padred_1) { vp_py_init(); Variogram* v = mkpy("gaussian"); long nx = vp_i64("nx", 1, 100000); PyVal a[5] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(1), PyVal(ST("dy"))}; sizes(py_call("_gaussianfft", "simulation_size", a, 5), 1, nx + spec_pad(3, 1.5, R("rx"), ST("dx"), (double)nx), 0, 0); delete v; }
ENTRY(padred_0) { vp_py_init(); Variogram* v = mkpy("gaussian"); long nx = vp_i64("nx", 1, 100000); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(0), PyVal(ST("dy")), PyVal(5), PyVal(ST("dz"))}; sizes(py_call("_gaussianfft", "simulation_size", a, 7), 1, nx + spec_pad(3, 1.5, R("rx"), ST("dx"), (double)nx), 0, 0); delete v; }
ENTRY(padred_2) { vp_py_init(); Variogram* v = mkpy0("gaussian"); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy")), PyVal(1), PyVal(ST("dz"))}; double m = mx(R("rx"), R("ry"));
  sizes(py_call("_gaussianfft", "simulation_size", a, 7), 2, nx + spec_pad(3, 1.5, m, ST("dx"), (double)nx), ny + spec_pad(3, 1.5, R("ry"), ST("dy"), (double)ny), 0); delete v; }
ENTRY(padred_3) { vp_py_init(); Variogram* v = mkpy0("gaussian"); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy")), PyVal(0), PyVal(ST("dz"))}; double m = mx(R("rx"), R("ry"));
  sizes(py_call("_gaussianfft", "simulation_size", a, 7), 2, nx + spec_pad(3, 1.5, m, ST("dx"), (double)nx), ny + spec_pad(3, 1.5, R("ry"), ST("dy"), (double)ny), 0); delete v; }
ENTRY(padkw) { vp_py_init(); Variogram* v = mkpy("matern32"); long nx = vp_i64("nx", 1, 100000), ny = NN("ny"), nz = NN("nz"); KW k[7] = {{"dz", PyVal(ST("dz"))}, {"nz", PyVal(nz)}, {"dy", PyVal(ST("dy"))}, {"ny", PyVal(ny)}, {"dx", PyVal(ST("dx"))}, {"nx", PyVal(nx)}, {"variogram", PyVal::ptr(v)}};
  PyVal r = py_call("_gaussianfft", "simulation_size", nullptr, 0, k, 7); PyVal a[7] = {PyVal::ptr(v), PyVal(nx), PyVal(ST("dx")), PyVal(ny), PyVal(ST("dy")), PyVal(nz), PyVal(ST("dz"))}; PyVal q = py_call("_gaussianfft", "simulation_size", a, 7);
  vp_eq_i64("same-keywords-as-simulate", 9, r.sv.size(), q.sv.size()); for (int i = 0; i < 3; ++i) vp_eq_i64("same-keywords-as-simulate", i, r.sv[i], q.sv[i]); delete v; }
ENTRY(paddoc) { vp_py_init(); PyVal b[3] = {PyVal("spherical"), PyVal(250.0), PyVal(125.0)}; PyVal h = py_call("_gaussianfft", "variogram", b, 3); PyVal a[5] = {h, PyVal(100), PyVal(10.0), PyVal(100), PyVal(10.0)}; sizes(py_call("_gaussianfft", "simulation_size", a, 5), 2, 126, 113, 0); delete static_cast<Variogram*>(h.p); }

// Correlation model: closed form of every variogram family and of the anisotropic lag.
#include "vp.h"
#include <cmath>
#include "nrlib/variogram/variogram.hpp"
#include "nrlib/variogram/variogramtypes.hpp"
using namespace NRLib;

static double spec_dist2(double dx, double dy, double dz, double rx, double ry, double rz, double az, double dip) {
  // rotate the lag into the principal axes (x: main, y: perpendicular, z: vertical)
  double ca = std::cos(az), sa = std::sin(az), cd = std::cos(dip), sd = std::sin(dip);
  double u =  ca*cd*dx + sa*cd*dy + sd*dz;
  double v = -sa*dx + ca*dy;
  double w = -ca*sd*dx - sa*sd*dy + cd*dz;
  return (u/rx)*(u/rx) + (v/ry)*(v/ry) + (w/rz)*(w/rz);
}
static double spec_corr(int type, double h, double power) {
  switch (type) {
  case Variogram::CONSTANT: return 1.0;
  case Variogram::EXPONENTIAL: return std::exp(-3.0*h);
  case Variogram::SPHERICAL: return h < 1.0 ? 1.0 - 1.5*h + 0.5*h*h*h : 0.0;
  case Variogram::GAUSSIAN: return std::exp(-3.0*h*h);
  case Variogram::GENERAL_EXPONENTIAL: return std::exp(-3.0*std::pow(h, power));
  case Variogram::MATERN32: { double s = 4.744*h; return (1.0 + s)*std::exp(-s); }
  case Variogram::MATERN52: { double s = 5.918*h; return (1.0 + s + s*s/3.0)*std::exp(-s); }
  case Variogram::MATERN72: { double s = 6.877*h; return (1.0 + s + 0.4*s*s + s*s*s/15.0)*std::exp(-s); }
  }
  return -99.0;
}
template <int TYPE> static void go() {
  double rx = vp_real("range_x", 0.01, 1e4), ry = vp_real("range_y", 0.01, 1e4), rz = vp_real("range_z", 0.01, 1e4);
  double az = vp_real("azimuth", -7, 7), dip = vp_real("dip", -7, 7), power = vp_real("power", 0.1, 2.0), sd = vp_real("std_dev", 0.0, 10.0);
  double dx = vp_real("dx", -100, 100), dy = vp_real("dy", -100, 100), dz = vp_real("dz", -100, 100);
  Variogram* v = Variogram::Create(static_cast<Variogram::Type>(TYPE), power, rx, ry, rz, az, dip, sd);
  vp_eq_f64("corr1", TYPE, v->GetCorr(dx), spec_corr(TYPE, std::sqrt(spec_dist2(dx, 0, 0, rx, ry, rz, az, dip)), power));
  vp_eq_f64("corr2", TYPE, v->GetCorr(dx, dy), spec_corr(TYPE, std::sqrt(spec_dist2(dx, dy, 0, rx, ry, rz, az, dip)), power));
  vp_eq_f64("corr3", TYPE, v->GetCorr(dx, dy, dz), spec_corr(TYPE, std::sqrt(spec_dist2(dx, dy, dz, rx, ry, rz, az, dip)), power));
  delete v;
}
ENTRY(corr_0) { go<0>(); }
ENTRY(corr_1) { go<1>(); }
ENTRY(corr_2) { go<2>(); }
ENTRY(corr_3) { go<3>(); }
ENTRY(corr_4) { go<4>(); }
ENTRY(corr_5) { go<5>(); }
ENTRY(corr_6) { go<6>(); }
ENTRY(corr_7) { go<7>(); }

// Reference formulas used by several harnesses.
#pragma once
#include <cmath>
#include "vp.h"
#include "nrlib/variogram/variogram.hpp"
static const double SPEC_PI = 3.14159265358979323846;
static double spec_dist2(double dx, double dy, double dz, double rx, double ry, double rz, double az, double dip) {
  double ca = std::cos(az), sa = std::sin(az), cd = std::cos(dip), sd = std::sin(dip);
  double u =  ca*cd*dx + sa*cd*dy + sd*dz;
  double v = -sa*dx + ca*dy;
  double w = -ca*sd*dx - sa*sd*dy + cd*dz;
  return (u/rx)*(u/rx) + (v/ry)*(v/ry) + (w/rz)*(w/rz);
}
static double spec_corr(int type, double h, double power) {
  using NRLib::Variogram;
  switch (type) {
  case Variogram::CONSTANT: return 1.0;
  case Variogram::EXPONENTIAL: return std::exp(-3.0*h);
  case Variogram::SPHERICAL: return h < 1.0 ? 1.0 - 1.5*h + 0.5*h*h*h : 0.0;
  case Variogram::GAUSSIAN: return std::exp(-3.0*h*h);
  case Variogram::GENERAL_EXPONENTIAL: return std::exp(-3.0*std::pow(h, power));
  case Variogram::MATERN32: { double s = 4.744*h; return (1.0 + s)*std::exp(-s); }
  case Variogram::MATERN52: { double s = 5.918*h; return (1.0 + s + s*s/3.0)*std::exp(-s); }
  case Variogram::MATERN72: { double s = 6.877*h; return (1.0 + s + 0.4*s*s + s*s*s/15.0)*std::exp(-s); }
  }
  return -99.0;
}
static double spec_ratio(int type, double power) {
  using NRLib::Variogram;
  switch (type) {
  case Variogram::CONSTANT: return 1.0;
  case Variogram::EXPONENTIAL: return 2.33;
  case Variogram::SPHERICAL: return 1.92;
  case Variogram::GAUSSIAN: return 6.67;
  case Variogram::GENERAL_EXPONENTIAL: return 4.0 + (power - 1.5)*5.34;
  case Variogram::MATERN32: return 4.0;
  case Variogram::MATERN52: return 4.76;
  case Variogram::MATERN72: return 5.26;
  }
  return -99.0;
}
static double spec_corr3(int t, double dx, double dy, double dz, double rx, double ry, double rz, double az, double dip, double power) {
  return spec_corr(t, std::sqrt(spec_dist2(dx, dy, dz, rx, ry, rz, az, dip)), power);
}

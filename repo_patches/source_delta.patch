From f193bdfebc5a56c76c3ba20ee5302cd6050a6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:17 +0000
Subject: [PATCH 01/35] fix: release the random generator created by the 1D and
 2D simulation functions

---
 src/nrlib/variogram/gaussianfield.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..f0b46c4 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -21,6 +21,7 @@
 
 #include <cmath>
 #include <algorithm>
+#include <memory>
 #include "gaussianfield.hpp"
 
 #include "variogram.hpp"
@@ -198,10 +199,10 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                                     // bool   user_defined_padding,
                                     Grid2D<double> & grid_out)
 {
-  RandomGenerator * rg = NULL;
+  std::unique_ptr<RandomGenerator> rg;
   try {
     unsigned long seed = Random::GetStartSeed();
-    rg = new RandomGenerator(seed);
+    rg.reset(new RandomGenerator(seed));
   }
   catch (std::exception) {
     // This will occur if NRLib::Random is not initilized. In this case,
@@ -216,7 +217,7 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                           dy,
                           1,
                           grids,
-                          rg);
+                          rg.get());
   grid_out = grids[0];
 }
 
@@ -279,8 +280,10 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  std::unique_ptr<RandomGenerator> local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    local_rg.reset(new RandomGenerator());
+    rg = local_rg.get();
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   for (int k = 0; k < n_fields; k++) {
@@ -318,8 +321,10 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  std::unique_ptr<RandomGenerator> local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    local_rg.reset(new RandomGenerator());
+    rg = local_rg.get();
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   std::vector<double> noise(nxp);
-- 
2.43.0


From 1e6b11135bc71892669ceea9d141817c7aaec966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:17 +0000
Subject: [PATCH 02/35] fix: a zero perpendicular or depth range means the main
 range, as documented

---
 src/gaussfft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..bf8a642 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -60,9 +60,9 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
                                              double              dip_angle,
                                              double              power)
 {
-  if (range_y < 0.0)
+  if (range_y <= 0.0)
     range_y = range_x;
-  if (range_z < 0.0)
+  if (range_z <= 0.0)
     range_z = range_x;
 
   azimuth_angle *= NRLib::Degree;
-- 
2.43.0


From c002e19cc8c508843053e938c14f0356db29e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 03/35] fix: size search must not round the requested size to
 single precision

---
 src/nrlib/fft/fft.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..0f954cc 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -56,10 +56,10 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil((double)log((double)(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil((double)log((double)(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil((double)log((double)(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil((double)log((double)(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From 6fa01b77b76a0d1c671bdc473596ee77fef6bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 04/35] fix: use the exact right angle when projecting the
 variogram ranges on the axes

---
 src/nrlib/variogram/fftcovgrid.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index 0a898d7..11a2b53 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -19,6 +19,7 @@
 
 #include "fftcovgrid.hpp"
 #include "variogram.hpp"
+#include "../math/constants.hpp"
 
 #include <algorithm>
 
@@ -46,14 +47,14 @@ namespace NRLib { namespace FFTCovGridUtilities
                              fabs(variogram.GetRangeX() * sin(dip))};
 
     // Project perpendicular vector onto the axes
-    double perp_vector[3] = {fabs(variogram.GetRangeY() * cos(azi + 3.14 / 2.0)),  // TODO: replace with PI
-                             fabs(variogram.GetRangeY() * sin(azi + 3.14 / 2.0)),
+    double perp_vector[3] = {fabs(variogram.GetRangeY() * cos(azi + NRLib::PiHalf)),
+                             fabs(variogram.GetRangeY() * sin(azi + NRLib::PiHalf)),
                              0.0};
 
     // Project final vector onto the axes
-    double down_vector[3] = {fabs(variogram.GetRangeZ() * cos(dip + 3.14 / 2.0) * cos(azi)), // TODO: replace with PI
-                             fabs(variogram.GetRangeZ() * cos(dip + 3.14 / 2.0) * sin(azi)),
-                             fabs(variogram.GetRangeZ() * sin(dip + 3.14 / 2.0))};
+    double down_vector[3] = {fabs(variogram.GetRangeZ() * cos(dip + NRLib::PiHalf) * cos(azi)),
+                             fabs(variogram.GetRangeZ() * cos(dip + NRLib::PiHalf) * sin(azi)),
+                             fabs(variogram.GetRangeZ() * sin(dip + NRLib::PiHalf))};
 
     xmax = std::max(main_vector[0], perp_vector[0]);
     ymax = std::max(main_vector[1], perp_vector[1]);
-- 
2.43.0


From 0707b1f3294cd0f8dd97c7bc72fb3d90ba993b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:30 +0000
Subject: [PATCH 05/35] fix: do not export names that do not exist

---
 gaussianfft/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/__init__.py b/gaussianfft/__init__.py
index 89d8c34..d5dae06 100644
--- a/gaussianfft/__init__.py
+++ b/gaussianfft/__init__.py
@@ -29,6 +29,6 @@ def variogram(type, *args, **kwargs):
 
 __all__ = [
     'variogram', 'simulate', 'seed', 'advanced', 'simulation_size',
-    'quote', 'Variogram', 'VariogramType', 'util', 'SizeTVector', 'DoubleVector',
+    'quote', 'Variogram', 'VariogramType', 'util',
     '__version__',
 ]
-- 
2.43.0


From 4644a347b761a4c6edda96b0a96fb0b16017d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 06/35] fix: cell index to i,j,k,l in four-dimensional grids

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..8cab538 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_;
 }
 
 template<class A>
-- 
2.43.0


From b999f22a7d6933e8ef83051cc320f270109be328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 07/35] fix: five-dimensional grid did not compile when resized
 and mapped cell indices wrongly

---
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..1857e7b 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_ % nl_;
+  m = index/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From d4bc2d555972257f22ca8e7c299ca5802cbe1948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 08/35] fix: swapping general two-dimensional grids must swap
 their index ranges too

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..746c697 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -197,6 +197,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
 {
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
   data_.swap(other.data_);
 }
 
-- 
2.43.0


From 2ae3af1867922167753c3d3182830c0f0cc19247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 09/35] fix: log-normal distribution must hand its new
 parameters to the normal it is built on

---
 src/nrlib/random/lognormal.cpp | 2 +-
 src/nrlib/random/lognormal.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/lognormal.cpp b/src/nrlib/random/lognormal.cpp
index 619df76..2c27adf 100644
--- a/src/nrlib/random/lognormal.cpp
+++ b/src/nrlib/random/lognormal.cpp
@@ -31,7 +31,7 @@ namespace NRLib {
 LogNormal::LogNormal()
   : normal_(Normal()),
     mu_(0.0),
-    sigma_(0.0)
+    sigma_(1.0)
 {
   exp_ = std::exp(0.5);
   std_dev_ = std::sqrt((std::exp(1.0) - 1.0) * std::exp(1.0));
diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index e574d2f..55e34ae 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -62,7 +62,7 @@ void LogNormal::SetParameters(double mu, double sigma)
 {
   // If mean and std. dev. are in the log normal distribution, we calculate the corresponding
   // mu and sigma in the normal distribution
-  normal_.SetParameters(mu_, sigma_);
+  normal_.SetParameters(mu, sigma);
   mu_ = mu;
   sigma_ = sigma;
   exp_ = std::exp(mu_ + 0.5 * sigma_ * sigma_);
-- 
2.43.0


From 55d6b8afc63e169d6d51681bf521c84bb4c6f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 10/35] fix: density of the upper half of the split uniform
 distribution

---
 src/nrlib/random/splituniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/splituniform.hpp b/src/nrlib/random/splituniform.hpp
index 2e4b393..df15b7a 100644
--- a/src/nrlib/random/splituniform.hpp
+++ b/src/nrlib/random/splituniform.hpp
@@ -69,7 +69,7 @@ double SplitUniform::Pdf(double x) const {
   if (x >= min_val_ && x < mean_val_) {
     p = 0.5 / (mean_val_ - min_val_);
   }
-  else if (x > mean_val_ && x > max_val_) {
+  else if (x > mean_val_ && x <= max_val_) {
     p = 0.5 / (max_val_ - mean_val_);
   }
   else if (x == mean_val_) {
-- 
2.43.0


From 23ffdfc3f4e94e4a53659df93daf3d2a85b93b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 11/35] fix: density of the beta distribution was looked up
 half a cell off

---
 src/nrlib/random/beta.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/random/beta.hpp b/src/nrlib/random/beta.hpp
index 182c563..19e1819 100644
--- a/src/nrlib/random/beta.hpp
+++ b/src/nrlib/random/beta.hpp
@@ -67,10 +67,13 @@ double
 Beta::Pdf(double x) const
 {
   // round x to cell-center
-  int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_-0.5 );
   double d = 0.0;
-  if(x >= min_val_ && x <= max_val_)
-   d = pdf_[ix];
+  if(x >= min_val_ && x <= max_val_) {
+    int ix = int( (x-min_val_)/(max_val_-min_val_) * nx_ );
+    if(ix > nx_ - 1)
+      ix = nx_ - 1;
+    d = pdf_[ix];
+  }
 
   return d;
 }
-- 
2.43.0


From 97f8833b3c08ffbbad71b4a474e10c2b9afd1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 12/35] fix: quantile of a general discrete distribution must
 not run past its last class

---
 src/nrlib/random/generaldiscrete.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/generaldiscrete.hpp b/src/nrlib/random/generaldiscrete.hpp
index fac145b..2565042 100644
--- a/src/nrlib/random/generaldiscrete.hpp
+++ b/src/nrlib/random/generaldiscrete.hpp
@@ -55,7 +55,8 @@ private:
 int GeneralDiscrete::Quantile(double p) const {
   assert(p >= 0.0 && p <= 1.0);
   int i = 0;
-  while (cum_hist_[i] < p) {
+  int n = static_cast<int>(cum_hist_.size());
+  while (i < n - 1 && cum_hist_[i] < p) {
     i++;
   }
   return(i);
-- 
2.43.0


From 3cefa4eb3a89a5819712d8a86cec29390e3f4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 13/35] fix: the 100 percent quantile of the binomial
 distribution is n

---
 src/nrlib/random/binomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 17df430..6a01bc6 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -103,7 +103,7 @@ int Binomial::Quantile(double q) const
   if (high == low)
     return low;
   else
-    if (cdf_[high] > q && cdf_[low] <= q)
+    if (cdf_[low] <= q)
       return high;
     else
       return low;
-- 
2.43.0


From 7009dc11dbb2252f376de96af0756066c82b4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:12 +0000
Subject: [PATCH 14/35] fix: probability and cumulative probability of the
 Poisson distribution

---
 src/nrlib/random/poisson.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/nrlib/random/poisson.cpp b/src/nrlib/random/poisson.cpp
index bae965d..444ee90 100644
--- a/src/nrlib/random/poisson.cpp
+++ b/src/nrlib/random/poisson.cpp
@@ -66,27 +66,19 @@ namespace NRLib {
 
   double Poisson::Pdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double pdf = std::exp(x*std::log(lambda_)-lambda_)/x_fac;
+    if (x < 0)
+      return 0.0;
+    double pdf = std::exp(x*std::log(lambda_)-lambda_-NRLib::gammln(x + 1.0));
     return pdf;
   }
 
 
   double Poisson::Cdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
+    if (x < 0)
+      return 0.0;
     double x1 = x + 1.0;
-    double cdf = NRLib::gammp(x1, lambda_)/x_fac;
+    double cdf = 1.0 - NRLib::gammp(x1, lambda_);
     return cdf;
 
   }
-- 
2.43.0


From 4a3fb0487f6a011bb7d268406b1a7c63447a3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:52 +0000
Subject: [PATCH 15/35] fix: smoothing of covariance grids for ranges far from
 one

The smoothing factor per squared distance was scaling^(1/range^2), which underflows
to zero for ranges below about 0.03 (removing all correlation but at lag zero) and
is rounded to one for very large ranges. Keep its logarithm instead.
---
 src/nrlib/variogram/fftcovgrid.cpp |  8 +++++---
 src/nrlib/variogram/fftcovgrid.hpp | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index 11a2b53..95d936d 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -83,9 +83,11 @@ namespace NRLib { namespace FFTCovGridUtilities
     assert(scaling_z > 1e-12);
     std::vector<double> axis_ranges = FFTCovGridUtilities::FindVariogramRanges(variogram);
 
-    double sx = pow(scaling_x, 1.0/(axis_ranges[0] * axis_ranges[0]));
-    double sy = pow(scaling_y, 1.0/(axis_ranges[1] * axis_ranges[1]));
-    double sz = pow(scaling_z, 1.0/(axis_ranges[2] * axis_ranges[2]));
+    // Logarithms, since the factors themselves vanish (or are indistinguishable from one)
+    // when the ranges are far from one.
+    double sx = log(scaling_x)/(axis_ranges[0] * axis_ranges[0]);
+    double sy = log(scaling_y)/(axis_ranges[1] * axis_ranges[1]);
+    double sz = log(scaling_z)/(axis_ranges[2] * axis_ranges[2]);
 
     std::vector<double> scaling_factors;
     scaling_factors.push_back(sx);
diff --git a/src/nrlib/variogram/fftcovgrid.hpp b/src/nrlib/variogram/fftcovgrid.hpp
index 56e7030..3290008 100644
--- a/src/nrlib/variogram/fftcovgrid.hpp
+++ b/src/nrlib/variogram/fftcovgrid.hpp
@@ -49,7 +49,7 @@ private:
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 };
 
 /// Same as FFTCovGrid1D, but for two dimensions
@@ -74,9 +74,9 @@ private:
                                   double            scaling_x,
                                   double            scaling_y);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 };
 
 /// Same as FFTCovGrid1D, but for three dimensions
@@ -106,11 +106,11 @@ private:
                                   double            scaling_y,
                                   double            scaling_z);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 
-  double FindSmoothingFactorZ(double ddz) { return pow(sz_, ddz * ddz); }
+  double FindSmoothingFactorZ(double ddz) { return exp(sz_ * ddz * ddz); }
 };
 
 }
-- 
2.43.0


From 6428b7b30023c3c4e3f4221fee9ea1e3b1b64b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 16/35] fix: turning a rotated surface must update its bounds

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..3f08e0f 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle; CalculateMinMaxXY(); }
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From 41aa1e9f8ddbdd3f3cd25f68625f922079bcc3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 17/35] fix: sample a resampled surface at its own nodes

---
 src/nrlib/surface/regularsurfacerotated.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 3f08e0f..31450f5 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,7 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      surf.GetXY(i, j, x, y);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From 6a4eaece52243715e31e60e2ab5bce97347124c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 18/35] fix: copying a volume must keep its tolerance

---
 src/nrlib/volume/volume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..45cdc9f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -118,7 +118,7 @@ Volume::Volume(const Volume & volume)
   else {
     erosion_bot_ = 0;
   }
-  tolerance_   = 1e-6;
+  tolerance_   = volume.tolerance_;
 }
 
 
-- 
2.43.0


From a5a0503ae48ce1c41b930835b4942d75a5da6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 19/35] fix: the centre of a rotated volume

---
 src/nrlib/volume/volume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 45cdc9f..c6047cf 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  LocalToGlobalCoord(0.5 * GetLX(), 0.5 * GetLY(), x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 17deb5534c48cafadd0af16f195d466a81416ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:59 +0000
Subject: [PATCH 20/35] fix: side of a line for points whose projection is at
 or beyond its second point

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..1523a5f 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
-- 
2.43.0


From 19738f02d80b7a60875aa266f4064da6ff53be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:59 +0000
Subject: [PATCH 21/35] fix: orientation of a polygon must count its closing
 edge

---
 src/nrlib/geometry/polygon.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..b354123 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -93,8 +93,10 @@ bool Polygon::IsInsidePolygonXY(double x, double y)  const
 bool Polygon::IsCounterclockwise()
 {
   double doublearea=0;
-  for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
-    doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
+  size_t n=polygon_points_.size();
+  for (size_t i=0; i<n; i++) {
+    size_t next=(i+1)%n; //includes the edge from the last point to the first
+    doublearea+=polygon_points_[i].x*polygon_points_[next].y-polygon_points_[i].y*polygon_points_[next].x;
   }
   return (doublearea>=0);
 }
-- 
2.43.0


From b55f5b4ac49816fe531e6c5eb266027820970f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:59 +0000
Subject: [PATCH 22/35] fix: circumference of a polygon left out an edge

---
 src/nrlib/geometry/polygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index b354123..d53f52b 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -341,7 +341,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i < poly_size - 1; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0


From 85434c0bf564177babfa3773a29af8a9f08e8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:59 +0000
Subject: [PATCH 23/35] fix: spline through two points read outside its arrays

---
 src/nrlib/geometry/interpolation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/interpolation.cpp b/src/nrlib/geometry/interpolation.cpp
index def427d..933d26d 100644
--- a/src/nrlib/geometry/interpolation.cpp
+++ b/src/nrlib/geometry/interpolation.cpp
@@ -124,8 +124,10 @@ std::vector<double> Interpolation::Spline1D(const std::vector<double> &x_in,
 
   std::vector<double> u(n_in, 0.0);
   std::vector<double> v(n_in, 0.0);
-  u[1] = 2.0*(h[0] + h[1]);
-  v[1] = b[1] - b[0];
+  if (n_in > 2) {
+    u[1] = 2.0*(h[0] + h[1]);
+    v[1] = b[1] - b[0];
+  }
   for (size_t i = 2; i < n_in - 1; ++i) {
     u[i] = 2.0*(h[i] + h[i-1]) - h[i-1]*h[i-1]/u[i-1];
     v[i] = b[i] - b[i-1] - h[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 0d4a0f4a380172410ece638400f7df964dfdec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 24/35] fix: geometries numbered internally had the in-line and
 cross-line axes interchanged

---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..57533a2 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; //XL is numbered along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; //XL is numbered along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; //XL is numbered along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From 339de81f5c161a402f9016e2276deabbd8eaf66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 25/35] fix: geometry of one trace had the axes of its line
 numbers interchanged

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 57533a2..5d6d07a 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -741,7 +741,7 @@ SegyGeometry::SetupGeometrySingleTrace(const SegYTrace * trace)
   minXL_       = XL0_;
   maxXL_       = XL0_;
   XLStep_      = 1;
-  firstAxisIL_ = false;
+  firstAxisIL_ = true; //IL is numbered along the first axis, see il_stepX_.
 }
 
 SegyGeometry::SegyGeometry()
-- 
2.43.0


From c8a12f8050c5e3b48d4d4c71bfb533f5003f18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 26/35] fix: first line beyond a SEG-Y geometry was accepted

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 5d6d07a..0e9ba27 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -938,7 +938,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From a97b70baee03c85e71ff503911dec8a54e1b531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 27/35] fix: rounding of negative line numbers

---
 src/nrlib/segy/segygeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 0e9ba27..974509b 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1002,8 +1002,8 @@ SegyGeometry::FindContIndexFromContILXL(double il, double xl, double &xind, doub
 void
 SegyGeometry::FindILXL(double x, double y, int &IL, int &XL) const
 {
-  IL = static_cast<int>(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_);
-  XL = static_cast<int>(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_);
+  IL = static_cast<int>(floor(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_));
+  XL = static_cast<int>(floor(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_));
 }
 
 
-- 
2.43.0


From 2141b48daf9c834427bc31479cf25819de81e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 28/35] fix: single crossline with decreasing in-line numbers

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 974509b..baa2b6b 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -207,7 +207,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From 56588b66c6049cc92e29192c7e92452587b0ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 29/35] fix: division by zero in geometry from traces in
 decreasing order

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index baa2b6b..f026990 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -156,7 +156,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
 
     if(dist2 > sqrt(dist1sq)+0.005) { //Standard case, not a simple straight line along XL, IL or diagonally..
       double denominator;
-      if(dXL2 > 0) { //Rarely fails, but may happen with diagonal line.
+      if(dXL2 != 0) { //Rarely fails, but may happen with diagonal line.
         denominator = dIL1-(dXL1/dXL2)*dIL2;
         dxIL = (x1 - x0 - dXL1/dXL2*(x2-x0))/denominator;
         dxXL = (x2 - x0 - dxIL*dIL2        )/dXL2;
-- 
2.43.0


From e7a0c7f43c5ae8e9975f65a9e7b58a1e1b61f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 30/35] fix: position of line numbers in rotated geometries

---
 src/nrlib/segy/segygeometry.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f026990..9155428 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1075,13 +1075,10 @@ SegyGeometry::FindXYFromContILXL(double IL, double XL, double &x, double &y) con
       xd = x0_-(yd-y0_)*sin_rot_/cos_rot_;
     }
   }
-  else if (std::abs(il_stepX_/xl_stepX_) < 1e-14 || std::abs(xl_stepY_/il_stepY_) < 1e-14) {
-    xd = x0_+(XL-cross_line0_)/xl_stepX_;
-    yd = y0_+(IL-in_line0_)/il_stepY_;
-  }
   else {
-    yd = y0_+(XL-cross_line0_-(IL-in_line0_)*xl_stepX_/il_stepX_)/(xl_stepY_-il_stepY_*xl_stepX_/il_stepX_);
-    xd = x0_+(IL-in_line0_-il_stepY_*(yd-y0_))/il_stepX_;
+    double det = il_stepX_*xl_stepY_ - il_stepY_*xl_stepX_;
+    xd = x0_+((IL-in_line0_)*xl_stepY_-(XL-cross_line0_)*il_stepY_)/det;
+    yd = y0_+((XL-cross_line0_)*il_stepX_-(IL-in_line0_)*xl_stepX_)/det;
   }
   x = xd;
   y = yd;
-- 
2.43.0


From 536060aec9c0ed4c469f32f1acbbadb9ef397974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 31/35] fix: multivariate normal draws had the wrong covariance

---
 src/nrlib/statistics/multinormal.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/statistics/multinormal.cpp b/src/nrlib/statistics/multinormal.cpp
index fa7926b..8c6e220 100644
--- a/src/nrlib/statistics/multinormal.cpp
+++ b/src/nrlib/statistics/multinormal.cpp
@@ -55,7 +55,13 @@ MultiNormal::Draw() const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw();
 
-  Vector help = chol_fac_cov_*rand_01;
+  // The upper half of chol_fac_cov_ holds U, where U'U is the covariance.
+  Vector help(result.length());
+  for (int i = 0; i < help.length(); i++) {
+    help(i) = 0.0;
+    for (int j = 0; j <= i; j++)
+      help(i) += chol_fac_cov_(j, i)*rand_01(j);
+  }
   result +=help;
 
   return result;
@@ -72,7 +78,13 @@ MultiNormal::Draw(RandomGenerator & rg) const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw(rg);
 
-  Vector help = chol_fac_cov_*rand_01;
+  // The upper half of chol_fac_cov_ holds U, where U'U is the covariance.
+  Vector help(result.length());
+  for (int i = 0; i < help.length(); i++) {
+    help(i) = 0.0;
+    for (int j = 0; j <= i; j++)
+      help(i) += chol_fac_cov_(j, i)*rand_01(j);
+  }
   result += help;
 
   return result;
-- 
2.43.0


From 9d46c80c71be024e06dbc34a0c5d4dfea968f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 32/35] fix: changing the parameters of a multivariate normal
 left its draws on the old covariance

---
 src/nrlib/statistics/multinormal.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index acdf7e7..77f426d 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -58,6 +58,8 @@ void MultiNormal::SetParameters(const Vector & exp,
 {
   exp_ = exp;
   cov_ = cov;
+  CholeskyFactorize(cov);
+  chol_fac_cov_ = cov;
 
 }
 
-- 
2.43.0


From 73f7841b508ec063f9d1caea1d6d833d4eb310e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 33/35] fix: secondary data after merging coinciding ones used
 the correlations of other data

---
 src/nrlib/statistics/posteriormultinormal.cpp | 18 +++++++++++-------
 src/nrlib/statistics/posteriormultinormal.hpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 12091cc..81d6453 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -161,7 +161,8 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
 
   std::vector<NRLib::Point> pos_known_used = pos_known;
   std::vector<double>       std_known_used = std_known;
-  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr, vario);
+  std::vector<double>       local_corr_used = local_corr;
+  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr_used, vario);
   int n_used = static_cast<int>(pos_known_used.size());
 
   sigma_22 = SymmetricMatrix(n_used);
@@ -170,10 +171,10 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
   for(int i = 0; i < n_used; i++) {
     for(int j = 0; j <= i; j++) {
       double corr;
-      if(local_corr[i] > local_corr[j])
-        corr = local_corr[j];
-      else if(local_corr[j] > local_corr[i])
-        corr = local_corr[i];
+      if(local_corr_used[i] > local_corr_used[j])
+        corr = local_corr_used[j];
+      else if(local_corr_used[j] > local_corr_used[i])
+        corr = local_corr_used[i];
       else
         corr = 1.0;
 
@@ -183,7 +184,7 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
     }
 
     for(int j = 0; j < n_unknown; j++)
-      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
+      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr_used[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
                                                                               pos_known_used[i].y-pos_unknown[j].y);
   }
 
@@ -228,7 +229,7 @@ void
 NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario)
 {
   std::vector<int>                obs_chain_map;
@@ -238,16 +239,19 @@ NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
   std::vector<NRLib::Point> pos_known_used(obs_chains.size());
   Vector                    delta_known_used(static_cast<int>(obs_chains.size()));
   std::vector<double>       std_known_used(obs_chains.size());
+  std::vector<double>       local_corr_used(obs_chains.size());
 
   for(size_t i=0;i<obs_chains.size();i++) {
     //For simplicity, use values from first obs, instead of averaging.
     pos_known_used[i]   = pos_known[obs_chains[i][0]];
     delta_known_used(static_cast<int>(i)) = delta_known(static_cast<int>(obs_chains[i][0]));
     std_known_used[i]   = std_known[obs_chains[i][0]];
+    local_corr_used[i]  = local_corr[obs_chains[i][0]];
   }
   pos_known   = pos_known_used;
   delta_known = delta_known_used;
   std_known   = std_known_used;
+  local_corr  = local_corr_used;
 }
 
 void
diff --git a/src/nrlib/statistics/posteriormultinormal.hpp b/src/nrlib/statistics/posteriormultinormal.hpp
index 9af1a64..0627bbb 100644
--- a/src/nrlib/statistics/posteriormultinormal.hpp
+++ b/src/nrlib/statistics/posteriormultinormal.hpp
@@ -59,7 +59,7 @@ namespace NRLib {
   void EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario);
 
   void IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
-- 
2.43.0


From e0e6809c0b3bf9d0cea6be0302b1c03a3267cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 34/35] fix: scaled correlation used to merge secondary data
 was not the smaller one

---
 src/nrlib/statistics/posteriormultinormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 81d6453..b824e04 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -280,7 +280,7 @@ NRLib::IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
             if(local_corr[i] > local_corr[j])
               corr = local_corr[j];
             else if(local_corr[j] > local_corr[i])
-              corr = local_corr[j];
+              corr = local_corr[i];
             else
               corr = 1.0;
             corr *= vario.GetCorr(pos_known[i].x-pos_known[j].x, pos_known[i].y-pos_known[j].y);
-- 
2.43.0


From 7bf97a3374cd0554b6a619fd0252036742f4322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 35/35] fix: concurrent calls shared the random generator and
 the FFTW planner without a lock

---
 src/gaussfft.cpp          | 24 ++++++++++++++++++++++++
 src/gaussfft.hpp          |  4 ++++
 src/gaussfftinterface.cpp |  6 ++----
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index bf8a642..1a00fd3 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -5,6 +5,7 @@
 #include <pybind11/numpy.h>
 
 #include <iostream>
+#include <mutex>
 
 #include "nrlib/iotools/stringtools.hpp"
 #include "nrlib/exception/exception.hpp"
@@ -17,12 +18,33 @@
 
 namespace py = pybind11;
 
+namespace {
+  // The module may be used by several threads at a time (it does not need the GIL), but they
+  // share the state of NRLib::Random and the planner of FFTW. The lock is never held while
+  // calling into Python.
+  std::mutex shared_state_mutex;
+}
+
 /***************************/
 std::string GaussFFT::Quote()
 {
   return "Arc, amplitude, and curvature sustain a similar relation to each other as time, motion, and velocity, or as volume, mass, and density.";
 }
 
+/***************************************/
+void GaussFFT::SetSeed(unsigned long seed)
+{
+  std::lock_guard<std::mutex> lock(shared_state_mutex);
+  NRLib::Random::Initialize(seed);
+}
+
+/*******************************/
+unsigned long GaussFFT::GetSeed()
+{
+  std::lock_guard<std::mutex> lock(shared_state_mutex);
+  return NRLib::Random::GetStartSeed();
+}
+
 /**********************************************************************************/
 std::vector<size_t> GaussFFT::FindGridSizeAfterPadding(NRLib::Variogram * variogram,
                                                        size_t             nx,
@@ -119,6 +141,7 @@ py::array_t<double> GaussFFT::SimulateWithAdvancedSettings(NRLib::Variogram * va
                                                            double             scaling_y,
                                                            double             scaling_z)
 {
+  std::unique_lock<std::mutex> lock(shared_state_mutex);
   try {
     NRLib::Random::GetStartSeed();
   }
@@ -137,6 +160,7 @@ py::array_t<double> GaussFFT::SimulateWithAdvancedSettings(NRLib::Variogram * va
     result = GaussFFT::Simulate3D(variogram, nx, dx, ny, dy, nz, dz, padding_x, padding_y, padding_z, scaling_x, scaling_y, scaling_z);
   }
 
+  lock.unlock();
   py::array_t<double> np_result = py::cast(result);
   return np_result;
 }
diff --git a/src/gaussfft.hpp b/src/gaussfft.hpp
index 6cd5a5f..52fccb7 100644
--- a/src/gaussfft.hpp
+++ b/src/gaussfft.hpp
@@ -12,6 +12,10 @@ namespace GaussFFT {
 
 std::string Quote();
 
+void SetSeed(unsigned long seed);
+
+unsigned long GetSeed();
+
 std::vector<size_t> FindGridSizeAfterPadding(NRLib::Variogram * variogram,
                                              size_t             nx,
                                              double             dx,
diff --git a/src/gaussfftinterface.cpp b/src/gaussfftinterface.cpp
index 41bbb5e..de8e17f 100644
--- a/src/gaussfftinterface.cpp
+++ b/src/gaussfftinterface.cpp
@@ -4,7 +4,6 @@
 #include "gaussfft.hpp"
 
 #include "nrlib/variogram/variogram.hpp"
-#include "nrlib/random/random.hpp"
 
 namespace py = pybind11;
 
@@ -186,9 +185,8 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // NRLib::Random
   //
   {
-    void(*ptr)(unsigned long) = &NRLib::Random::Initialize;
-    m.def("seed", ptr,                          set_seed_docstring.c_str());
-    m.def("seed", &NRLib::Random::GetStartSeed, get_seed_docstring.c_str());
+    m.def("seed", &GaussFFT::SetSeed, set_seed_docstring.c_str());
+    m.def("seed", &GaussFFT::GetSeed, get_seed_docstring.c_str());
   }
 
   //
-- 
2.43.0


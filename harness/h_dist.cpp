// Probability distributions and the special functions behind them.
#include "vp.h"
#include <cmath>
#include <vector>
#include <string>
#include <cstdlib>
#include "nrlib/random/uniform.hpp"
#include "nrlib/random/delta.hpp"
#include "nrlib/random/triangular.hpp"
#include "nrlib/random/splituniform.hpp"
#include "nrlib/random/normal.hpp"
#include "nrlib/random/lognormal.hpp"
#include "nrlib/random/chisquared.hpp"
#include "nrlib/random/generaldiscrete.hpp"
#include "nrlib/random/beta.hpp"
#include "nrlib/random/betawithendmass.hpp"
#include "nrlib/random/binomial.hpp"
#include "nrlib/random/poisson.hpp"
#include "nrlib/random/fractal.hpp"
#include "nrlib/random/gamma.hpp"
#include "nrlib/random/functions.hpp"
#include "nrlib/math/mathutility.hpp"
using namespace NRLib;
static void d(const char* w, long i, double a, double b) { vp_eq_f64(w, i, a, b); }
static void e(const char* w, long i, long a, long b) { vp_eq_i64(w, i, a, b); }
static double R(const char* n, double lo, double hi) { return vp_real(n, lo, hi); }
static double X() { return R("x", -9, 9); }
static double P() { return R("p", 0.001, 0.999); }
static unsigned S() { return (unsigned)vp_i64("seed", 0, 0xffffffffL); }
typedef Distribution<double> D;
typedef Distribution<int> DI;
// a copy behaves as the original, and both draws are the quantile of a uniform draw
template<class T> static void clone(T& t, double x) { Distribution<double>* c = t.Clone(); d("clone", 0, c->Pdf(x), t.Pdf(x)); d("clone", 1, c->Cdf(x), t.Cdf(x)); d("clone", 2, c->Quantile(P()), t.Quantile(P())); delete c; }
static void draws(const D& t) { unsigned s = S(); RandomGenerator g(s), h(s), k(s); d("draw-is-quantile-of-uniform", 0, t.Draw(g), t.Quantile(h.Unif01())); Random::Initialize(s); d("draw-is-quantile-of-uniform", 1, t.Draw(), t.Quantile(k.Unif01())); }
static void idraws(const DI& t) { unsigned s = S(); RandomGenerator g(s), h(s), k(s); e("draw-is-quantile-of-uniform", 2, t.Draw(g), t.Quantile(h.Unif01())); Random::Initialize(s); e("draw-is-quantile-of-uniform", 3, t.Draw(), t.Quantile(k.Unif01())); }
static void ndraws(const D& t, double m, double s, int lg) { unsigned q = S(); RandomGenerator g(q), h(q), k(q); double y = m + s*h.Norm01(), z = m + s*k.Norm01(); if (lg) { y = std::exp(y); z = std::exp(z); } d("normal-draw", 0, t.Draw(g), y); Random::Initialize(q); d("normal-draw", 1, t.Draw(), z); }

static void unif(const D& u, double a, double b, double x) { double f = 0, c = 0; if (x >= a && x <= b) f = 1/(b - a); if (x >= b) c = 1; else if (x > a) c = (x - a)/(b - a); d("density", 0, u.Pdf(x), f); d("cumulative", 0, u.Cdf(x), c); d("quantile", 0, u.Quantile(P()), a + P()*(b - a)); d("quantile", 1, u.Quantile(0.0), a); d("quantile", 2, u.Quantile(1.0), b); }
ENTRY(dist_uniform) { double a = R("a", -5, 4), b = a + R("w", 0.1, 6), x = X(); Uniform u(a, b); unif(u, a, b, x); clone(u, x); draws(u); Uniform v(3, 4); v.SetParameters(a, b); unif(v, a, b, x); Uniform z; unif(z, 0, 1, x); }
static void delt(const D& u, double a, double x) { double c = 0; if (x >= a) c = 1; d("cumulative", 1, u.Cdf(x), c); d("quantile", 3, u.Quantile(P()), a); double f = u.Pdf(x); if (x != a) d("density", 1, f, 0); else vp_true("density", 2, f > 1e300); }
ENTRY(dist_delta) { double a = R("a", -5, 4), x = X(); Delta u(a); delt(u, a, x); delt(u, a, a); clone(u, x); draws(u); Delta v(7); v.SetParameters(a); delt(v, a, x); }
static void tri(const D& u, double a, double m, double b, double x) { double f = 0, c = 0; if (x >= b) c = 1; else if (x > a) { if (x < m) { f = 2*(x - a)/((b - a)*(m - a)); c = (x - a)*(x - a)/((b - a)*(m - a)); } else if (x > m) { f = 2*(b - x)/((b - a)*(b - m)); c = 1 - (b - x)*(b - x)/((b - a)*(b - m)); } else { f = 2/(b - a); c = (m - a)/(b - a); } } d("density", 3, u.Pdf(x), f); d("cumulative", 2, u.Cdf(x), c); }
static void triq(const D& u, double a, double m, double b) { double p = P(), q; if (p < (m - a)/(b - a)) q = a + std::sqrt(p*(b - a)*(m - a)); else q = b - std::sqrt((1 - p)*(b - a)*(b - m)); d("quantile", 4, u.Quantile(p), q); d("quantile", 5, u.Quantile(0.0), a); d("quantile", 6, u.Quantile(1.0), b); }
ENTRY(dist_triangular) { double a = R("a", -5, 4), m = a + R("v", 0.1, 3), b = m + R("w", 0.1, 3), x = X(); Triangular u(a, m, b); tri(u, a, m, b, x); triq(u, a, m, b); clone(u, x); draws(u); Triangular v(1, 2, 3); v.SetParameters(a, m, b); tri(v, a, m, b, x); triq(v, a, m, b); Triangular z; tri(z, -1, 0, 1, x); triq(z, -1, 0, 1); }
ENTRY(dist_triangular_left) { double a = R("a", -5, 4), b = a + R("w", 0.1, 3), x = X(); Triangular u(a, a, b); vp_assume(x != a); tri(u, a, a, b, x); triq(u, a, a, b); d("density", 4, u.Pdf(a), 2/(b - a)); d("density", 5, u.Pdf(b), 0); }
ENTRY(dist_triangular_right) { double a = R("a", -5, 4), b = a + R("w", 0.1, 3), x = X(); Triangular u(a, b, b); vp_assume(x != b); tri(u, a, b, b, x); triq(u, a, b, b); d("density", 4, u.Pdf(b), 2/(b - a)); d("density", 5, u.Pdf(a), 0); }
static void spl(const D& u, double a, double m, double b, double x) { vp_assume(x != m); double f = 0, c = 0; if (x >= b) c = 1; else if (x > m) c = 0.5 + 0.5*(x - m)/(b - m); else if (x > a) c = 0.5*(x - a)/(m - a); if (x >= a && x < m) f = 0.5/(m - a); if (x > m && x <= b) f = 0.5/(b - m); d("density", 6, u.Pdf(x), f); d("cumulative", 3, u.Cdf(x), c); double p = P(), q; if (p <= 0.5) q = a + 2*p*(m - a); else q = m + (2*p - 1)*(b - m); d("quantile", 7, u.Quantile(p), q); d("quantile", 8, u.Quantile(0.0), a); d("quantile", 9, u.Quantile(1.0), b); }
ENTRY(dist_splituniform) { double a = R("a", -5, 4), m = a + R("v", 0.1, 3), b = m + R("w", 0.1, 3), x = X(); SplitUniform u(a, m, b); spl(u, a, m, b, x); clone(u, x); draws(u); SplitUniform v(1, 2, 3); v.SetParameters(a, m, b); spl(v, a, m, b, x); }
static double phi(double z) { return std::exp(-0.5*z*z)/std::sqrt(2*3.14159265358979323846); }
static double Phi(double z) { return 0.5*std::erfc(-z/std::sqrt(2.0)); }
static void norm(const D& u, double m, double s, double x) { d("density", 7, u.Pdf(x), phi((x - m)/s)/s); d("cumulative", 4, u.Cdf(x), Phi((x - m)/s)); double p = P(); d("quantile-inverts-cumulative", 0, Phi((u.Quantile(p) - m)/s), p); }
ENTRY(dist_normal) { double m = R("m", -3, 3), s = R("s", 0.2, 3), x = X(); Normal u(m, s); norm(u, m, s, x); clone(u, x); ndraws(u, m, s, 0); Normal v(1, 2); v.SetParameters(m, s); norm(v, m, s, x); ndraws(v, m, s, 0); Normal z; norm(z, 0, 1, x); d("quantile-inverts-cumulative", 1, Phi(Normal::Quantile01(P())), P()); }
ENTRY(dist_normal_tail) { double t = R("t", 1, 600), p = std::exp(-t); Normal u; d("quantile-inverts-cumulative", 2, std::log(std::erfc(-u.Quantile(p)/std::sqrt(2.0))/2), -t); }
ENTRY(dist_potential) { double m = R("m", -3, 3), s = R("s", 0.2, 3), x = X(), a = R("a", -3, 2), b = a + R("w", 0.3, 3); Normal u(m, s); double z = (x - m)/s, q = 0.5*z*z + std::log(s*std::sqrt(2*3.14159265358979323846)); d("potential", 0, u.Potential(x), q);
  vp_assume(Phi((b - m)/s) - Phi((a - m)/s) > 0.01); d("potential", 1, u.PotentialTwoSidedTruncated(x, a, b), q + std::log(Phi((b - m)/s) - Phi((a - m)/s))); vp_assume(Phi(m/s) > 0.01); d("potential", 2, u.PotentialZeroTruncated(x), q + std::log(1 - Phi(-m/s))); vp_assume(1 - Phi((a - m)/s) > 0.01); d("potential", 3, u.PotentialLowerTruncated(x, a), q + std::log(1 - Phi((a - m)/s))); }
static void logn(const D& u, double m, double s, double x) { double z = (std::log(x) - m)/s; d("density", 8, u.Pdf(x), phi(z)/(s*x)); d("cumulative", 5, u.Cdf(x), Phi(z)); d("quantile-inverts-cumulative", 3, Phi((std::log(u.Quantile(P())) - m)/s), P()); }
ENTRY(dist_lognormal) { double m = R("m", -1, 1), s = R("s", 0.2, 2), x = R("x", 0.01, 9); LogNormal u(m, s); logn(u, m, s, x); clone(u, x); ndraws(u, m, s, 1); LogNormal v(1, 2); v.SetParameters(m, s); logn(v, m, s, x); ndraws(v, m, s, 1); LogNormal z; logn(z, 0, 1, x); ndraws(z, 0, 1, 1); }
// truncated normal draws: in range, and the inverse of the truncated cumulative at the uniform draw (the inverse itself abstract)
static double inv(double m, double s, double lo, double hi, double u) { return m + s*vp_fn1("@ndtri", lo + u*(hi - lo)); }
ENTRY(trunc_lower) { double m = R("m", -3, 3), s = R("s", 0.3, 3), a = m + s*R("a", -2.5, 2.5); Normal n(m, s); unsigned q = S(); RandomGenerator g(q), h(q), k(q); double x = n.DrawLowerTruncated(a, g); vp_true("truncated-draw-in-range", 0, x >= a - 1e-9); d("truncated-draw", 0, x, inv(m, s, Phi((a - m)/s), 1, h.Unif01Open())); Random::Initialize(q); double y = n.DrawLowerTruncated(a); d("truncated-draw", 1, y, inv(m, s, Phi((a - m)/s), 1, k.Unif01Open())); }
ENTRY(trunc_upper) { double m = R("m", -3, 3), s = R("s", 0.3, 3), a = m + s*R("a", -2.5, 2.5); Normal n(m, s); unsigned q = S(); RandomGenerator g(q), h(q), k(q); double x = n.DrawUpperTruncated(a, g); vp_true("truncated-draw-in-range", 1, x <= a + 1e-9); double w = Phi((m - a)/s); d("truncated-draw", 2, x, 2*m - inv(m, s, w, 1, h.Unif01Open())); Random::Initialize(q); double y = n.DrawUpperTruncated(a); d("truncated-draw", 3, y, 2*m - inv(m, s, w, 1, k.Unif01Open())); }
ENTRY(trunc_both) { double m = R("m", -3, 3), s = R("s", 0.3, 3), a = m + s*R("a", -2.5, 2.0), b = a + s*R("w", 0.2, 3); Normal n(m, s); unsigned q = S(); RandomGenerator g(q), h(q), k(q); double x = n.DrawTwoSidedTruncated(a, b, g); vp_true("truncated-draw-in-range", 2, x >= a - 1e-9); vp_true("truncated-draw-in-range", 3, x <= b + 1e-9); d("truncated-draw", 4, x, inv(m, s, Phi((a - m)/s), Phi((b - m)/s), h.Unif01Open())); Random::Initialize(q); d("truncated-draw", 5, n.DrawTwoSidedTruncated(a, b), inv(m, s, Phi((a - m)/s), Phi((b - m)/s), k.Unif01Open())); }
ENTRY(trunc_degenerate) { double m = R("m", -3, 3), a = R("a", -4, 4), b = R("b", -4, 4); Normal n(m, 0.0); RandomGenerator g(1); int t = 0; double x = 0; try { x = n.DrawLowerTruncated(a, g); } catch (const std::exception&) { t = 1; } e("impossible-truncation-rejected", 0, t, m < a); if (!t) d("truncated-draw", 6, x, m);
  t = 0; try { x = n.DrawUpperTruncated(a, g); } catch (const std::exception&) { t = 1; } e("impossible-truncation-rejected", 1, t, m > a); if (!t) d("truncated-draw", 7, x, m); t = 0; try { x = n.DrawTwoSidedTruncated(a, b, g); } catch (const std::exception&) { t = 1; } e("impossible-truncation-rejected", 2, t, a > b || m < a || m > b); if (!t) d("truncated-draw", 8, x, m); }
ENTRY(dist_chisquared) { double k = R("k", 1.0, 9), x = R("x", 0.05, 20); ChiSquared u(k); d("density", 9, u.Pdf(x), std::exp((0.5*k - 1)*std::log(x) - 0.5*x - 0.5*k*std::log(2.0) - std::lgamma(0.5*k))); d("cumulative", 6, u.Cdf(x), vp_fn2("@gammainc", 0.5*k, 0.5*x)); d("density", 10, u.Pdf(-x), 0); d("cumulative", 7, u.Cdf(-x), 0); D* c = u.Clone(); d("clone", 0, c->Pdf(x), u.Pdf(x)); d("clone", 1, c->Cdf(x), u.Cdf(x)); delete c; }
ENTRY(dist_chisquared_q) { double k = R("k", 1.0, 9); ChiSquared u(k); d("quantile-inverts-cumulative", 4, vp_fn2("@gammainc", 0.5*k, 0.5*u.Quantile(P())), P()); d("quantile", 10, u.Quantile(0.0), 0); }
// ---- discrete
static void gd(const DI& u, const double* w) { double s = w[0] + w[1] + w[2], c = 0; for (int i = 0; i < 3; ++i) { c += w[i]; d("density", 11 + i, u.Pdf(i), w[i]/s); d("cumulative", 8 + i, u.Cdf(i), c/s); } double p = P(); int q = 0; if (p > w[0]/s) q = 1; if (p > (w[0] + w[1])/s) q = 2; e("quantile", 11, u.Quantile(p), q); e("quantile", 12, u.Quantile(1.0), 2); }
ENTRY(dist_general) { double w[3] = {R("u", 0.1, 3), R("v", 0.1, 3), R("w", 0.1, 3)}; GeneralDiscrete u(std::vector<double>(w, w + 3)); gd(u, w); DI* c = u.Clone(); gd(*c, w); delete c; idraws(u); e("size", 0, u.GetN(), 3); }
ENTRY(dist_general_edge) { double w[4] = {1, 1, 0, 2}, k = R("k", 0.5, 4); for (int i = 0; i < 4; ++i) w[i] *= 1; GeneralDiscrete u(std::vector<double>(w, w + 4)); double p[6] = {0, 0.25, 0.2500001, 0.5, 0.5000001, 1}; int q[6] = {0, 0, 1, 1, 3, 3}; for (int i = 0; i < 6; ++i) e("quantile", 40 + i, u.Quantile(p[i]), q[i]); d("cumulative", 7, u.Cdf(2) + 0*k, 0.5); }
static double choose(int n, int k) { double r = 1; for (int i = 1; i <= k; ++i) r = r*(n - k + i)/i; return r; }
static double bin(int n, double p, int x) { if (x < 0 || x > n) return 0; double r = choose(n, x); for (int i = 0; i < x; ++i) r *= p; for (int i = x; i < n; ++i) r *= 1 - p; return r; }
template<int N> static void bino() { double p = R("q", 0.01, 0.99); Binomial u(N, p); double c = 0; for (int x = -2; x <= N + 2; ++x) { double f = bin(N, p, x); c += f; d("density", 20 + x, u.Pdf(x), f); d("cumulative", 20 + x, u.Cdf(x), c); } }
ENTRY(dist_binomial_1) { bino<1>(); } ENTRY(dist_binomial_4) { bino<4>(); } ENTRY(dist_binomial_20) { bino<20>(); }
template<int N> static void binq() { double p = R("q", 0.05, 0.95), t = P(); Binomial u(N, p); int x = u.Quantile(t); double c = 0; for (int i = 0; i <= N; ++i) { double f = bin(N, p, i); if (x == i) { vp_true("quantile-is-smallest", i, c <= t + 1e-12); vp_true("quantile-is-smallest", 100 + i, c + f >= t - 1e-12); } c += f; } vp_true("quantile-in-range", 0, x >= 0 && x <= N); e("quantile", 13, u.Quantile(1.0), N); DI* k = u.Clone(); e("clone", 2, k->Quantile(t), x); d("clone", 3, k->Pdf(1), u.Pdf(1)); delete k; }
ENTRY(dist_binomialq_1) { binq<1>(); } ENTRY(dist_binomialq_3) { binq<3>(); } ENTRY(dist_binomialq_4) { binq<4>(); } ENTRY(dist_binomialq_7) { binq<7>(); }
ENTRY(dist_binomial_edge) { Binomial z(3, 0.0), o(3, 1.0); double f[4] = {1, 0, 0, 0}, g[4] = {0, 0, 0, 1}; for (int i = 0; i < 4; ++i) { d("density", 80 + i, z.Pdf(i), f[i]); d("density", 90 + i, o.Pdf(i), g[i]); } d("cumulative", 80, o.Cdf(2), 0); d("cumulative", 81, z.Cdf(0), 1); }
ENTRY(dist_binomial_draw) { Binomial u(3, R("q", 0.1, 0.9)); idraws(u); }
ENTRY(dist_poisson) { double l = R("l", 0.2, 30); Poisson u(l); for (int x = 0; x < 40; x += x < 5 ? 1 : 3) { d("density", 100 + x, std::log(u.Pdf(x)), x*std::log(l) - l - std::lgamma(x + 1.0)); d("cumulative", 100 + x, u.Cdf(x), vp_fn2("@gammaincc", x + 1.0, l)); } d("density", 99, u.Pdf(-1), 0); d("cumulative", 99, u.Cdf(-1), 0); DI* c = u.Clone(); d("clone", 4, c->Pdf(3), u.Pdf(3)); delete c; }
ENTRY(dist_poisson_q) { double l = R("l", 0.2, 6), t = P(); Poisson u(l); int x = u.Quantile(t); for (int i = 0; i < 20; ++i) if (x == i) { vp_true("quantile-is-smallest", 200 + i, vp_fn2("@gammaincc", i + 1.0, l) >= t - 1e-9); if (i > 0) vp_true("quantile-is-smallest", 300 + i, vp_fn2("@gammaincc", (double)i, l) <= t + 1e-9); } }
static int pois(double l, RandomGenerator& g) {
  if (l < 10) { double u = g.Unif01(), p = std::exp(-l); int x = 0; while (u > p) { u -= p; ++x; p = p*l/x; } return x; }
  // W. Hoermann: the transformed rejection method for generating Poisson random variables (PTRD)
  double b = 0.931 + 2.53*std::sqrt(l), a = -0.059 + 0.02483*b, ia = 1.1239 + 1.1328/(b - 3.4), vr = 0.9277 - 3.6224/(b - 2);
  for (;;) { double u, v = g.Unif01();
    if (v <= 0.86*vr) { u = v/vr - 0.43; return (int)std::floor((2*a/(0.5 - std::fabs(u)) + b)*u + l + 0.445); }
    if (v >= vr) u = g.Unif01() - 0.5; else { u = v/vr - 0.93; if (u < 0) u = -0.5 - u; else u = 0.5 - u; v = g.Unif01()*vr; }
    double us = 0.5 - std::fabs(u); if (us < 0.013 && v > us) continue;
    double k = std::floor((2*a/us + b)*u + l + 0.445); v = v*ia/(a/(us*us) + b);
    if (k >= 10) { if (std::log(v*std::sqrt(l)) <= (k + 0.5)*std::log(l/k) - l - 0.91893853320467267 + k - (1/12.0 - (1/360.0 - 1/(1260*k*k))/(k*k))/k) return (int)k; }
    else if (k >= 0) { double f = 0; for (int i = 2; i < 10; ++i) if (i <= k) f += std::log((double)i); if (std::log(v) <= k*std::log(l) - l - f) return (int)k; } }
}
static void poisd(double l) { Poisson u(l); unsigned s = S(); RandomGenerator g(s), h(s); e("poisson-draw", 0, u.Draw(g), pois(l, h)); RandomGenerator k(s); Random::Initialize(s); e("poisson-draw", 1, u.Draw(), pois(l, k)); }
ENTRY(cut_poisson_small) { poisd(R("l", 0.2, 9.9)); } ENTRY(cut_poisson_large) { poisd(R("l", 10.1, 40)); }
// ---- tabulated beta
template<int N> static void tab(double a, double b, double* w, double* c) { double s = 0; for (int i = 0; i < N; ++i) { double x = (i + 0.5)/N; w[i] = std::exp((a - 1)*std::log(x) + (b - 1)*std::log(1 - x)); s += w[i]; } double t = 0; for (int i = 0; i < N; ++i) { w[i] /= s; t += w[i]; c[i] = t; } }
template<int N> static void beta() { double lo = R("lo", -2, 2), hi = lo + R("w", 0.5, 3), a = R("a", 0.5, 4), b = R("b", 0.5, 4), q = R("t", 0.01, 0.99); Beta u(lo, hi, a, b, N); double w[N], c[N]; tab<N>(a, b, w, c); double dx = (hi - lo)/N;
  for (int i = 0; i < N; ++i) { double x = lo + (i + q)*dx, p = w[i]*q; if (i) p += c[i - 1]; d("density", 120 + i, u.Pdf(x), w[i]/dx); d("cumulative", 120 + i, u.Cdf(x), p); } d("density", 140, u.Pdf(lo - 0.1), 0); d("density", 141, u.Pdf(hi + 0.1), 0); d("density", 142, u.Pdf(lo), w[0]/dx); d("density", 143, u.Pdf(hi), w[N - 1]/dx); d("cumulative", 141, u.Cdf(lo), 0); d("cumulative", 142, u.Cdf(hi), 1); d("cumulative", 143, u.Cdf(lo - 1), 0); d("cumulative", 144, u.Cdf(hi + 1), 1); d("quantile", 30, u.Quantile(0.0), lo); d("quantile", 31, u.Quantile(1.0), hi); D* k = u.Clone(); d("clone", 5, k->Cdf(lo + q*(hi - lo)), u.Cdf(lo + q*(hi - lo))); delete k; e("range", 0, u.GetMinVal() == lo && u.GetMaxVal() == hi, 1); d("range", 1, u.GetInterval(), hi - lo);
  for (int i = 1; i < N; ++i) { double z = u.Quantile(i/(double)N + 1e-13); d("quantile-inverts-cumulative", 120 + i, u.Cdf(z), i/(double)N); } double z0 = lo; for (int i = 0; i < N; ++i) { double z1 = u.Quantile((i + q)/N), e0 = u.Quantile(i/(double)N + 1e-14), e1 = u.Quantile((i + 1)/(double)N - 1e-14); d("quantile-interpolates", i, z1, (1 - q)*e0 + q*e1); } }
ENTRY(dist_beta_3) { beta<3>(); } ENTRY(dist_beta_4) { beta<4>(); }
ENTRY(dist_betaend) { double lo = R("lo", -2, 2), hi = lo + R("w", 0.5, 3), a = R("a", 0.5, 4), b = R("b", 0.5, 4), pl = R("pl", 0.01, 0.4), ph = R("ph", 0.01, 0.4), x = R("x", -4, 7), p = P(); BetaWithEndMass u(lo, hi, pl, ph, a, b, 3); Beta v(lo, hi, a, b, 3); double c = 0, f = 0, q; if (x >= hi) c = 1; else if (x >= lo) c = pl + (1 - pl - ph)*v.Cdf(x); if (x > lo && x < hi) f = (1 - pl - ph)*v.Pdf(x); vp_assume(x != lo); vp_assume(x != hi); d("density", 150, u.Pdf(x), f); d("cumulative", 150, u.Cdf(x), c); d("cumulative", 151, u.Cdf(lo), pl); d("cumulative", 152, u.Cdf(hi), 1); if (p <= pl) q = lo; else if (p >= 1 - ph) q = hi; else q = v.Quantile((p - pl)/(1 - pl - ph)); d("quantile", 32, u.Quantile(p), q); d("range", 2, u.GetMinVal(), lo); d("range", 3, u.GetMaxVal(), hi); D* k = u.Clone(); d("clone", 6, k->Cdf(x), u.Cdf(x)); delete k; }
// ---- fractal (power law between min and max)
ENTRY(dist_fractal) { double a = R("a", 0.2, 2), b = a + R("w", 0.2, 3), k = R("k", 0.3, 3), x = R("x", 0.05, 8), p = P(); Fractal u(a, b, k); double A = std::pow(a, -k), B = std::pow(b, -k), f = 0, c = 0; if (x > a && x < b) { f = k*std::pow(x, -k - 1)/(A - B); c = (A - std::pow(x, -k))/(A - B); } if (x >= b) c = 1; d("density", 160, u.Pdf(x), f); d("cumulative", 160, u.Cdf(x), c); double q = u.Quantile(p); d("quantile-inverts-cumulative", 160, (A - std::pow(q, -k))/(A - B), p); clone(u, x); draws(u); d("range", 4, u.GetMin(), a); }
ENTRY(dist_fractal_draw) { double a = R("a", 0.2, 2), b = a + R("w", 0.2, 3), k = R("k", 0.3, 3), l = R("l", 0.05, 0.5), h = l + R("h", 0.05, 0.45); Fractal u(a, b, k); unsigned s = S(); RandomGenerator g(s); Random::Initialize(s); d("part-draw", 0, u.DrawFromUpperQuantile(h), u.Quantile(1 - g.Unif01()*(1 - h))); d("part-draw", 1, u.DrawFromLowerQuantile(l), u.Quantile(g.Unif01()*l)); double z = g.Unif01(); d("part-draw", 2, u.DrawFromMiddleQuantile(l, h), u.Quantile(l + z*(h - l)));
  double m = R("m", 0.1, 1.5), t = a; if (m >= a) t = m; vp_assume(t < b); Fractal v(t, b, k); d("part-draw", 3, u.DrawFromUpperQuantile(h, true, m), v.Quantile(1 - g.Unif01()*(1 - h))); }
ENTRY(dist_fractal_unbounded) { double a = R("a", 0.2, 2), k = R("k", 0.3, 3), h = R("h", 0.05, 0.9); Fractal u(a, -1, k); unsigned s = S(); RandomGenerator g(s); Random::Initialize(s); double z = g.Unif01(); vp_assume(z > 0.01); vp_assume(z < 0.99); d("part-draw", 4, u.DrawFromUpperQuantile(h), a*std::pow(z*(1 - h), -1/k)); z = g.Unif01(); vp_assume(z > 0.01); vp_assume(z < 0.99); d("part-draw", 5, u.DrawFromLowerQuantile(h), a*std::pow(1 - z*h, -1/k)); }
// ---- special functions
ENTRY(fun_erf) { double z = R("z", -6, 6); d("error-function", 0, NRLib::erf(z), std::erf(z)); d("error-function", 1, NRLib::erfc(z), std::erfc(z)); d("error-function", 6, NRLib::erf(0.0), 0.0); d("error-function", 7, NRLib::erfc(0.0), 1.0); double t = R("t", -1e-9, 1e-9); d("error-function", 8, NRLib::erf(t)*1e9, t*1.1283791670955126e9); }
ENTRY(fun_erf_tail) { double z = R("z", 1, 26); d("error-function", 2, std::log(NRLib::erfc(z)), std::log(std::erfc(z))); d("error-function", 3, NRLib::erfc(-z), 2.0 - std::erfc(z)); d("error-function", 4, NRLib::erf(z + 10), 1.0); d("error-function", 5, NRLib::erfc(z + 30), 0.0); }
ENTRY(fun_erfinv) { double p = R("p", -0.9999, 0.9999); d("inverse-error-function", 0, std::erf(NRLib::erf_inv(p)), p); d("inverse-error-function", 1, std::erfc(NRLib::erfc_inv(1 - p)), 1 - p); double t = R("t", 0.7, 680), q = std::exp(-t), x = NRLib::erfc_inv(q); d("inverse-error-function", 2, std::log(std::erfc(x)), -t); d("inverse-error-function", 3, NRLib::erfc_inv(2 - std::exp(-R("u", 0.7, 6))), -NRLib::erfc_inv(std::exp(-R("u", 0.7, 6)))); }
ENTRY(fun_erfinv_bad) { double p = R("p", -3, 3); int t = 0; try { NRLib::erf_inv(p); } catch (const std::exception&) { t = 1; } e("domain-checked", 0, t, p <= -1 || p >= 1); t = 0; try { NRLib::erfc_inv(p); } catch (const std::exception&) { t = 1; } e("domain-checked", 1, t, p <= 0 || p >= 2); }
ENTRY(fun_gammln) { double x = R("x", 0.02, 60); d("log-gamma", 0, gammln(x), std::lgamma(x)); int t = 0; double b = R("b", -3, 3); try { gammln(b); } catch (const std::exception&) { t = 1; } e("domain-checked", 2, t, b <= 0); }
ENTRY(fun_bico) { for (int n = 0; n < 30; n += 3) for (int k = 0; k <= n; ++k) d("binomial-coefficient", 100*n + k, bico(n, k), choose(n, k)); int t = 0, n = vp_i32("n", -3, 4), k = vp_i32("k", -3, 5); vp_assume(n < 0 || k < 0 || k > n); try { bico(n, k); } catch (const std::exception&) { t = 1; } vp_true("domain-checked", 3, t == 1); }
ENTRY(gam_series) { double a = R("a", 0.3, 6), x = R("x", 0.01, 6.9); vp_assume(x < a + 1); d("incomplete-gamma", 0, gammp(a, x), vp_fn2("@gammainc", a, x)); }
ENTRY(gam_fraction) { double a = R("a", 0.3, 6), x = R("x", 3.0, 40); vp_assume(x >= a + 1); d("incomplete-gamma", 1, gammp(a, x), vp_fn2("@gammainc", a, x)); }
ENTRY(gam_large) { double a = R("a", 100, 400), x = a*R("f", 0.6, 1.6); d("incomplete-gamma", 2, gammp(a, x), vp_fn2("@gammainc", a, x)); d("incomplete-gamma", 3, gammpapprox(a, x, 0), vp_fn2("@gammaincc", a, x)); d("incomplete-gamma", 4, gammp(a, 0.0), 0); d("incomplete-gamma", 5, gammp(R("b", 0.1, 5), 0.0), 0); int t = 0; double b = R("b", -3, 3), y = R("y", -3, 3); vp_assume(y < 0 || b <= 0); try { gammp(b, y); } catch (const std::exception&) { t = 1; } vp_true("domain-checked", 4, t == 1); }
ENTRY(inv_gamma) { double a = R("a", 0.3, 8), p = P(); d("incomplete-gamma-inverse", 0, vp_fn2("@gammainc", a, invgammp(p, a)), p); d("incomplete-gamma-inverse", 1, invgammp(0.0, a), 0); }

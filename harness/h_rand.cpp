// Random draws: the uniform stream is dSFMT-19937, the normal draws are Marsaglia and Bray's method on it.
#include "vp.h"
#include <cmath>
#include <cstring>
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <exception>
using namespace NRLib;
typedef uint64_t u64; typedef uint32_t u32;
static long bits(double d) { long r; std::memcpy(&r, &d, 8); return r; }
static double dbl(u64 u) { double r; std::memcpy(&r, &u, 8); return r; }
// reference generator (M. Saito, M. Matsumoto: double precision SIMD oriented fast Mersenne twister, exponent 19937)
struct Ref {
  u64 s[2*192]; int at;
  Ref(u32 seed) { u32 w[4*192]; w[0] = seed; for (u32 i = 1; i < 4*192; ++i) w[i] = 1812433253U*(w[i-1] ^ (w[i-1] >> 30)) + i;
    for (int i = 0; i < 2*192; ++i) s[i] = (u64)w[2*i] | (u64)w[2*i+1] << 32;
    for (int i = 0; i < 2*191; ++i) s[i] = (s[i] & 0x000FFFFFFFFFFFFFULL) | 0x3FF0000000000000ULL;
    u64 c = ((s[382] ^ 0x90014964b32f4329ULL) & 0x3d84e1ac0dc82880ULL) ^ ((s[383] ^ 0x3b8d12ac548a7c7aULL) & 1ULL);
    for (int i = 32; i > 0; i >>= 1) c ^= c >> i;
    if ((c & 1) == 0) s[383] ^= 1; at = 382; }
  u64 next() {
    if (at == 382) { u64 l0 = s[382], l1 = s[383]; for (int i = 0; i < 191; ++i) { int j = (i + 117) % 191; u64 t0 = s[2*i], t1 = s[2*i+1];
        u64 a = (t0 << 19) ^ (l1 >> 32) ^ (l1 << 32) ^ s[2*j], b = (t1 << 19) ^ (l0 >> 32) ^ (l0 << 32) ^ s[2*j+1];
        s[2*i] = (a >> 12) ^ (a & 0x000ffafffffffb3fULL) ^ t0; s[2*i+1] = (b >> 12) ^ (b & 0x000ffdfffc90fffdULL) ^ t1; l0 = a; l1 = b; }
      s[382] = l0; s[383] = l1; at = 0; }
    return s[at++]; }
  double unif() { return dbl(next()) - 1.0; }
  double open() { return dbl(next() | 1) - 1.0; }
  u32 word() { return (u32)next(); }
};
static u32 sd() { return (u32)vp_i64("seed", 0, 0xffffffffL); }
static void b(const char* w, long i, double x, double y) { vp_eq_i64(w, i, bits(x), bits(y)); }
static bool near_(int i) { return i < 3 || (i >= 380 && i < 385) || (i >= 763 && i < 767); }
ENTRY(stream_global) { u32 s = sd(); Random::Initialize(s); Ref r(s); for (int i = 0; i < 768; ++i) { double x = Random::Unif01(), y = r.unif(); if (near_(i)) b("uniform-stream", i, x, y); } }
ENTRY(stream_object) { u32 s = sd(); RandomGenerator g(s); Ref r(s); for (int i = 0; i < 768; ++i) { double x = g.Unif01(), y = r.unif(); if (near_(i)) b("uniform-stream", i, x, y); } }
ENTRY(stream_object_reset) { u32 s = sd(); RandomGenerator g; g.Initialize(77); g.Unif01(); g.Initialize(s); Ref r(s); for (int i = 0; i < 4; ++i) b("uniform-stream", i, g.Unif01(), r.unif()); vp_eq_i64("start-seed", 0, g.GetStartSeed(), s); }
template<class G> static void kinds(G& g, Ref& r) { for (int i = 0; i < 388; ++i) { bool o = i < 9 || i > 376;
    if (i % 3 == 0) { double x = g.Unif01Open(), y = r.open(); if (o) b("open-interval-stream", i, x, y); }
    else if (i % 3 == 1) { unsigned long x = g.DrawUint32(); u32 y = r.word(); if (o) vp_eq_i64("integer-stream", i, x, y); }
    else { double x = g.Unif01(), y = r.unif(); if (o) b("uniform-stream", i, x, y); } } }
struct Glob { double Unif01() { return Random::Unif01(); } double Unif01Open() { return Random::Unif01Open(); } unsigned long DrawUint32() { return Random::DrawUint32(); } double Norm01() { return Random::Norm01(); } };
ENTRY(kinds_global) { u32 s = sd(); Random::Initialize(s); Ref r(s); Glob g; kinds(g, r); vp_eq_i64("start-seed", 0, Random::GetStartSeed(), s); }
ENTRY(kinds_object) { u32 s = sd(); RandomGenerator g(s); Ref r(s); kinds(g, r); vp_eq_i64("start-seed", 0, g.GetStartSeed(), s); }
ENTRY(kinds_phase) { u32 s = sd(); RandomGenerator g(s); Ref r(s); for (int i = 0; i < 382; ++i) { g.Unif01(); r.unif(); } b("open-interval-stream", 0, g.Unif01Open(), r.open()); for (int i = 0; i < 381; ++i) { g.Unif01Open(); r.unif(); } vp_eq_i64("integer-stream", 0, g.DrawUint32(), r.word()); b("uniform-stream", 9, g.Unif01(), r.unif()); }
// generators are independent of each other; a copy continues the stream of its original
ENTRY(several) { u32 s = sd(), t = (u32)vp_i64("other", 0, 0xffffffffL); RandomGenerator g(s), h(t); Random::Initialize(5); Ref p(s), q(t), z(5);
  b("independent-generators", 0, g.Unif01(), p.unif()); b("independent-generators", 1, h.Unif01(), q.unif()); b("independent-generators", 2, Random::Unif01(), z.unif()); b("independent-generators", 3, g.Unif01(), p.unif()); h.Initialize(s); b("independent-generators", 4, Random::Unif01(), z.unif()); b("independent-generators", 5, g.Unif01(), p.unif());
  RandomGenerator k(g); double e = p.unif(); b("copy-continues", 0, k.Unif01(), e); b("copy-continues", 1, g.Unif01(), e); vp_eq_i64("start-seed", 1, k.GetStartSeed(), s); }
// seeding from the clock reports a seed that reproduces the stream
ENTRY(clock_global) { Random::Initialize(); Ref r((u32)Random::GetStartSeed()); for (int i = 0; i < 4; ++i) b("clock-seed-reproduces", i, Random::Unif01(), r.unif()); }
ENTRY(clock_object) { RandomGenerator g; g.Initialize(); Ref r((u32)g.GetStartSeed()); for (int i = 0; i < 4; ++i) b("clock-seed-reproduces", i, g.Unif01(), r.unif()); }
ENTRY(unseeded_object) { RandomGenerator g; int t = 0; try { g.GetStartSeed(); } catch (const std::exception&) { t = 1; } vp_true("unseeded-has-no-start-seed", 0, t == 1); g.Initialize(sd()); vp_eq_i64("start-seed", 2, g.GetStartSeed(), sd()); }
ENTRY(unseeded_global) { int t = 0; try { Random::GetStartSeed(); } catch (const std::exception&) { t = 1; } vp_true("unseeded-has-no-start-seed", 1, t == 1); }
// filling an array is drawing one by one
template<int N> static void fill(int kind) { u32 s = sd(); dsfmt_t d; dsfmt_init_gen_rand(&d, s); alignas(16) double a[N]; Ref r(s);
  if (kind == 0) dsfmt_fill_array_close_open(&d, a, N); else if (kind == 1) dsfmt_fill_array_open_open(&d, a, N); else if (kind == 2) dsfmt_fill_array_open_close(&d, a, N); else dsfmt_fill_array_close1_open2(&d, a, N);
  for (int i = 0; i < N; ++i) { u64 n = r.next(); double y; if (kind == 0) y = dbl(n) - 1.0; else if (kind == 1) y = dbl(n | 1) - 1.0; else if (kind == 2) y = 2.0 - dbl(n); else y = dbl(n); if (i < 3 || i > N - 4 || (i > 379 && i < 386)) b("array-fill", i, a[i], y); }
}
ENTRY(fill_close_open) { fill<390>(0); } ENTRY(fill_open_open) { fill<390>(1); } ENTRY(fill_open_close) { fill<390>(2); } ENTRY(fill_close1_open2) { fill<390>(3); }
ENTRY(fillbig_close_open) { fill<1160>(0); } ENTRY(fillbig_open_open) { fill<1160>(1); } ENTRY(fillbig_open_close) { fill<1160>(2); } ENTRY(fillbig_close1_open2) { fill<1160>(3); }
// normal draws (uniform draws abstract here)
static double refg(double x) { double a = std::fabs(x), r = 17.49731196*std::exp(-x*x/2); if (a < 1) return r - 4.73570326*(3 - x*x) - 2.15787544*(1.5 - a); if (a < 1.5) return r - 2.36785163*(3 - a)*(3 - a) - 2.15787544*(1.5 - a); return r - 2.36785163*(3 - a)*(3 - a); }
static double refnorm(RandomGenerator& h) {
  double u = h.Unif01();
  if (u < 0.8638) { double a = h.Unif01(), b = h.Unif01(), c = h.Unif01(); return 2*(a + b + c - 1.5); }
  if (u < 0.9745) { double a = h.Unif01(), b = h.Unif01(); return 1.5*(a + b - 1); }
  if (u < 0.9973002039) { for (;;) { double a = h.Unif01(), b = h.Unif01(), x = 6*a - 3; if (0.358*b <= refg(x)) return x; } }
  for (;;) { double a = 2*h.Unif01() - 1, b = 2*h.Unif01() - 1, w = a*a + b*b; if (w < 1) { double c = std::sqrt((9 - 2*std::log(w))/w); if (std::fabs(c*a) > 3) return c*a; if (std::fabs(c*b) > 3) return c*b; } }
}
ENTRY(norm_object) { u32 s = sd(); RandomGenerator g(s), h(s); vp_eq_f64("normal-draw", 0, g.Norm01(), refnorm(h)); vp_eq_f64("stream-position-after-normal-draw", 0, g.Unif01(), h.Unif01()); }
ENTRY(norm_global) { u32 s = sd(); Random::Initialize(s); RandomGenerator h(s); vp_eq_f64("normal-draw", 1, Random::Norm01(), refnorm(h)); vp_eq_f64("stream-position-after-normal-draw", 1, Random::Unif01(), h.Unif01()); }

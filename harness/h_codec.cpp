// Specification of the binary number encodings (C19).
#include "vp.h"
#include "nrlib/iotools/fileio.hpp"
#include <cstring>
#include <vector>
using namespace NRLib;

// A stream in memory: the codecs are templates over the stream type. 'broken' makes every operation fail.
struct Mem {
  char b[64]; std::streamsize w = 0, r = 0, cap = 64, got = 0; bool bad_ = false, eof_ = false, broken = false;
  Mem& write(const char* s, std::streamsize n) { if (broken || bad_ || w + n > cap) { bad_ = true; return *this; } memcpy(b + w, s, n); w += n; return *this; }
  Mem& read(char* s, std::streamsize n) { got = 0; if (broken || bad_) { bad_ = true; return *this; } if (r + n > w) { got = w - r; memcpy(s, b + r, got); r = w; bad_ = true; eof_ = true; return *this; } memcpy(s, b + r, n); r += n; got = n; return *this; }
  explicit operator bool() const { return !bad_; }
  bool operator!() const { return bad_; }
  bool eof() const { return eof_; } bool fail() const { return bad_; } bool bad() const { return bad_ && !eof_; } bool good() const { return !bad_ && !eof_; }
  std::streamsize gcount() const { return got; } void clear() { bad_ = eof_ = false; }
  std::streamsize tellg() const { return r; } std::streamsize tellp() const { return w; } Mem& flush() { return *this; }
};
template <typename U> static int byte_of(U v, int k, int n, bool big) { return (int)((v >> (8*(big ? n - 1 - k : k))) & 0xff); }
static int at(const Mem& m, int k) { return (int)(unsigned char)m.b[k]; }
template <typename T, typename U> static T as(U u) { T t; memcpy(&t, &u, sizeof t); return t; }
template <typename U, typename T> static U bits(T t) { U u; memcpy(&u, &t, sizeof u); return u; }
static uint16_t B16(const char* n) { return (uint16_t)vp_i16(n, 0, 65535); }
static uint32_t B32(const char* n) { return (uint32_t)vp_i32(n, 0, 4294967295LL); }
static uint64_t B64(const char* n) { return ((uint64_t)B32(n) << 32); }

#define SCALAR(ID, U, T, N, GEN, WR, RD) \
template <bool BIG> static void scalar_##ID() { Endianess e = BIG ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; U u = GEN; T v = as<T>(u); Mem s; s.cap = N; WR(s, v, e); vp_eq_i64("written-size", N, s.w, N); \
  for (int k = 0; k < N; ++k) vp_eq_i64("written-bytes", k, at(s, k), byte_of(u, k, N, BIG)); T q = RD(s, e); vp_eq_i64("read-back", N, (int64_t)bits<U>(q), (int64_t)u); vp_eq_i64("read-size", N, s.r, N); } \
ENTRY(be_##ID) { scalar_##ID<true>(); } ENTRY(le_##ID) { scalar_##ID<false>(); } \
ENTRY(default_##ID) { U u = GEN; T v = as<T>(u); Mem s, t; WR(s, v); WR(t, v, END_BIG_ENDIAN); for (int k = 0; k < N; ++k) vp_eq_i64("big-endian-is-the-default", k, at(s, k), at(t, k)); vp_eq_i64("big-endian-is-the-default", N, (int64_t)bits<U>(RD(s)), (int64_t)u); } \
template <bool BIG> static void array_##ID() { Endianess e = BIG ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; std::vector<T> a(3); U u[3]; { U x = GEN; u[0] = x; u[1] = (U)(x * 5 + 1); u[2] = (U)~x; } for (int i = 0; i < 3; ++i) a[i] = as<T>(u[i]); \
  Mem s; s.cap = 3*N; WR##Array(s, a.begin(), a.end(), e); vp_eq_i64("written-size", 3*N, s.w, 3*N); for (int i = 0; i < 3; ++i) for (int k = 0; k < N; ++k) vp_eq_i64("written-bytes", i*N + k, at(s, i*N + k), byte_of(u[i], k, N, BIG)); \
  for (int i = 0; i < 3; ++i) vp_eq_i64("array-keeps-its-values", i, (int64_t)bits<U>(a[i]), (int64_t)u[i]); \
  std::vector<T> q(5, T(0)); RD##Array(s, q.begin() + 1, 3, e); vp_eq_i64("read-size", 3*N, s.r, 3*N); for (int i = 0; i < 3; ++i) vp_eq_i64("read-back", i, (int64_t)bits<U>(q[i+1]), (int64_t)u[i]); vp_eq_i64("nothing-else-is-written", 0, (int64_t)bits<U>(q[0]), 0); vp_eq_i64("nothing-else-is-written", 4, (int64_t)bits<U>(q[4]), 0); } \
ENTRY(bea_##ID) { array_##ID<true>(); } ENTRY(lea_##ID) { array_##ID<false>(); } \
ENTRY(defa_##ID) { U x = GEN; std::vector<T> a(2, as<T>(x)); Mem s, t; WR##Array(s, a.begin(), a.end()); WR##Array(t, a.begin(), a.end(), END_BIG_ENDIAN); for (int k = 0; k < 2*N; ++k) vp_eq_i64("big-endian-is-the-default", k, at(s, k), at(t, k)); \
  std::vector<T> q(2), p(2); RD##Array(s, q.begin(), 2); RD##Array(t, p.begin(), 2, END_BIG_ENDIAN); for (int i = 0; i < 2; ++i) vp_eq_i64("big-endian-is-the-default", i, (int64_t)bits<U>(q[i]), (int64_t)bits<U>(p[i])); }

SCALAR(short, uint16_t, short, 2, B16("u"), WriteBinaryShort, ReadBinaryShort)
SCALAR(int, uint32_t, int, 4, B32("u"), WriteBinaryInt, ReadBinaryInt)
SCALAR(float, uint32_t, float, 4, B32("u"), WriteBinaryFloat, ReadBinaryFloat)
SCALAR(double, uint64_t, double, 8, (B64("u") | B32("l")), WriteBinaryDouble, ReadBinaryDouble)

// mixed content: position in the stream is what was written before
ENTRY(sequence) {
  uint16_t a = B16("a"); uint32_t b = B32("b"), c = B32("c"); Mem s;
  WriteBinaryShort(s, as<short>(a)); WriteBinaryInt(s, as<int>(b), END_LITTLE_ENDIAN); WriteBinaryFloat(s, as<float>(c)); WriteBinaryShort(s, as<short>(a), END_LITTLE_ENDIAN); vp_eq_i64("written-size", 0, s.w, 12);
  vp_eq_i64("read-back", 0, (uint16_t)ReadBinaryShort(s), a); vp_eq_i64("read-back", 1, (uint32_t)ReadBinaryInt(s, END_LITTLE_ENDIAN), b); vp_eq_i64("read-back", 2, bits<uint32_t>(ReadBinaryFloat(s)), c); vp_eq_i64("read-back", 3, (uint16_t)ReadBinaryShort(s, END_LITTLE_ENDIAN), a);
}
// single precision values may be read into containers of doubles
ENTRY(float_to_double) {
  std::vector<float> a(2); a[0] = vp_float("x", -100, 100); a[1] = vp_float("y", -100, 100); Mem s, t; WriteBinaryFloatArray(s, a.begin(), a.end(), END_LITTLE_ENDIAN); WriteBinaryFloatArray(t, a.begin(), a.end());
  std::vector<double> q(2), p(2); ReadBinaryFloatArray(s, q.begin(), 2, END_LITTLE_ENDIAN); ReadBinaryFloatArray(t, p.begin(), 2); for (int i = 0; i < 2; ++i) { vp_eq_f64("float-read-as-double", i, q[i], (double)a[i]); vp_eq_f64("float-read-as-double", i, p[i], (double)a[i]); }
}
// memory buffers
ENTRY(buffers) {
  uint16_t a = B16("a"); uint32_t b = B32("b"); char m[4]; for (int k = 0; k < 4; ++k) m[k] = (char)byte_of(b, k, 4, true);
  int i; unsigned int u; float f; ParseInt32BE(m, i); ParseUInt32BE(m, u); ParseIEEEFloatBE(m, f); vp_eq_i64("parsed-buffer", 0, (uint32_t)i, b); vp_eq_i64("parsed-buffer", 1, u, b); vp_eq_i64("parsed-buffer", 2, bits<uint32_t>(f), b);
  char n[2]; for (int k = 0; k < 2; ++k) n[k] = (char)byte_of(a, k, 2, true); short h; unsigned short us; ParseInt16BE(n, h); ParseUInt16BE(n, us); vp_eq_i64("parsed-buffer", 3, (uint16_t)h, a); vp_eq_i64("parsed-buffer", 4, us, a);
  char o[4] = {1, 2, 3, 4}; WriteInt32BE(o, as<int>(b)); for (int k = 0; k < 4; ++k) vp_eq_i64("written-buffer", k, (unsigned char)o[k], byte_of(b, k, 4, true)); WriteUInt32BE(o, b); for (int k = 0; k < 4; ++k) vp_eq_i64("written-buffer", 4 + k, (unsigned char)o[k], byte_of(b, k, 4, true));
  char p[2]; WriteInt16BE(p, as<short>(a)); for (int k = 0; k < 2; ++k) vp_eq_i64("written-buffer", 8 + k, (unsigned char)p[k], byte_of(a, k, 2, true)); WriteUInt16BE(p, a); for (int k = 0; k < 2; ++k) vp_eq_i64("written-buffer", 10 + k, (unsigned char)p[k], byte_of(a, k, 2, true));
}

// IBM floats: sign, exponent of 16 (excess 64), 24-bit fraction
static uint32_t spec_ibm(uint32_t u) {           // u: a normal IEEE number
  uint32_t s = u & 0x80000000u; int E = (int)((u >> 23) & 255) - 126; uint32_t m = (u & 0x7fffffu) | 0x800000u;   // value = m/2^24 * 2^E
  int x = (E + 512 + 3)/4 - 128; uint32_t sh = (uint32_t)(4*x - E); return s | ((uint32_t)(x + 64) << 24) | (m >> sh);
}
static uint32_t spec_ieee(uint32_t v) {          // v: a normalised IBM number in the range of normal IEEE numbers
  uint32_t s = v & 0x80000000u, m = v & 0xffffffu; int x = (int)((v >> 24) & 127) - 64; uint32_t sh = m >= 0x800000u ? 0 : m >= 0x400000u ? 1 : m >= 0x200000u ? 2 : 3;
  uint32_t f = m << sh; int E = 4*x - (int)sh; return s | ((uint32_t)(E + 126) << 23) | (f & 0x7fffffu);
}
static uint32_t normal_ieee() { uint32_t s = (uint32_t)vp_i32("s", 0, 1), e = (uint32_t)vp_i32("e", 1, 254), f = (uint32_t)vp_i32("f", 0, 0x7fffff); return (s << 31) | (e << 23) | f; }
static uint32_t normal_ibm() { uint32_t s = (uint32_t)vp_i32("s", 0, 1), e = (uint32_t)vp_i32("e", 0x22, 0x60), f = (uint32_t)vp_i32("f", 0x100000, 0xffffff); return (s << 31) | (e << 24) | f; }
template <bool BIG> static void ibm_write() { Endianess e = BIG ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; uint32_t u = normal_ieee(), w = spec_ibm(u); Mem s; s.cap = 4; WriteBinaryIbmFloat(s, as<float>(u), e); vp_eq_i64("written-size", 4, s.w, 4);
  for (int k = 0; k < 4; ++k) vp_eq_i64("ibm-written-bytes", k, at(s, k), byte_of(w, k, 4, BIG)); std::vector<float> a(2, as<float>(u)); a[1] = 0.0f; Mem t; WriteBinaryIbmFloatArray(t, a.begin(), a.end(), e); vp_eq_i64("written-size", 8, t.w, 8); for (int k = 0; k < 8; ++k) vp_eq_i64("ibm-written-bytes", 10 + k, at(t, k), k < 4 ? byte_of(w, k, 4, BIG) : 0); }
ENTRY(ibmw_be) { ibm_write<true>(); } ENTRY(ibmw_le) { ibm_write<false>(); }
template <bool BIG> static void ibm_read() { Endianess e = BIG ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; uint32_t v = normal_ibm(), w = spec_ieee(v); Mem s; for (int k = 0; k < 12; ++k) s.b[k] = (char)(k >= 4 && k < 8 ? 0 : byte_of(v, k % 4, 4, BIG)); s.w = 12;
  float f = ReadBinaryIbmFloat(s, e); vp_eq_i64("ibm-read", 0, bits<uint32_t>(f), w); vp_eq_i64("read-size", 0, s.r, 4); std::vector<float> q(2, 7.0f); ReadBinaryIbmFloatArray(s, q.begin(), 2, e); vp_eq_i64("ibm-read", 1, bits<uint32_t>(q[0]), 0); vp_eq_i64("ibm-read", 2, bits<uint32_t>(q[1]), w); vp_eq_i64("read-size", 1, s.r, 12);
  if (BIG) { float g; ParseIBMFloatBE(s.b, g); vp_eq_i64("ibm-read", 3, bits<uint32_t>(g), w); } }
ENTRY(ibmr_be) { ibm_read<true>(); } ENTRY(ibmr_le) { ibm_read<false>(); }
ENTRY(ibm_zero) { Mem s; WriteBinaryIbmFloat(s, 0.0f); for (int k = 0; k < 4; ++k) vp_eq_i64("ibm-zero", k, at(s, k), 0); vp_eq_i64("ibm-zero", 4, bits<uint32_t>(ReadBinaryIbmFloat(s)), 0); }
ENTRY(ibm_default) { uint32_t u = normal_ieee(); Mem s, t; WriteBinaryIbmFloat(s, as<float>(u)); WriteBinaryIbmFloat(t, as<float>(u), END_BIG_ENDIAN); std::vector<float> a(1, as<float>(u)); WriteBinaryIbmFloatArray(s, a.begin(), a.end()); for (int k = 0; k < 8; ++k) vp_eq_i64("big-endian-is-the-default", k, at(s, k), at(t, k % 4));
  float p = ReadBinaryIbmFloat(s), q = ReadBinaryIbmFloat(t, END_BIG_ENDIAN); vp_eq_i64("big-endian-is-the-default", 8, bits<uint32_t>(p), bits<uint32_t>(q)); std::vector<float> z(1); ReadBinaryIbmFloatArray(s, z.begin(), 1); vp_eq_i64("big-endian-is-the-default", 9, bits<uint32_t>(z[0]), bits<uint32_t>(q)); }
// values with few significant bits survive the round trip through IBM floats
ENTRY(ibm_round_trip) { uint32_t s = (uint32_t)vp_i32("s", 0, 1), e = (uint32_t)vp_i32("e", 7, 254), f = (uint32_t)vp_i32("f", 0, 0xfffff); uint32_t u = (s << 31) | (e << 23) | (f << 3); Mem m; WriteBinaryIbmFloat(m, as<float>(u), END_LITTLE_ENDIAN); vp_eq_i64("ibm-round-trip", 0, bits<uint32_t>(ReadBinaryIbmFloat(m, END_LITTLE_ENDIAN)), u); }

// failing streams
template <typename F> static int outcome(F f) { try { f(); } catch (EndOfFile&) { return 2; } catch (Exception&) { return 1; } return 0; }
#define FAILS(ID, T, WR, RD) \
ENTRY(failw_##ID) { for (int e = 0; e < 2; ++e) { Mem s; s.broken = true; Endianess en = e ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; vp_true("failed-write-raises", e, outcome([&] { WR(s, T(1), en); }) != 0); std::vector<T> a(2, T(1)); Mem t; t.broken = true; vp_true("failed-write-raises", 2 + e, outcome([&] { WR##Array(t, a.begin(), a.end(), en); }) != 0); } } \
ENTRY(failr_##ID) { for (int e = 0; e < 2; ++e) { Mem s; s.broken = true; Endianess en = e ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; vp_true("failed-read-raises", e, outcome([&] { RD(s, en); }) == 1); std::vector<T> a(2, T(1)); Mem t; t.broken = true; vp_true("failed-read-raises", 2 + e, outcome([&] { RD##Array(t, a.begin(), 2, en); }) != 0); } } \
ENTRY(short_##ID) { for (int e = 0; e < 2; ++e) { Endianess en = e ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; for (int n = 0; n < (int)sizeof(T); ++n) { Mem s; memset(s.b, 1, 64); s.w = n; vp_true("end-of-data-raises", n*2 + e, outcome([&] { RD(s, en); }) == 2); } \
  for (int n = 0; n < 3; ++n) { Mem s; memset(s.b, 1, 64); s.w = 2*sizeof(T) - 1 - n; std::vector<T> a(2, T(1)); vp_true("end-of-data-raises", 100 + n*2 + e, outcome([&] { RD##Array(s, a.begin(), 2, en); }) != 0); } } }
FAILS(short, short, WriteBinaryShort, ReadBinaryShort) FAILS(int, int, WriteBinaryInt, ReadBinaryInt) FAILS(float, float, WriteBinaryFloat, ReadBinaryFloat) FAILS(double, double, WriteBinaryDouble, ReadBinaryDouble) FAILS(ibm, float, WriteBinaryIbmFloat, ReadBinaryIbmFloat)

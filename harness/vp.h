// Interface between specification harnesses and the value-flow analyser.
// Nothing here is ever executed: the harness is compiled to LLVM IR and analysed.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double  vp_real(const char* name, double lo, double hi) noexcept;   // unconstrained real input in [lo,hi]
double  vp_wide(const char* name, double lo, double hi) noexcept;   // real input of any magnitude, mostly in [lo,hi]
float   vp_float(const char* name, double lo, double hi) noexcept;
int32_t vp_i32(const char* name, int64_t lo, int64_t hi) noexcept;
int64_t vp_i64(const char* name, int64_t lo, int64_t hi) noexcept;
int16_t vp_i16(const char* name, int64_t lo, int64_t hi) noexcept;
int8_t  vp_i8(const char* name, int64_t lo, int64_t hi) noexcept;
void vp_eq_f64(const char* what, int64_t idx, double actual, double expected) noexcept;
void vp_eq_f32(const char* what, int64_t idx, float actual, float expected) noexcept;
void vp_eq_i64(const char* what, int64_t idx, int64_t actual, int64_t expected) noexcept;
void vp_eq_ptr(const char* what, int64_t idx, const void* actual, const void* expected) noexcept;
void vp_out_f64(const char* what, int64_t idx, double v) noexcept;   // a result collected for the specification
void vp_out_i64(const char* what, int64_t idx, int64_t v) noexcept;
void vp_true(const char* what, int64_t idx, int cond) noexcept;
void vp_assume(int cond);
void vp_havoc(void* p, uint64_t n) noexcept;                         // the bytes hold unknown values
double vp_fn1(const char* name, double x) noexcept;                 // uninterpreted functions
double vp_fn2(const char* name, double x, double y) noexcept;
double vp_fn3(const char* name, double x, double y, double z) noexcept;
}
#define ENTRY(n) extern "C" __attribute__((noinline)) void entry_##n()

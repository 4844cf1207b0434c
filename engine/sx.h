// Harness API: symbolic under symx, replaying recorded inputs in the native build.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
double sx_double(const char* name);                                       // any 64-bit pattern (IEEE mode)
double sx_real(const char* name, double lo, double hi, int scale);         // k*2^-scale in [lo,hi] (exact-real mode)
uint64_t sx_u64(const char* name);
uint32_t sx_u32(const char* name);
uint8_t sx_byte(const char* name);
uint64_t sx_choose(const char* name, uint64_t n);                          // 0..n-1, one path per value
void sx_assume(int c);
void sx_check(int c, const char* label);
void sx_reach(const char* label);
double sx_min(double a, double b);
double sx_max(double a, double b);
double sx_ite(int c, double a, double b);
int sx_same(double a, double b);                                           // same bit pattern (any NaN = any NaN natively)
int sx_fork(int c);                                                        // split the path on c
void sx_obs_d(const char* name, double v);
void sx_obs_i(const char* name, int64_t v);
int sx_symbolic(void);                                                     // 1 under symx, 0 natively
}

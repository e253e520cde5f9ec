// Plain C++ stand-ins for the NEON intrinsics used by the library: lets a counterexample found
// on the cross compiled code run natively. Not used by the analysis itself.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#define NS_VEC(T, N, E) typedef E T##x##N##_t __attribute__((vector_size(N * sizeof(E))));
NS_VEC(int8, 16, int8_t) NS_VEC(uint8, 16, uint8_t) NS_VEC(int16, 8, int16_t) NS_VEC(uint16, 8, uint16_t) NS_VEC(int32, 4, int32_t) NS_VEC(uint32, 4, uint32_t) NS_VEC(int64, 2, int64_t) NS_VEC(uint64, 2, uint64_t) NS_VEC(float32, 4, float)
NS_VEC(int8, 8, int8_t) NS_VEC(uint8, 8, uint8_t)
struct int8x8x2_t { int8x8_t val[2]; }; struct uint8x8x2_t { uint8x8_t val[2]; };
#define NS_EACH(N, X) for (int i = 0; i < N; ++i) { X; } return r;
#define NS_ANY(S, V, N, E) \
static inline V vdupq_n_##S(E a) { V r; NS_EACH(N, r[i] = a) } \
static inline V vaddq_##S(V a, V b) { return a + b; } \
static inline V vsubq_##S(V a, V b) { return a - b; } \
static inline V vmulq_##S(V a, V b) { return a * b; } \
static inline V vld1q_##S(const E *p) { V r; memcpy(&r, p, sizeof r); return r; } \
static inline void vst1q_##S(E *p, V a) { memcpy(p, &a, sizeof a); } \
static inline V vminq_##S(V a, V b) { V r; NS_EACH(N, r[i] = a[i] < b[i] ? a[i] : b[i]) } \
static inline V vmaxq_##S(V a, V b) { V r; NS_EACH(N, r[i] = a[i] > b[i] ? a[i] : b[i]) }
#define NS_CMP(S, V, M, N) \
static inline M vceqq_##S(V a, V b) { return (M)(a == b); } static inline M vcgtq_##S(V a, V b) { return (M)(a > b); } static inline M vcltq_##S(V a, V b) { return (M)(a < b); } \
static inline M vcgeq_##S(V a, V b) { return (M)(a >= b); } static inline M vcleq_##S(V a, V b) { return (M)(a <= b); }
#define NS_BIT(S, V, U) \
static inline V vandq_##S(V a, V b) { return a & b; } static inline V vorrq_##S(V a, V b) { return a | b; } static inline V veorq_##S(V a, V b) { return a ^ b; } \
static inline V vbicq_##S(V a, V b) { return a & ~b; } static inline V vornq_##S(V a, V b) { return a | ~b; } static inline V vmvnq_##S(V a) { return ~a; } \
static inline V vbslq_##S(U m, V a, V b) { return (V)((m & (U)a) | (~m & (U)b)); }
#define NS_SHIFT(S, V) static inline V vshlq_n_##S(V a, int n) { return a << n; } static inline V vshrq_n_##S(V a, int n) { return a >> n; }
#define NS_SIGNED(S, V, N, E, MIN, MAX) \
static inline V vnegq_##S(V a) { return -a; } static inline V vabsq_##S(V a) { V r; NS_EACH(N, r[i] = a[i] < 0 ? 0 - a[i] : a[i]) } \
static inline V vqabsq_##S(V a) { V r; NS_EACH(N, r[i] = a[i] == MIN ? MAX : a[i] < 0 ? -a[i] : a[i]) } \
static inline V vqaddq_##S(V a, V b) { V r; NS_EACH(N, long long t = (long long)a[i] + b[i]; r[i] = t < MIN ? MIN : t > MAX ? MAX : t) } \
static inline V vqsubq_##S(V a, V b) { V r; NS_EACH(N, long long t = (long long)a[i] - b[i]; r[i] = t < MIN ? MIN : t > MAX ? MAX : t) }
#define NS_UNSIGNED(S, V, N, E, MAX) \
static inline V vqaddq_##S(V a, V b) { V r; NS_EACH(N, unsigned long long t = (unsigned long long)a[i] + b[i]; r[i] = t > MAX ? MAX : t) } \
static inline V vqsubq_##S(V a, V b) { V r; NS_EACH(N, r[i] = a[i] > b[i] ? a[i] - b[i] : 0) }
NS_ANY(s8, int8x16_t, 16, int8_t) NS_ANY(u8, uint8x16_t, 16, uint8_t) NS_ANY(s16, int16x8_t, 8, int16_t) NS_ANY(u16, uint16x8_t, 8, uint16_t) NS_ANY(s32, int32x4_t, 4, int32_t) NS_ANY(u32, uint32x4_t, 4, uint32_t) NS_ANY(s64, int64x2_t, 2, int64_t) NS_ANY(u64, uint64x2_t, 2, uint64_t) NS_ANY(f32, float32x4_t, 4, float)
NS_CMP(s8, int8x16_t, uint8x16_t, 16) NS_CMP(u8, uint8x16_t, uint8x16_t, 16) NS_CMP(s16, int16x8_t, uint16x8_t, 8) NS_CMP(u16, uint16x8_t, uint16x8_t, 8) NS_CMP(s32, int32x4_t, uint32x4_t, 4) NS_CMP(u32, uint32x4_t, uint32x4_t, 4) NS_CMP(s64, int64x2_t, uint64x2_t, 2) NS_CMP(u64, uint64x2_t, uint64x2_t, 2) NS_CMP(f32, float32x4_t, uint32x4_t, 4)
NS_BIT(s8, int8x16_t, uint8x16_t) NS_BIT(u8, uint8x16_t, uint8x16_t) NS_BIT(s16, int16x8_t, uint16x8_t) NS_BIT(u16, uint16x8_t, uint16x8_t) NS_BIT(s32, int32x4_t, uint32x4_t) NS_BIT(u32, uint32x4_t, uint32x4_t) NS_BIT(s64, int64x2_t, uint64x2_t) NS_BIT(u64, uint64x2_t, uint64x2_t)
NS_SHIFT(u8, uint8x16_t) NS_SHIFT(u16, uint16x8_t) NS_SHIFT(u32, uint32x4_t) NS_SHIFT(u64, uint64x2_t) NS_SHIFT(s8, int8x16_t) NS_SHIFT(s16, int16x8_t) NS_SHIFT(s32, int32x4_t)
NS_SIGNED(s8, int8x16_t, 16, int8_t, INT8_MIN, INT8_MAX) NS_SIGNED(s16, int16x8_t, 8, int16_t, INT16_MIN, INT16_MAX) NS_SIGNED(s32, int32x4_t, 4, int32_t, INT32_MIN, INT32_MAX)
NS_UNSIGNED(u8, uint8x16_t, 16, uint8_t, UINT8_MAX) NS_UNSIGNED(u16, uint16x8_t, 8, uint16_t, UINT16_MAX) NS_UNSIGNED(u32, uint32x4_t, 4, uint32_t, UINT32_MAX)
static inline float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a & 0x7fffffffu); }
static inline float32x4_t vnegq_f32(float32x4_t a) { return (float32x4_t)((uint32x4_t)a ^ 0x80000000u); }
static inline float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
static inline uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t k) { uint8x16_t r; NS_EACH(16, r[i] = k[i] < 16 ? t[k[i]] : 0) }
static inline int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t k) { return (int8x16_t)vqtbl1q_u8((uint8x16_t)t, k); }
static inline uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
static inline uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, (char *)&a + 8, 8); return r; }
static inline int8x8_t vget_low_s8(int8x16_t a) { int8x8_t r; memcpy(&r, &a, 8); return r; }
static inline int8x8_t vget_high_s8(int8x16_t a) { int8x8_t r; memcpy(&r, (char *)&a + 8, 8); return r; }
static inline uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) { uint8x16_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline int8x16_t vcombine_s8(int8x8_t a, int8x8_t b) { int8x16_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline uint8x8_t vtbl2_u8(uint8x8x2_t t, uint8x8_t k) { uint8x8_t r; NS_EACH(8, r[i] = k[i] < 16 ? t.val[k[i] / 8][k[i] % 8] : 0) }
static inline int8x8_t vtbl2_s8(int8x8x2_t t, int8x8_t k) { int8x8_t r; NS_EACH(8, uint8_t j = k[i]; r[i] = j < 16 ? t.val[j / 8][j % 8] : 0) }

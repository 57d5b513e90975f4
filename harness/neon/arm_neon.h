// A stand-in for the compiler's <arm_neon.h>: the intrinsics the library uses, lane by lane as the Arm architecture
// reference manual defines them, so that the library's NEON code runs under the checks ("neon" configuration).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>

typedef float float32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef float float32_t;
struct float32x4x2_t { float32x4_t val[2]; };

#define NEON_FN static inline __attribute__((always_inline))
namespace neonemu
{
template<class To, class From> NEON_FN To bits(From a) { To r; static_assert(sizeof(r) == sizeof(a)); memcpy(&r, &a, sizeof(r)); return r; }
template<class V, class F> NEON_FN V each(F f) { V r; for (int i = 0; i < 4; i++) r[i] = f(i); return r; }
NEON_FN uint32_t mask(bool b) { return b ? 0xFFFFFFFFu : 0u; }
NEON_FN float minf(float a, float b) // FMIN: NaN if either is, -0 below +0
{ return a != a || b != b ? std::numeric_limits<float>::quiet_NaN() : a == b ? (std::signbit(a) ? a : b) : a < b ? a : b; }
NEON_FN float maxf(float a, float b)
{ return a != a || b != b ? std::numeric_limits<float>::quiet_NaN() : a == b ? (std::signbit(a) ? b : a) : a > b ? a : b; }
NEON_FN int32_t tos(float a) // FCVTZS: towards zero, saturating, NaN is 0
{ return a != a ? 0 : a >= 2147483648.0f ? INT32_MAX : a < -2147483648.0f ? INT32_MIN : (int32_t)a; }
NEON_FN uint32_t tou(float a) { return a != a || a <= 0.0f ? 0u : a >= 4294967296.0f ? UINT32_MAX : (uint32_t)a; } // FCVTZU
NEON_FN uint32_t ushl(uint32_t a, int32_t b) // USHL: by the low byte, negative to the right
{ int s = (int8_t)(b & 255); return s >= 32 || s <= -32 ? 0u : s >= 0 ? a << s : a >> -s; }
NEON_FN int32_t sshl(int32_t a, int32_t b) // SSHL
{ int s = (int8_t)(b & 255); return s >= 32 ? 0 : s >= 0 ? (int32_t)((uint32_t)a << s) : a >> (s < -31 ? 31 : -s); }
NEON_FN float even(float a) // FRINTN: ties to even whatever the rounding mode
{ float t = std::trunc(a), d = std::fabs(a - t); if (d > 0.5f || (d == 0.5f && std::fmod(t, 2.0f) != 0.0f)) t += std::copysign(1.0f, a); return std::copysign(t, a); }
}


NEON_FN float32x4_t vdupq_n_f32(float a) { return neonemu::each<float32x4_t>([&](int i) { return a; }); }
NEON_FN float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_f32(float* p, float32x4_t a) { memcpy(p, &a, 16); }
NEON_FN float32x4_t vsetq_lane_f32(float x, float32x4_t a, int n) { a[n & 3] = x; return a; }
NEON_FN float vgetq_lane_f32(float32x4_t a, int n) { return a[n & 3]; }
NEON_FN float32x4_t vdupq_laneq_f32(float32x4_t a, int n) { return neonemu::each<float32x4_t>([&](int i) { return a[n & 3]; }); }
NEON_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return a[i] + b[i]; }); }
NEON_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return a[i] - b[i]; }); }
NEON_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return a[i] * b[i]; }); }
NEON_FN uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] == b[i]); }); }
NEON_FN uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] < b[i]); }); }
NEON_FN uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] <= b[i]); }); }
NEON_FN uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] > b[i]); }); }
NEON_FN uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] >= b[i]); }); }
NEON_FN float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { auto x = neonemu::bits<uint32x4_t>(a), y = neonemu::bits<uint32x4_t>(b); return neonemu::bits<float32x4_t>(uint32x4_t((m & x) | (~m & y))); }
NEON_FN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return neonemu::minf(a[i], b[i]); }); }
NEON_FN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return neonemu::maxf(a[i], b[i]); }); }
NEON_FN int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return neonemu::bits<int32x4_t>(a); }
NEON_FN uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return neonemu::bits<uint32x4_t>(a); }
NEON_FN float32x4_t vnegq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return -a[i]; }); }
NEON_FN float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return neonemu::each<float32x4_t>([&](int i) { return a[i] / b[i]; }); }
NEON_FN float32x4_t vabsq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return std::fabs(a[i]); }); }
NEON_FN float32x4_t vsqrtq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return std::sqrt(a[i]); }); }
NEON_FN float32x4_t vmulq_n_f32(float32x4_t a, float b) { return neonemu::each<float32x4_t>([&](int i) { return a[i] * b; }); }
NEON_FN float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return neonemu::each<float32x4_t>([&](int i) { return a[i] + b[i] * c[i]; }); }
NEON_FN float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return neonemu::each<float32x4_t>([&](int i) { return std::fma(b[i], c[i], a[i]); }); }
NEON_FN float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return neonemu::each<float32x4_t>([&](int i) { return a[i] - b[i] * c[i]; }); }
NEON_FN float32x4_t vrndq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return std::trunc(a[i]); }); }
NEON_FN float32x4_t vrndpq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return std::ceil(a[i]); }); }
NEON_FN float32x4_t vrndmq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return std::floor(a[i]); }); }
NEON_FN float32x4_t vrndnq_f32(float32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return neonemu::even(a[i]); }); }
NEON_FN float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON_FN float vminvq_f32(float32x4_t a) { return neonemu::minf(neonemu::minf(a[0], a[1]), neonemu::minf(a[2], a[3])); }
NEON_FN float vmaxvq_f32(float32x4_t a) { return neonemu::maxf(neonemu::maxf(a[0], a[1]), neonemu::maxf(a[2], a[3])); }
NEON_FN float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; r.val[0] = float32x4_t{ a[0], b[0], a[1], b[1] }; r.val[1] = float32x4_t{ a[2], b[2], a[3], b[3] }; return r; }
NEON_FN int32x4_t vcvtq_s32_f32(float32x4_t a) { return neonemu::each<int32x4_t>([&](int i) { return neonemu::tos(a[i]); }); }
NEON_FN uint32x4_t vcvtq_u32_f32(float32x4_t a) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::tou(a[i]); }); }
NEON_FN float32x2_t vdup_n_f32(float a) { return float32x2_t{ a, a }; }
NEON_FN float32x2_t vsqrt_f32(float32x2_t a) { return float32x2_t{ std::sqrt(a[0]), std::sqrt(a[1]) }; }
NEON_FN float vget_lane_f32(float32x2_t a, int n) { return a[n & 1]; }

NEON_FN int32x4_t vdupq_n_s32(int a) { return neonemu::each<int32x4_t>([&](int i) { return a; }); }
NEON_FN int32x4_t vld1q_s32(const int* p) { int32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_s32(int* p, int32x4_t a) { memcpy(p, &a, 16); }
NEON_FN int32x4_t vsetq_lane_s32(int x, int32x4_t a, int n) { a[n & 3] = x; return a; }
NEON_FN int vgetq_lane_s32(int32x4_t a, int n) { return a[n & 3]; }
NEON_FN int32x4_t vdupq_laneq_s32(int32x4_t a, int n) { return neonemu::each<int32x4_t>([&](int i) { return a[n & 3]; }); }
NEON_FN int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return (int32_t)((uint32_t)a[i] + (uint32_t)b[i]); }); }
NEON_FN int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return (int32_t)((uint32_t)a[i] - (uint32_t)b[i]); }); }
NEON_FN int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return (int32_t)((uint32_t)a[i] * (uint32_t)b[i]); }); }
NEON_FN uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] == b[i]); }); }
NEON_FN uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] < b[i]); }); }
NEON_FN uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] <= b[i]); }); }
NEON_FN uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] > b[i]); }); }
NEON_FN uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] >= b[i]); }); }
NEON_FN int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { auto x = neonemu::bits<uint32x4_t>(a), y = neonemu::bits<uint32x4_t>(b); return neonemu::bits<int32x4_t>(uint32x4_t((m & x) | (~m & y))); }
NEON_FN int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return a[i] < b[i] ? a[i] : b[i]; }); }
NEON_FN int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return a[i] > b[i] ? a[i] : b[i]; }); }
NEON_FN float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return neonemu::bits<float32x4_t>(a); }
NEON_FN uint32x4_t vreinterpretq_u32_s32(int32x4_t a) { return neonemu::bits<uint32x4_t>(a); }
NEON_FN int32x4_t vnegq_s32(int32x4_t a) { return neonemu::each<int32x4_t>([&](int i) { return (int32_t)(0u - (uint32_t)a[i]); }); }
NEON_FN int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
NEON_FN int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
NEON_FN int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
NEON_FN int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { return a & ~b; }
NEON_FN int32x4_t vmvnq_s32(int32x4_t a) { return ~a; }
NEON_FN float32x4_t vcvtq_f32_s32(int32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return (float)a[i]; }); }
NEON_FN int32x4_t vshlq_s32(int32x4_t a, int32x4_t b) { return neonemu::each<int32x4_t>([&](int i) { return neonemu::sshl(a[i], b[i]); }); }
NEON_FN int32x4_t vshrq_n_s32(int32x4_t a, int n) { return neonemu::each<int32x4_t>([&](int i) { return n >= 32 ? (a[i] < 0 ? -1 : 0) : a[i] >> n; }); }
NEON_FN int32x4_t vshlq_n_s32(int32x4_t a, int n) { return neonemu::each<int32x4_t>([&](int i) { return (int)((uint32_t)a[i] << (n & 31)); }); }
NEON_FN int vaddvq_s32(int32x4_t a) { return (int)((uint32_t)a[0] + (uint32_t)a[1] + (uint32_t)a[2] + (uint32_t)a[3]); }
NEON_FN int vminvq_s32(int32x4_t a) { int r = a[0]; for (int i = 1; i < 4; i++) if (a[i] < r) r = a[i]; return r; }
NEON_FN int vmaxvq_s32(int32x4_t a) { int r = a[0]; for (int i = 1; i < 4; i++) if (a[i] > r) r = a[i]; return r; }

NEON_FN uint32x4_t vdupq_n_u32(unsigned a) { return neonemu::each<uint32x4_t>([&](int i) { return a; }); }
NEON_FN uint32x4_t vld1q_u32(const unsigned* p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_u32(unsigned* p, uint32x4_t a) { memcpy(p, &a, 16); }
NEON_FN uint32x4_t vsetq_lane_u32(unsigned x, uint32x4_t a, int n) { a[n & 3] = x; return a; }
NEON_FN unsigned vgetq_lane_u32(uint32x4_t a, int n) { return a[n & 3]; }
NEON_FN uint32x4_t vdupq_laneq_u32(uint32x4_t a, int n) { return neonemu::each<uint32x4_t>([&](int i) { return a[n & 3]; }); }
NEON_FN uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return a[i] + b[i]; }); }
NEON_FN uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return a[i] - b[i]; }); }
NEON_FN uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return a[i] * b[i]; }); }
NEON_FN uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] == b[i]); }); }
NEON_FN uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] < b[i]); }); }
NEON_FN uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] <= b[i]); }); }
NEON_FN uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] > b[i]); }); }
NEON_FN uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::mask(a[i] >= b[i]); }); }
NEON_FN uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { auto x = neonemu::bits<uint32x4_t>(a), y = neonemu::bits<uint32x4_t>(b); return neonemu::bits<uint32x4_t>(uint32x4_t((m & x) | (~m & y))); }
NEON_FN uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return a[i] < b[i] ? a[i] : b[i]; }); }
NEON_FN uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return a[i] > b[i] ? a[i] : b[i]; }); }
NEON_FN float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return neonemu::bits<float32x4_t>(a); }
NEON_FN int32x4_t vreinterpretq_s32_u32(uint32x4_t a) { return neonemu::bits<int32x4_t>(a); }
NEON_FN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
NEON_FN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
NEON_FN uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
NEON_FN uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
NEON_FN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
NEON_FN float32x4_t vcvtq_f32_u32(uint32x4_t a) { return neonemu::each<float32x4_t>([&](int i) { return (float)a[i]; }); }
NEON_FN uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t b) { return neonemu::each<uint32x4_t>([&](int i) { return neonemu::ushl(a[i], b[i]); }); }
NEON_FN uint32x4_t vshrq_n_u32(uint32x4_t a, int n) { return neonemu::each<uint32x4_t>([&](int i) { return n >= 32 ? 0u : a[i] >> n; }); }
NEON_FN uint32x4_t vshlq_n_u32(uint32x4_t a, int n) { return neonemu::each<uint32x4_t>([&](int i) { return (unsigned)((uint32_t)a[i] << (n & 31)); }); }
NEON_FN unsigned vaddvq_u32(uint32x4_t a) { return (unsigned)((uint32_t)a[0] + (uint32_t)a[1] + (uint32_t)a[2] + (uint32_t)a[3]); }
NEON_FN unsigned vminvq_u32(uint32x4_t a) { unsigned r = a[0]; for (int i = 1; i < 4; i++) if (a[i] < r) r = a[i]; return r; }
NEON_FN unsigned vmaxvq_u32(uint32x4_t a) { unsigned r = a[0]; for (int i = 1; i < 4; i++) if (a[i] > r) r = a[i]; return r; }
#undef NEON_FN

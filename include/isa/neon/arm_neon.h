// ARM NEON intrinsics as the ARM C Language Extensions define them, written as lane-wise C++: the library's NEON
// classes are analysed on top of this instead of the compiler's header (no ARM C++ library is installed).
#ifndef VF_ARM_NEON_H
#define VF_ARM_NEON_H
#include <cstring>
#include <string>
#include <iostream>
#include "../common.h"
#undef __LP64__   // 32-bit ARM
#define register
typedef float float32x4_t __attribute__((vector_size(16)));
typedef int int32x4_t __attribute__((vector_size(16)));
typedef unsigned uint32x4_t __attribute__((vector_size(16)));
typedef float float32_t;
#define VF_LANES(R, E) { R r = {}; for (int i = 0; i < 4; ++i) r[i] = E; return r; }
VF_INL float32x4_t vdupq_n_f32(float x) { return (float32x4_t){x, x, x, x}; }
VF_INL uint32x4_t vdupq_n_u32(unsigned x) { return (uint32x4_t){x, x, x, x}; }
VF_INL float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
VF_INL float32x4_t vld1q_f32(const float *p) { float32x4_t r; __builtin_memcpy(&r, p, 16); return r; }
VF_INL void vst1q_f32(float *p, float32x4_t v) { __builtin_memcpy(p, &v, 16); }
VF_INL uint32x4_t vld1q_u32(const unsigned *p) { uint32x4_t r; __builtin_memcpy(&r, p, 16); return r; }
VF_INL void vst1q_u32(unsigned *p, uint32x4_t v) { __builtin_memcpy(p, &v, 16); }
VF_INL float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
VF_INL float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
VF_INL float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
VF_INL float32x4_t vnegq_f32(float32x4_t a) { return -a; }
VF_INL float32x4_t vabsq_f32(float32x4_t a) VF_LANES(float32x4_t, __builtin_fabsf(a[i]))
VF_INL float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
VF_INL float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
VF_INL float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) VF_LANES(float32x4_t, a[i] > b[i] ? a[i] : b[i])
VF_INL float32x4_t vminq_f32(float32x4_t a, float32x4_t b) VF_LANES(float32x4_t, a[i] < b[i] ? a[i] : b[i])
// estimates, and the steps of Newton's method that refine them
VF_INL float32x4_t vrecpeq_f32(float32x4_t a) VF_LANES(float32x4_t, vfx_rcp8f(a[i]))
VF_INL float32x4_t vrsqrteq_f32(float32x4_t a) VF_LANES(float32x4_t, vfx_rsqrt8f(a[i]))
VF_INL float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { return 2.0f - a * b; }
VF_INL float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { return (3.0f - a * b) * 0.5f; }
VF_INL float32x4_t vsqrtq_f32(float32x4_t a) VF_LANES(float32x4_t, __builtin_sqrtf(a[i]))
VF_INL float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
// comparisons: all bits of a lane set where the relation holds; vca* compare magnitudes
VF_INL uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
VF_INL uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
VF_INL uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
VF_INL uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
VF_INL uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
VF_INL uint32x4_t vcaleq_f32(float32x4_t a, float32x4_t b) { return vcleq_f32(vabsq_f32(a), vabsq_f32(b)); }
VF_INL uint32x4_t vcaltq_f32(float32x4_t a, float32x4_t b) { return vcltq_f32(vabsq_f32(a), vabsq_f32(b)); }
VF_INL uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(vabsq_f32(a), vabsq_f32(b)); }
VF_INL uint32x4_t vcageq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(vabsq_f32(a), vabsq_f32(b)); }
VF_INL uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { return (uint32x4_t)(a == b); }
VF_INL uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VF_INL uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VF_INL uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VF_INL uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
VF_INL uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
VF_INL uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
VF_INL float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
VF_INL float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return (float32x4_t)((m & (uint32x4_t)a) | (~m & (uint32x4_t)b)); }
#define vgetq_lane_f32(V, I) ((V)[I])
#define vgetq_lane_u32(V, I) ((V)[I])
#define vsetq_lane_f32(X, V, I) ({ float32x4_t vf_v = (V); vf_v[I] = (X); vf_v; })
#endif

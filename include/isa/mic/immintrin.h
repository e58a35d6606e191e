// Intrinsics of the first generation of Intel MIC (KNC), written as lane-wise C++ after the instruction set reference.
#ifndef VF_MIC_H
#define VF_MIC_H
#include "../common.h"
typedef float __m512 __attribute__((vector_size(64), may_alias));
typedef double __m512d __attribute__((vector_size(64), may_alias));
typedef int __m512i __attribute__((vector_size(64), may_alias));
typedef int vf_i16 __attribute__((vector_size(64)));
#define VF_LANES(R, N, E) { R r = {}; for (int i = 0; i < N; ++i) r[i] = E; return r; }
VF_INL __m512 _mm512_set1_ps(float x) VF_LANES(__m512, 16, x)
VF_INL __m512d _mm512_set1_pd(double x) VF_LANES(__m512d, 8, x)
VF_INL __m512 _mm512_setzero_ps() { return (__m512){}; }
VF_INL __m512d _mm512_setzero_pd() { return (__m512d){}; }
#define VF_ARITH(S, T) \
    VF_INL T _mm512_add_##S(T a, T b) { return a + b; } VF_INL T _mm512_sub_##S(T a, T b) { return a - b; } \
    VF_INL T _mm512_mul_##S(T a, T b) { return a * b; } VF_INL T _mm512_div_##S(T a, T b) { return a / b; }
VF_ARITH(ps, __m512) VF_ARITH(pd, __m512d)
VF_INL __m512 _mm512_sqrt_ps(__m512 a) VF_LANES(__m512, 16, __builtin_sqrtf(a[i]))
VF_INL __m512d _mm512_sqrt_pd(__m512d a) VF_LANES(__m512d, 8, __builtin_sqrt(a[i]))
VF_INL __m512 _mm512_rcp23_ps(__m512 a) VF_LANES(__m512, 16, vfx_rcp22f(a[i]))
VF_INL __m512 _mm512_rsqrt23_ps(__m512 a) VF_LANES(__m512, 16, vfx_rsqrt22f(a[i]))
VF_INL __m512 _mm512_load_ps(const void *p) { return *(const __m512*)p; }
VF_INL __m512d _mm512_load_pd(const void *p) { return *(const __m512d*)p; }
VF_INL __m512i _mm512_load_epi32(const void *p) { return *(const __m512i*)p; }
VF_INL void _mm512_store_ps(void *p, __m512 v) { *(__m512*)p = v; }
VF_INL void _mm512_store_pd(void *p, __m512d v) { *(__m512d*)p = v; }
VF_INL void _mm512_storenr_ps(void *p, __m512 v) { *(__m512*)p = v; }
VF_INL void _mm512_storenr_pd(void *p, __m512d v) { *(__m512d*)p = v; }
// Unaligned accesses come in pairs: the low half covers the elements up to the end of the cache line of the address,
// the high half (address + 64) the elements from the start of the next line on. vf_split: elements before that border.
#ifdef VF_CONCRETE
#define VF_SPLIT(P, T) ((int)((64 - (unsigned long)(P) % 64) / sizeof(T)))
#else
extern "C" const int vf_split;
#define VF_SPLIT(P, T) vf_split
#endif
#define VF_UNALIGNED(S, V, T, N) \
    VF_INL V _mm512_loadunpacklo_##S(V v, const void *p) VF_LANES(V, N, i < VF_SPLIT(p, T) ? ((const T*)p)[i] : v[i]) \
    VF_INL V _mm512_loadunpackhi_##S(V v, const void *p) VF_LANES(V, N, i >= VF_SPLIT(p, T) ? ((const T*)p)[i - N] : v[i]) \
    VF_INL void _mm512_packstorelo_##S(void *p, V v) { for (int i = 0; i < N; ++i) if (i < VF_SPLIT(p, T)) ((T*)p)[i] = v[i]; } \
    VF_INL void _mm512_packstorehi_##S(void *p, V v) { for (int i = 0; i < N; ++i) if (i >= VF_SPLIT(p, T)) ((T*)p)[i - N] = v[i]; }
VF_UNALIGNED(ps, __m512, float, 16) VF_UNALIGNED(pd, __m512d, double, 8)
// used for lists of offsets only, which the library demands to be aligned: they do not cross a line
VF_INL __m512i _mm512_loadunpacklo_epi32(__m512i v, const void *p) VF_LANES(__m512i, 16, i < 8 ? ((const int*)p)[i] : v[i])
VF_INL __m512 _mm512_i32gather_ps(__m512i x, const void *p, int s) VF_LANES(__m512, 16, *(const float*)((const char*)p + (long)x[i] * s))
VF_INL void _mm512_i32scatter_ps(void *p, __m512i x, __m512 v, int s) { for (int i = 0; i < 16; ++i) *(float*)((char*)p + (long)x[i] * s) = v[i]; }
VF_INL __m512d _mm512_i32logather_pd(__m512i x, const void *p, int s) VF_LANES(__m512d, 8, *(const double*)((const char*)p + (long)x[i] * s))
VF_INL void _mm512_i32loscatter_pd(void *p, __m512i x, __m512d v, int s) { for (int i = 0; i < 8; ++i) *(double*)((char*)p + (long)x[i] * s) = v[i]; }
enum _MM_PERM_ENUM { _MM_PERM_BADC = 0x4e, _MM_PERM_DCBA = 0xe4, _MM_PERM_CDAB = 0xb1, _MM_PERM_ABCD = 0x1b };
VF_INL __m512i _mm512_permute4f128_epi32(__m512i a, int k) VF_LANES(__m512i, 16, a[4 * ((k >> (2 * (i / 4))) & 3) + i % 4])
#undef VF_LANES
#endif

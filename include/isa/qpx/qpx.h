// QPX builtins of the IBM XL compilers for Blue Gene/Q, written as lane-wise C++ (vec_ld and vec_st truncate their
// address to the vector's alignment: analysed for aligned addresses).
#ifndef VF_QPX_H
#define VF_QPX_H
#include "../common.h"
typedef double vector4double __attribute__((vector_size(32), may_alias));
#define VF_LANES(E) { vector4double r = {}; for (int i = 0; i < 4; ++i) r[i] = E; return r; }
VF_INL vector4double vec_splats(double x) { return (vector4double){x, x, x, x}; }
VF_INL vector4double vec_add(vector4double a, vector4double b) { return a + b; }
VF_INL vector4double vec_sub(vector4double a, vector4double b) { return a - b; }
VF_INL vector4double vec_mul(vector4double a, vector4double b) { return a * b; }
VF_INL vector4double vec_madd(vector4double a, vector4double b, vector4double c) { return a * b + c; }
VF_INL vector4double vec_swdiv(vector4double a, vector4double b) { return a / b; }
VF_INL vector4double vec_swdiv_nochk(vector4double a, vector4double b) { return a / b; }
VF_INL vector4double vec_swsqrt(vector4double a) VF_LANES(__builtin_sqrt(a[i]))
VF_INL vector4double vec_swsqrt_nochk(vector4double a) VF_LANES(__builtin_sqrt(a[i]))
VF_INL vector4double vec_rsqrte(vector4double a) VF_LANES(vfx_rsqrt14d(a[i]))
VF_INL vector4double vec_ld(long o, const double *p) { vector4double r; __builtin_memcpy(&r, (const char*)p + o, 32); return r; }
VF_INL void vec_st(vector4double v, long o, double *p) { __builtin_memcpy((char*)p + o, &v, 32); }
VF_INL vector4double vec_lda(long o, const double *p) { return *(const vector4double*)((const char*)p + o); }
VF_INL void vec_sta(vector4double v, long o, double *p) { *(vector4double*)((char*)p + o) = v; }
VF_INL vector4double vec_insert(double x, vector4double v, int i) { v[i & 3] = x; return v; }
VF_INL double vec_extract(vector4double v, int i) { return v[i & 3]; }
#undef VF_LANES
#endif

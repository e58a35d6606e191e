// Building blocks of the instruction set models: estimates are symbols the analysis knows the error bound of.
#ifndef VF_ISA_COMMON_H
#define VF_ISA_COMMON_H
#define VF_INL static inline __attribute__((always_inline))
#ifdef VF_CONCRETE
#include <cmath>
VF_INL float vfx_rcp8f(float x) { return 1 / x; }
VF_INL float vfx_rsqrt8f(float x) { return 1 / std::sqrt(x); }
VF_INL float vfx_rcp22f(float x) { return 1 / x; }
VF_INL float vfx_rsqrt22f(float x) { return 1 / std::sqrt(x); }
VF_INL double vfx_rsqrt14d(double x) { return 1 / std::sqrt(x); }
#else
extern "C" {
float vfx_rcp8f(float) noexcept __attribute__((const));
float vfx_rsqrt8f(float) noexcept __attribute__((const));
float vfx_rcp22f(float) noexcept __attribute__((const));
float vfx_rsqrt22f(float) noexcept __attribute__((const));
double vfx_rsqrt14d(double) noexcept __attribute__((const));
}
#endif
#endif

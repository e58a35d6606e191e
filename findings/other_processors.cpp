// Demonstrations of the defects repaired on processors other than x86, run on the models of their intrinsics
// (include/isa): exit 0 = behaves as specified.
//   I="-std=c++14 -DVF_CONCRETE -mno-avx -U__SSE__ -U__SSE2__ -U__SSE3__ -U__SSE4_1__ -I../include -I<tree>/include"
//   clang++ $I -D__ARM_NEON__=1 -I../include/isa/neon other_processors.cpp && ./a.out
//   clang++ $I -D__MIC__=1 -I../include/isa/mic other_processors.cpp && ./a.out
//   clang++ $I -D__VECTOR4DOUBLE__=1 -include ../include/isa/qpx/qpx.h other_processors.cpp && ./a.out
#include <libflatarray/short_vec.hpp>
#include <libflatarray/alignment.hpp>
#include <libflatarray/ilp_to_arity.hpp>
#include <iostream>
#include <sstream>
#include <cstdio>
using namespace LibFlatArray;
#define CHECK(C) do { if (!(C)) { std::printf("failed: %s\n", #C); return 1; } } while (0)
int main()
{
#ifdef __ARM_NEON__
    float a[] = {1, -3, 4, 0}, b[] = {2, 1, 4, 5};
    uint32x4_t e = short_vec<float, 4>(a) == short_vec<float, 4>(b), l = short_vec<float, 4>(a) <= short_vec<float, 4>(b);
    CHECK(!e[0] && !e[1] && e[2] && !e[3]);
    CHECK(l[0] && l[1] && l[2] && l[3]);
#elif defined(__MIC__)
    CHECK((alignment<short_vec<double, 8> >::VALUE) == 64);
    CHECK((ilp_to_arity<double, 2>::ARITY) == 16);
#else
    double d[32], r[32];
    for (int i = 0; i < 32; ++i) d[i] = i;
    short_vec<double, 4> x(3.0), y(2.0);
    x *= y;
    x.store(r);
    CHECK(r[0] == 6 && r[3] == 6);
    std::ostringstream s, t;
    s << short_vec<double, 32>(d);
    CHECK(s.str().find('[') == 0 && s.str().rfind('[') == 0);
    CHECK((ilp_to_arity<double, 2>::ARITY) == 8);
#endif
    // the models compute what they should
    float f[32], g[32], h[32];
    for (int i = 0; i < 32; ++i) { f[i] = i + 1; g[i] = 3 * i + 0.5f; }
    (short_vec<float, 32>(f) / short_vec<float, 32>(g)).store(h);
    for (int i = 0; i < 32; ++i) CHECK(h[i] > 0.999f * f[i] / g[i] && h[i] < 1.001f * f[i] / g[i]);
    short_vec<float, 32>(f).sqrt().store(h);
    for (int i = 0; i < 32; ++i) CHECK(h[i] * h[i] > 0.998f * f[i] && h[i] * h[i] < 1.002f * f[i]);
    return 0;
}

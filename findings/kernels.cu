#include <libflatarray/flat_array.hpp>
using namespace LibFlatArray;
struct C { double d; int a[2]; };
LIBFLATARRAY_REGISTER_SOA(C, ((double)(d))((int)(a)(2)))
__global__ void copies(soa_array<C, 7> *s, const soa_array<C, 5> *t) { soa_array<C, 7> a(*t); *s = a; s->load(a[0], 2); }

// Demonstrations of the defects repaired in the CUDA code, run on the model of its runtime; see cuda.sh
#include <libflatarray/flat_array.hpp>
#include <libflatarray/soa_vector.hpp>
#include <cstdio>
using namespace LibFlatArray;
struct C { double d; int a[2]; class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16), (8), (2)) }; };
LIBFLATARRAY_REGISTER_SOA(C, ((double)(d))((int)(a)(2)))
typedef soa_grid<C, cuda_allocator<char>, true> G;
#define CHECK(X) do { if (!(X)) { std::printf("failed: %s\n", #X); return 1; } } while (0)
int main(int argc, char **)
{
    C c = {3, {4, 5}}, e = {1, {1, 1}};
    G g(5, 2, 1);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 5; ++x) g.set(x, y, 0, e);
    if (argc == 1) {
        g.broadcast(1, 1, 0, c, 4);
        CHECK(g.get(0, 1, 0).d == 1);
        for (int i = 1; i < 5; ++i) CHECK(g.get(i, 1, 0).d == 3 && g.get(i, 1, 0).a[1] == 5);
        return 0;
    }
    if (argc == 3) {
        soa_vector<C, cuda_allocator<char>, true> v(3, c);
        v.push_back(e);
        v.resize(12);
        CHECK(v.get(2).d == 3 && v.get(2).a[1] == 5 && v.get(3).d == 1);
        return 0;
    }
    g.set(4, 1, 0, c);
    G h(g);
    CHECK(h.get(4, 1, 0).d == 3 && h.get(3, 1, 0).a[0] == 1);
    return 0;
}

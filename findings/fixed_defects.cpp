// Demonstrations of the defects repaired by the "fix:" commits: argv[1] selects one; exit 0 = behaves as specified.
// Some defects are rejected (or, for constelem, wrongly accepted) at compile time: add -DCASE_<name>.
//   g++ -std=c++14 -O1 -g -fsanitize=address -msse4.1 -I../include -I<tree>/include fixed_defects.cpp && ./a.out <name>
#include <libflatarray/flat_array.hpp>
#include <string>
#include <cstring>
#include <cstdio>
#include <vector>
#include <thread>
using namespace LibFlatArray;
struct Cell { int a; double b; Cell(int a = 0, double b = 0) : a(a), b(b) {} };
LIBFLATARRAY_REGISTER_SOA(Cell, ((int)(a))((double)(b)))
struct SCell { std::string s; int i; SCell(const std::string& s = "", int i = 0) : s(s), i(i) {} };
LIBFLATARRAY_REGISTER_SOA(SCell, ((std::string)(s))((int)(i)))
struct Quad { class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((2)(4)(8)(16)) }; int a; Quad(int a = 0) : a(a) {} };
LIBFLATARRAY_REGISTER_SOA(Quad, ((int)(a)))
struct Rows { int a; double b; class API : public api_traits::has_custom_sizes { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16), (8), (2)) }; };
LIBFLATARRAY_REGISTER_SOA(Rows, ((int)(a))((double)(b)))
#define CHECK(C) do { if (!(C)) { std::printf("failed: %s\n", #C); return 1; } } while (0)
template<class SV> void body(int& x, int end, std::vector<int> *hits) { for (; x < end; x += SV::ARITY) for (int k = 0; k < SV::ARITY; ++k) (*hits)[x + k]++; }
struct Cnt { static int n; Cnt() { ++n; } Cnt(const Cnt&) { ++n; } ~Cnt() { --n; } };
int Cnt::n;
struct CCell { Cnt c; };
LIBFLATARRAY_REGISTER_SOA(CCell, ((Cnt)(c)))
struct Pair { template<class A, class B> void operator()(A&, B&) const {} };
struct ACell { int i; int arr[4]; };
LIBFLATARRAY_REGISTER_SOA(ACell, ((int)(i))((int)(arr)(4)))
#ifdef CASE_vecbool
#define VECBOOL std::vector<bool, aligned_allocator<bool, 64> > v(100, true); CHECK(v[99]);
#else
#define VECBOOL
#endif
#ifdef CASE_constcoord
struct ConstCoord { template<class A> void operator()(A& acc) const { const A& c = acc; *ok = &c[coord<1, 0, 0>()].a() == &acc.a() + 1; } bool *ok; };
#define CONSTCOORD soa_grid<Cell> g(5, 6, 7); bool ok = false; ConstCoord f = {&ok}; g.callback(f); CHECK(ok);
#else
#define CONSTCOORD
#endif
#ifdef CASE_selconst
struct Nop { template<class A> void operator()(const A&) const {} };
#define SELCONST soa_grid<Cell> g(5, 6, 7); const char *d = g.data(); Nop f; api_traits::select_sizes<Cell>()(d, f, 5, 6, 7);
#else
#define SELCONST
#endif
#ifdef CASE_cellname
struct NCell { double cell; int count[2]; };
LIBFLATARRAY_REGISTER_SOA(NCell, ((double)(cell))((int)(count)(2)))
#define CELLNAME soa_array<NCell, 4> a; NCell c = {1.5, {2, 3}}; a << c; NCell d = a[0]; CHECK(d.cell == 1.5 && d.count[1] == 3);
#else
#define CELLNAME
#endif
template<class A> auto writable(const A& a, int) -> decltype(a.arr()[0] = 1, true) { return true; }
template<class A> bool writable(const A&, long) { return false; }
int main(int argc, char **argv) {
    std::string n = argv[1];
    if (n == "swap") { soa_grid<Cell> a(5, 6, 7), b(8, 9, 10); a.swap(b); CHECK(a.dim_y() == 9 && a.dim_z() == 10 && b.dim_y() == 6 && b.extent_z() == 32); }
    if (n == "diveq") { short_vec<int, 4> a(7), b(2); short_vec<int, 4> c = a / b; a /= b; int x[4], y[4]; a.store(x); c.store(y); CHECK(x[0] == y[0] && x[0] == 3); }
    if (n == "gather") { std::vector<float> v(64); for (int i = 0; i < 64; ++i) v[i] = i; int o[4] = {-1, -2, 3, -4}; short_vec<float, 4> s; s.gather(&v[32], o); float r[4]; s.store(r); CHECK(r[0] == 31 && r[3] == 28); }
    if (n == "peeler") { std::vector<int> hits(32); int x = 5; typedef short_vec<float, 8> SV8; LIBFLATARRAY_LOOP_PEELER(SV8, int, x, 6, body, &hits); for (int i = 0; i < 32; ++i) CHECK(hits[i] == (i == 5)); }
    if (n == "peelerf") { std::vector<int> hits(32); int x = 5; loop_peeler<short_vec<float, 8> >(&x, 6, [&](auto v, int *x, int end) { typedef decltype(v) SV; body<SV>(*x, end, &hits); }); for (int i = 0; i < 32; ++i) CHECK(hits[i] == (i == 5)); }
    if (n == "arrayctor") { try { soa_array<Cell, 4> a(9); return 1; } catch (const std::out_of_range&) {} }
    if (n == "arraycopy") { soa_array<SCell, 4> a; a << SCell(std::string(100, 'x'), 1); const soa_array<SCell, 4>& c = a; soa_array<SCell, 4> b(c); b = c; CHECK(b[0].s() == std::string(100, 'x')); }
    if (n == "reserve") { soa_vector<Cell> v; for (int i = 0; i < 1000; ++i) v.push_back(Cell(i)); v.reserve(2); for (int i = 0; i < 1000; ++i) CHECK(v.get(i).a == i); }
    if (n == "pushback") { soa_vector<Cell> v; v.push_back(Cell(17)); soa_vector<Cell> w(v); CHECK(w.get(0).a == 17); soa_vector<SCell> s; s.push_back(SCell(std::string(100, 'y'))); CHECK(s.get(0).s.size() == 100); }
    if (n == "pushsmall") { soa_vector<Quad> v; for (int i = 0; i < 8; ++i) v.push_back(Quad(i)); for (int i = 0; i < 8; ++i) CHECK(v.get(i).a == i); }
    if (n == "copyextent") { soa_grid<Cell> a(5, 6, 7); soa_grid<Cell> b(a); CHECK(b.extent_x() == 32 && b.extent_y() == 32 && b.extent_z() == 32); soa_grid<Cell> e; CHECK(e.byte_size() == 0 && e.extent_x() == 0); }
    if (n == "empty") { soa_grid<Cell> e, a(5, 6, 7); a = e; CHECK(a.dim_x() == 0); soa_grid<Cell> c(e); CHECK(c.dim_x() == 0); }
    if (n == "badresize") { soa_grid<Cell> a(5, 6, 7); a.set(1, 2, 3, Cell(4)); try { a.resize(5000, 5000, 5000); return 1; } catch (const std::out_of_range&) {} CHECK(a.dim_x() == 5 && a.get(1, 2, 3).a == 4); }
    if (n == "constget") { soa_grid<Cell> a(5, 6, 7); char before[sizeof(a)]; std::memcpy(before, (void*)&a, sizeof(a)); const soa_grid<Cell>& c = a; Cell x = c.get(0, 0, 0); (void)x; CHECK(!std::memcmp(before, (void*)&a, sizeof(a))); }
    if (n == "anyalloc") {
        typedef aligned_allocator<char, 64> A64; soa_vector<Cell, A64> v; for (int i = 0; i < 100; ++i) v.push_back(Cell(i)); CHECK(v.get(77).a == 77);
        soa_grid<Cell, A64> g(5, 6, 7), h; g.set(1, 2, 3, Cell(9)); h = g; soa_grid<Cell, A64> k(h); swap(k, h); CHECK(k.get(1, 2, 3).a == 9); soa_grid<Cell> d(5, 6, 7); g.callback(&d, Pair()); }
    if (n == "arrayleak") { int before = Cnt::n; { soa_array<CCell, 5> a(4); int held = Cnt::n; try { soa_array<CCell, 3> b(a); return 1; } catch (const std::out_of_range&) {} CHECK(Cnt::n == held); } CHECK(Cnt::n == before); }
    if (n == "arrayswap") { soa_array<SCell, 4> a, b; a << SCell("ab", 1); b << SCell("c", 2); swap(a, b); CHECK(a[0].s() == "c" && b[0].s() == "ab"); CHECK(a[0].s().data() >= (char*)&a && a[0].s().data() < (char*)(&a + 1)); }
    if (n == "allocsmall") { aligned_allocator<char, 1> a; for (int i = 0; i < 64; ++i) { char *p = a.allocate(i); std::memset(p, 1, i); a.deallocate(p, i); } }
    if (n == "vecrows") { soa_vector<Rows> v(2); Rows r = {1, 2}; v.set(1, r); v.reserve(9); CHECK(v.get(1).a == 1 && v.get(1).b == 2); }
    if (n == "vecbool") { VECBOOL }
    if (n == "constcoord") { CONSTCOORD }
    if (n == "selconst") { SELCONST }
    if (n == "constelem") { ACell c; std::vector<char> d(aggregated_member_size<ACell>::VALUE * 32); const_soa_accessor<ACell, 32, 1, 1, 0> a(&d[0], 0); (void)c; CHECK(!writable(a, 0)); }
    if (n == "peelname") { std::vector<int> hits(64); int remainder = 5; typedef short_vec<float, 8> SV8; LIBFLATARRAY_LOOP_PEELER(SV8, int, remainder, 30, body, &hits); for (int i = 0; i < 64; ++i) CHECK(hits[i] == (i >= 5 && i < 30)); }
    if (n == "cellname") { CELLNAME }
    return 0;
}

// Shared declarations of the probe/specification pairs.
//   p_<name>  a use of the library           r_<name>  its specification, as plain code
//   o_<name>  options for the comparison     r2_<name> a permitted alternative
#ifndef VF_HPP
#define VF_HPP
#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <utility>
#include <algorithm>
typedef std::size_t szt;
#define VF_OPT(NAME, OPTS) extern "C" { extern const char o_##NAME[]; const char o_##NAME[] = OPTS; }
#define P(NAME) p_##NAME
#define R(NAME) r_##NAME
#define R2(NAME) r2_##NAME
#define ASSUME(C) __builtin_assume(C)
extern "C" {
    // observation points: external functions whose calls (with arguments) are part of the summary
    void ev_ctor(void*, int) noexcept;
    void ev_copyctor(void*, const void*) noexcept;
    void ev_dtor(void*) noexcept;
    void ev_use(const void*) noexcept;
    void ev_assign(void*, const void*) noexcept;
    char *ev_alloc(szt n) noexcept;              // fresh storage of n bytes
    void ev_free(void *p, szt n) noexcept;
    int ev_fail(szt n) noexcept;                 // does the next request of n bytes fail? (either answer is explored)
    void ev_throw_point(int);                    // may throw
    void ev_val(long) noexcept;
    void ev_val2(long, long) noexcept;
    void ev_val3(long, long, long) noexcept;
    void ev_ptr(const void*, long) noexcept;
    void ev_seq_val(long) noexcept;
}
// allocator recording what is requested and released
template<class T> struct rec_alloc {
    T *allocate(szt n) { return reinterpret_cast<T*>(ev_alloc(n * sizeof(T))); }
    void deallocate(T *p, szt n) { ev_free(p, n * sizeof(T)); }
};
// member type whose life cycle is observable
struct Obs {
    int v;
    Obs() { ev_ctor(this, 0); }
    Obs(const Obs& o) : v(o.v) { ev_copyctor(this, &o); }
    ~Obs() { ev_dtor(this); }
    Obs& operator=(const Obs& o) { v = o.v; ev_assign(this, &o); return *this; }
};
#endif

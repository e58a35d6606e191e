// The part of the CUDA runtime the library uses, as plain C++: device memory is storage of its own that only kernels and
// transfers may touch (the analysis reports everything else), a launch runs every thread of every block.
// Kernel launches  k<<<grid, block>>>(args)  arrive here as  ::vf_launch(grid, block, ...)(args)  (see vf.py).
#ifndef VF_CUDA_H
#define VF_CUDA_H
#include <cstddef>
#include <cstring>
#define __global__
#define __host__
#define __device__
#define __forceinline__ inline
struct uint3 { unsigned x, y, z; };
struct dim3 {
    unsigned x, y, z;
    constexpr dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
};
static dim3 vf_cu_grid, vf_cu_block;
static uint3 vf_cu_block_index, vf_cu_thread_index;
#define gridDim vf_cu_grid
#define blockDim vf_cu_block
#define blockIdx vf_cu_block_index
#define threadIdx vf_cu_thread_index
#ifdef VF_CONCRETE
#include <cstdlib>
#include <map>
#include <sys/mman.h>
// pages of their own, out of the host's reach
static std::map<char*, std::size_t> vf_device_storage;
static inline char *ev_alloc(std::size_t n) { n = (n + 4095) & ~4095ul; char *p = (char*)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); vf_device_storage[p] = n; return p; }
static inline void ev_free(void *p, std::size_t) { if (!vf_device_storage.count((char*)p)) std::abort(); munmap(p, vf_device_storage[(char*)p]); vf_device_storage.erase((char*)p); }
static inline void vf_device_mode(int m) { for (auto& i : vf_device_storage) mprotect(i.first, i.second, m ? PROT_READ | PROT_WRITE : PROT_NONE); }
static inline void ev_val(long) { std::abort(); }
static inline void vf_thread(int) {}
#define VF_RIGHT_WAY(D, S, K) true
#else
extern "C" {
char *ev_alloc(std::size_t n) noexcept;
void ev_free(void *p, std::size_t n) noexcept;
void ev_val(long) noexcept;
void vf_device_mode(int) noexcept;
void vf_thread(int) noexcept;
int vf_is_device(const void*) noexcept;
}
#define VF_RIGHT_WAY(D, S, K) ((K) == cudaMemcpyDefault || (K) == (vf_is_device(D) ? vf_is_device(S) ? cudaMemcpyDeviceToDevice : cudaMemcpyHostToDevice : vf_is_device(S) ? cudaMemcpyDeviceToHost : cudaMemcpyHostToHost))
#endif
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
template<class T> inline cudaError_t cudaMalloc(T **p, std::size_t n) { *p = n ? reinterpret_cast<T*>(ev_alloc(n)) : 0; return cudaSuccess; }
template<class T> inline cudaError_t cudaFree(T *p) { if (p) ev_free((void*)p, ~std::size_t(0)); return cudaSuccess; }
inline cudaError_t cudaMemcpy(void *d, const void *s, std::size_t n, cudaMemcpyKind k)
{
    if (n) {
        if (!VF_RIGHT_WAY(d, s, k)) ev_val(-77);     // names the wrong direction: refused, or worse
        vf_device_mode(2);
        std::memcpy(d, s, n);
        vf_device_mode(0);
    }
    return cudaSuccess;
}
inline cudaError_t cudaMemset(void *d, int v, std::size_t n)
{
    if (n) {
        vf_device_mode(1);
        std::memset(d, v, n);
        vf_device_mode(0);
    }
    return cudaSuccess;
}
inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
template<class F> struct vf_launcher {
    dim3 g, b;
    F f;
    template<class... A> void operator()(A... a) const
    {
        // an empty launch is an error without consequences, a block larger than any device permits runs nothing
        if (!g.x || !g.y || !g.z || !b.x || !b.y || !b.z) return;
        if (b.x * b.y * b.z > 1024 || b.z > 64 || g.y > 65535 || g.z > 65535) return;
        vf_cu_grid = g;
        vf_cu_block = b;
        vf_device_mode(1);
        int t = 0;
        for (unsigned bz = 0; bz < g.z; ++bz) for (unsigned by = 0; by < g.y; ++by) for (unsigned bx = 0; bx < g.x; ++bx)
            for (unsigned z = 0; z < b.z; ++z) for (unsigned y = 0; y < b.y; ++y) for (unsigned x = 0; x < b.x; ++x) {
                vf_cu_block_index.x = bx; vf_cu_block_index.y = by; vf_cu_block_index.z = bz;
                vf_cu_thread_index.x = x; vf_cu_thread_index.y = y; vf_cu_thread_index.z = z;
                vf_thread(t++);
                f(a...);
            }
        vf_thread(-1);
        vf_device_mode(0);
    }
};
template<class F> inline vf_launcher<F> vf_launch(dim3 g, dim3 b, F f) { return vf_launcher<F>{g, b, f}; }
#endif

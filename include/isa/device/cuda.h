// Declarations of the CUDA language for clang's own CUDA front end: what a CUDA installation's headers
// declare and the library uses. Nothing here is defined; programs that include it are only type checked.
#ifndef VF_DEVICE_CUDA_H
#define VF_DEVICE_CUDA_H
#include <stddef.h>
#include <stdlib.h>
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __shared__ __attribute__((shared))
#define __constant__ __attribute__((constant))
struct dim3 { unsigned x, y, z; __host__ __device__ constexpr dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {} };
typedef struct CUstream_st *cudaStream_t;
enum cudaError_t { cudaSuccess };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
extern "C" {
cudaError_t cudaConfigureCall(dim3, dim3, size_t = 0, cudaStream_t = 0);
unsigned __cudaPushCallConfiguration(dim3, dim3, size_t = 0, cudaStream_t = 0);
cudaError_t cudaLaunchKernel(const void *, dim3, dim3, void **, size_t, cudaStream_t);
cudaError_t cudaMalloc(void **, size_t);
cudaError_t cudaFree(void *);
cudaError_t cudaMemcpy(void *, const void *, size_t, cudaMemcpyKind);
cudaError_t cudaMemset(void *, int, size_t);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
const char *cudaGetErrorString(cudaError_t);
// callable in kernels as well
__device__ void *malloc(size_t) noexcept;
__device__ void free(void *) noexcept;
__device__ int printf(const char *, ...);
__device__ void *memcpy(void *, const void *, size_t) noexcept;
__device__ void *memset(void *, int, size_t) noexcept;
}
template<class T> cudaError_t cudaMalloc(T **p, size_t n) { return cudaMalloc((void**)(void*)p, n); }
struct vf_index { unsigned x, y, z; };
extern __device__ const vf_index threadIdx, blockIdx, blockDim, gridDim;
__device__ void __syncthreads();
#endif

// Declarations of the CUDA language and runtime that the device path of /repo relies on (no toolkit is installed).
#pragma once
#include <cstddef>
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __constant__ __attribute__((constant))
#define __shared__ __attribute__((shared))
#define __forceinline__ __inline__ __attribute__((always_inline))
#define __noinline__ __attribute__((noinline))
#ifdef DEVICE_ON_HOST
// the device branches of the sources, built for the host so that they can be run
#define __CUDA_ARCH__ 700
inline __host__ __device__ __attribute__((noreturn)) void __trap() { __builtin_trap(); }
#elif defined(__CUDA_ARCH__)
extern "C" __device__ __attribute__((noreturn)) void __trap();
extern "C" __device__ int printf( char const *, ... );
extern "C" __device__ int puts( char const * );
extern "C" __device__ int putchar( int );
#endif
#include "libdevice.h"
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorNoDevice = 100, cudaErrorInvalidDevice = 101, cudaErrorNoKernelImageForDevice = 209, cudaErrorNotReady = 600, cudaErrorIllegalAddress = 700, cudaErrorLaunchFailure = 719, cudaErrorAssert = 710, cudaErrorUnknown = 999 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
struct dim3 { unsigned x, y, z; constexpr dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
typedef struct CUstream_st * cudaStream_t;
extern "C" {
cudaError_t cudaMalloc( void **, size_t );
cudaError_t cudaMallocManaged( void **, size_t, unsigned = 1 );
cudaError_t cudaMemcpy( void *, void const *, size_t, cudaMemcpyKind );
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaStreamSynchronize( cudaStream_t );
cudaError_t cudaMemset( void *, int, size_t );
cudaError_t cudaMemcpyAsync( void *, void const *, size_t, cudaMemcpyKind, cudaStream_t = 0 );
char const * cudaGetErrorName( cudaError_t );
cudaError_t cudaPeekAtLastError();
cudaError_t cudaFree( void * );
char const * cudaGetErrorString( cudaError_t );
unsigned __cudaPushCallConfiguration( dim3, dim3, size_t = 0, cudaStream_t = 0 );
cudaError_t cudaLaunchKernel( void const *, dim3, dim3, void **, size_t, cudaStream_t );
}
template< typename T > inline cudaError_t cudaMalloc( T * * p, size_t n ) { return cudaMalloc( reinterpret_cast< void * * >( p ), n ); }
template< typename T > inline cudaError_t cudaMallocManaged( T * * p, size_t n ) { return cudaMallocManaged( reinterpret_cast< void * * >( p ), n ); }

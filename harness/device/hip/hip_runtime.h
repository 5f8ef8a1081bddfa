// Declarations of the HIP language and runtime that the device path of /repo relies on (no toolkit is installed).
#pragma once
#include <cstddef>
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __constant__ __attribute__((constant))
#define __shared__ __attribute__((shared))
#define __forceinline__ __inline__ __attribute__((always_inline))
#define __noinline__ __attribute__((noinline))
#ifdef DEVICE_ON_HOST
// the device branches of the sources, built for the host so that they can be run
#define __HIP_DEVICE_COMPILE__ 1
#elif defined(__HIP_DEVICE_COMPILE__)
extern "C" __device__ int printf( char const *, ... );
#endif
#include "../libdevice.h"
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorOutOfMemory = 2, hipErrorInvalidConfiguration = 9, hipErrorNoDevice = 100, hipErrorInvalidDevice = 101, hipErrorNoBinaryForGpu = 209, hipErrorNotReady = 600, hipErrorIllegalAddress = 700, hipErrorLaunchFailure = 719, hipErrorAssert = 710, hipErrorUnknown = 999 };
enum hipMemcpyKind { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
struct dim3 { unsigned x, y, z; constexpr dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
typedef struct ihipStream_t * hipStream_t;
extern "C" {
hipError_t hipMalloc( void **, size_t );
hipError_t hipMallocManaged( void **, size_t, unsigned = 1 );
hipError_t hipMemcpy( void *, void const *, size_t, hipMemcpyKind );
hipError_t hipDeviceSynchronize();
hipError_t hipGetLastError();
hipError_t hipStreamSynchronize( hipStream_t );
hipError_t hipMemset( void *, int, size_t );
hipError_t hipMemcpyAsync( void *, void const *, size_t, hipMemcpyKind, hipStream_t = 0 );
char const * hipGetErrorName( hipError_t );
hipError_t hipPeekAtLastError();
hipError_t hipFree( void * );
char const * hipGetErrorString( hipError_t );
unsigned __hipPushCallConfiguration( dim3, dim3, size_t = 0, hipStream_t = 0 );
hipError_t hipLaunchKernel( void const *, dim3, dim3, void **, size_t, hipStream_t );
}
template< typename T > inline hipError_t hipMalloc( T * * p, size_t n ) { return hipMalloc( reinterpret_cast< void * * >( p ), n ); }
template< typename T > inline hipError_t hipMallocManaged( T * * p, size_t n ) { return hipMallocManaged( reinterpret_cast< void * * >( p ), n ); }

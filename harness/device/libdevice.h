// what the device libraries of the toolkits provide of the C library
#pragma once
#if defined(__CUDA_ARCH__) && !defined(DEVICE_ON_HOST) || defined(__HIP_DEVICE_COMPILE__) && !defined(DEVICE_ON_HOST)
extern "C" {
__device__ double fabs( double );
__device__ float fabsf( float );
__device__ double sqrt( double );
__device__ float sqrtf( float );
__device__ double floor( double );
__device__ float floorf( float );
__device__ double ceil( double );
__device__ float ceilf( float );
__device__ double trunc( double );
__device__ float truncf( float );
__device__ double round( double );
__device__ float roundf( float );
__device__ double exp( double );
__device__ float expf( float );
__device__ double log( double );
__device__ float logf( float );
__device__ double sin( double );
__device__ float sinf( float );
__device__ double cos( double );
__device__ float cosf( float );
__device__ double tan( double );
__device__ float tanf( float );
__device__ double cbrt( double );
__device__ float cbrtf( float );
__device__ double pow( double, double );
__device__ float powf( float, float );
__device__ double fmin( double, double );
__device__ float fminf( float, float );
__device__ double fmax( double, double );
__device__ float fmaxf( float, float );
__device__ double fmod( double, double );
__device__ float fmodf( float, float );
__device__ double copysign( double, double );
__device__ float copysignf( float, float );
__device__ double fma( double, double, double );
__device__ float fmaf( float, float, float );
__device__ int abs( int );
__device__ void * memcpy( void *, void const *, size_t );
__device__ void * memmove( void *, void const *, size_t );
__device__ void * memset( void *, int, size_t );
__device__ __attribute__((noreturn)) void __assert_fail( char const *, char const *, unsigned, char const * );
}
#endif

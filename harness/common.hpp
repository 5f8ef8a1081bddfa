// Harness conventions: every X function is a thin extern "C" door to the public API of /repo.
// The same file is lowered to LLVM IR for the solver and built natively for replay.
#pragma once
#include <cstddef>
#if ( defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__) ) && !defined(DEVICE_ON_HOST)
#define STORE __device__ static
#else
#define STORE static
#endif
#define X extern "C" __attribute__((noinline, used, visibility("default")))

#ifdef NATIVE_HARNESS
extern "C" {
int native_event_count = 0;
long long native_events[10 * 65536];
}
static inline void native_ev(int id, int n, long long a, long long b = 0, long long c = 0, long long d = 0, long long e = 0, long long f = 0, long long g = 0, long long h = 0)
{
  if (native_event_count >= 65536) { __builtin_trap(); }
  long long *r = native_events + 10 * native_event_count++;
  r[0] = id; r[1] = n; r[2] = a; r[3] = b; r[4] = c; r[5] = d; r[6] = e; r[7] = f; r[8] = g; r[9] = h;
}
extern "C" {
inline void cb_e1(int a) { native_ev(1, 1, a); }
inline void cb_e2(int a, int b) { native_ev(2, 2, a, b); }
inline void cb_e3(int a, int b, int c) { native_ev(3, 3, a, b, c); }
inline void cb_e4(int a, int b, int c, int d) { native_ev(4, 4, a, b, c, d); }
inline void cb_e5(int a, int b, int c, int d, int e) { native_ev(5, 5, a, b, c, d, e); }
inline void cb_e6(int a, int b, int c, int d, int e, int f) { native_ev(6, 6, a, b, c, d, e, f); }
inline void cb_e7(int a, int b, int c, int d, int e, int f, int g) { native_ev(7, 7, a, b, c, d, e, f, g); }
inline void cb_e8(int a, int b, int c, int d, int e, int f, int g, int h) { native_ev(8, 8, a, b, c, d, e, f, g, h); }
}
#else
extern "C" {
void cb_e1(int);
void cb_e2(int, int);
void cb_e3(int, int, int);
void cb_e4(int, int, int, int);
void cb_e5(int, int, int, int, int);
void cb_e6(int, int, int, int, int, int);
void cb_e7(int, int, int, int, int, int, int);
void cb_e8(int, int, int, int, int, int, int, int);
}
#endif

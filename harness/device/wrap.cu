// A harness compiled as CUDA or HIP code: the library's headers as they are, the harness itself callable on the device.
#ifdef __HIP__
#include <hip/hip_runtime.h>
#else
#include "cuda_runtime.h"
#endif
#include <cmath>
#include <limits>
#include <utility>
#include <array>
#include <tuple>
#include <type_traits>
#include HEADERS
#ifdef HOST_PASS
#include HARNESS
#else
#pragma clang force_cuda_host_device begin
#include HARNESS
#pragma clang force_cuda_host_device end
#endif

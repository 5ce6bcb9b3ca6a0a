// The kernels transposing needs; the others want libraries that are not here.
#pragma once
#include "mllm/backends/cpu/kernels/x86/transpose.hpp"
#include "mllm/backends/cpu/kernels/common/permute-inl.hpp"

// What the tokenizers use of it; the real one does not build here.
#pragma once
#include <string>
#include <unordered_map>
#include <vector>
#include "mllm/core/Tensor.hpp"
namespace mllm::models {
using ARGenerationOutputPast = std::unordered_map<std::string, Tensor>;
}

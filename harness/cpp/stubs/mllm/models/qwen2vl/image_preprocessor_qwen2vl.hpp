// What the tokenizer names of it; the real one needs image libraries that are not here.
#pragma once
#include <algorithm>
#include <string>
#include <utility>
#include "mllm/core/Tensor.hpp"
namespace mllm::models::qwen2vl {
struct Qwen2VLImagePreprocessor {
  Qwen2VLImagePreprocessor(int, int) {}
  std::pair<Tensor, Tensor> operator()(const std::string&) { return {Tensor(), Tensor()}; }
};
}  // namespace mllm::models::qwen2vl

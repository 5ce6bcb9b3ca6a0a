// What the tokenizer names of it; the real one needs image libraries that are not here.
#pragma once
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
namespace mllm::models::minicpmo {
struct MiniCPMOImageProcessor {
  using pairs = std::vector<std::pair<int, int>>;
  explicit MiniCPMOImageProcessor(int) {}
  std::tuple<std::vector<Tensor>, pairs, pairs, std::vector<int>> process(const std::string&) { return {}; }
  std::string get_slice_image_placeholder(std::pair<int, int>, const std::vector<int>&, size_t) { return ""; }
  std::pair<std::vector<int64_t>, pairs> calc_bounds(std::vector<int64_t>&, preprocessor::BPE&) { return {}; }
};
}  // namespace mllm::models::minicpmo

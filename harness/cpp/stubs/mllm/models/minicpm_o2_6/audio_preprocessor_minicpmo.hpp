// What the tokenizer names of it; the real one does not build here.
#pragma once
#include <string>
#include <utility>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/preprocessor/audio/Audio.hpp"
namespace mllm::models::minicpmo {
struct MiniCPMOAudioProcessor {
  MiniCPMOAudioProcessor(int, int, int) {}
  Tensor processAudioData(const float*, int) { return Tensor(); }
  std::string getAudioPlaceholder(int, bool) { return ""; }
  std::vector<std::pair<int, int>> calcAudioBounds(std::vector<int64_t>&, int64_t, int64_t) { return {}; }
};
}  // namespace mllm::models::minicpmo

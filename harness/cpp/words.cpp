// Driver for the word patterns of the tokenizers.
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/qwen_npu/tokenization_qwen.hpp"
#include "mllm/models/smollm3_3B/tokenization_smollm3.hpp"
#include "mllm/models/deepseek_ocr/tokenization_deepseek_ocr.hpp"
#ifdef MORE
#include "mllm/models/qwen_ascend/tokenization_qwen_ascend.hpp"
#include "mllm/models/qwen2vl/tokenization_qwen2vl.hpp"
#include "mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp"
#endif

using namespace mllm;
using namespace mllm::preprocessor;
using nlohmann::json;

int main() {
  std::string line;
  std::map<std::string, std::shared_ptr<AutoTokenizer>> wide;
  std::map<std::string, std::shared_ptr<AutoTokenizerUTF8>> narrow;
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o;
    std::string op = q["op"];
    if (op == "open") {
      std::string f = q["file"], m = q["merges"];
      wide.clear(), narrow.clear();
      wide["qwen3"] = std::make_shared<models::qwen3::Qwen3Tokenizer>(f);
      wide["qwen3_moe"] = std::make_shared<models::qwen3_moe::Qwen3Tokenizer>(f);
      wide["qwen_npu"] = std::make_shared<models::qwen_npu::QwenTokenizer>(f, m);
      narrow["smollm3"] = std::make_shared<models::smollm3::SmolLM3Tokenizer>(f);
      narrow["deepseek_ocr"] = std::make_shared<models::deepseek_ocr::DpskOcrTokenizer>(f);
#ifdef MORE
      wide["qwen_ascend"] = std::make_shared<models::qwen_ascend::QwenAscendTokenizer>(f);
      wide["qwen2vl"] = std::make_shared<models::qwen2vl::Qwen2VLTokenizer>(f);
      wide["minicpmo"] = std::make_shared<models::minicpmo::MiniCPMOTokenizer>(f);
#endif
      o["models"] = json::array();
      for (auto& [k, v] : wide) o["models"].push_back(k);
      for (auto& [k, v] : narrow) o["models"].push_back(k);
    } else {
      std::string text = q["text"];
      for (auto& [k, t] : wide) {
        o[k] = json::array();
        for (auto& w : t->tokenize(text)) o[k].push_back(wideString2Utf8String(w));
      }
      for (auto& [k, t] : narrow) o[k] = t->tokenize(text);
      for (auto& [k, e] : q["patterns"].items()) o[k] = unicode_regex_split(text, {e.get<std::string>()});
    }
    std::cout << "@" << o.dump(-1, ' ', true, json::error_handler_t::replace) << std::endl;
  }
}

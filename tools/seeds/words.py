import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from native import STUB, XXH, sh

SRC = ("mllm/preprocessor/tokenizers/AutoTokenizer.cpp mllm/preprocessor/tokenizers/BPE.cpp mllm/preprocessor/tokenizers/BPEUTF8.cpp"
       " mllm/preprocessor/tokenizers/Unicode.cpp mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp"
       " mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode-data.cpp mllm/utils/Log.cpp mllm/core/DataTypes.cpp mllm/core/TensorViewImpl.cpp"
       " mllm/core/SlicePrimitives.cpp mllm/core/DeviceTypes.cpp " + XXH)
WORDS = sh(SRC, "demo.cpp tensor_stub.cpp").replace('F="', 'mkdir -p "$t/inc/mllm/models"; cp "$here"/*.hpp "$t/inc/mllm/models/" 2>/dev/null || true\nF="-I$t/inc ', 1)
PAST = """#pragma once
#include <string>
#include <unordered_map>
#include <vector>
#include "mllm/core/Tensor.hpp"
namespace mllm::models {
using ARGenerationOutputPast = std::unordered_map<std::string, Tensor>;
}
"""
QWEN = r"""
#include <cstdio>
#include "mllm/models/HEADER"
using namespace mllm::preprocessor;
static int bad = 0;
static void cut(const std::string& s, std::vector<std::string> want) {
  std::vector<std::wstring> w;
  FUNCTION(s, w);
  std::vector<std::string> got;
  for (auto& x : w) got.push_back(wideString2Utf8String(x));
  if (got != want) { bad = 1; printf("wrong words (%zu, expected %zu)\n", got.size(), want.size()); }
}
int main() {
  initLocal();
CASES
  return bad;
}
"""
SPLIT = r"""
#include <cstdio>
#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
static int bad = 0;
static void cut(const std::string& s, std::vector<std::string> want) {
  std::vector<std::string> got = unicode_regex_split(s, {R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"});
  for (auto& w : want) for (size_t i; (i = w.find(' ')) != std::string::npos;) w.replace(i, 1, "\xC4\xA0");
  if (got != want) { bad = 1; printf("wrong words (%zu, expected %zu)\n", got.size(), want.size()); }
}
int main() {
CASES
  return bad;
}
"""


def qwen(header, function, cases):
    return QWEN.replace("HEADER", header).replace("FUNCTION", function).replace("CASES", cases)


SEEDS = [
 dict(id="c10-mark-return", property="C10",
      needs="a mark followed by a carriage return, as at the ends of lines of Windows texts",
      breaks="The carriage return and what follows are cut off the marks they belong to, so such lines get other tokens than the model was trained on.",
      edits=[("mllm/models/qwen3/tokenization_qwen3.hpp", "      while (pos < str.size() && (str[pos] == L'\\r' || str[pos] == L'\\n')) {\n        matched += str[pos];",
              "      while (pos < str.size() && str[pos] == L'\\n') {\n        matched += str[pos];")],
      demo=WORDS, files={"tensor_stub.cpp": STUB, "ARGeneration.hpp": PAST},
      cpp=qwen("qwen3/tokenization_qwen3.hpp", "mllm::models::qwen3::qwen3Regex",
               r'''  cut("a!\nb", {"a", "!\n", "b"}); cut("a!\r\nb", {"a", "!\r\n", "b"}); cut("one two", {"one", " two"});''')),
 dict(id="c10-return-letter", property="C10",
      needs="a carriage return directly before a letter",
      breaks="The carriage return becomes part of the word after it.",
      edits=[("mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp", " && str[pos] != L'\\r' && str[pos] != L'\\n') {", " && str[pos] != L'\\n') {")],
      demo=WORDS, files={"tensor_stub.cpp": STUB, "ARGeneration.hpp": PAST},
      cpp=qwen("qwen3_moe/tokenization_qwen3_moe.hpp", "mllm::models::qwen3_moe::qwen3Regex",
               r'''  cut("a\nb", {"a", "\n", "b"}); cut("a\rb", {"a", "\r", "b"}); cut("one, two", {"one", ",", " two"});''')),
 dict(id="c10-short-end", property="C10",
      needs="a text that ends in 're, 've or 'll (SmolLM3, DeepSeek-OCR)",
      breaks="The shortened word at the very end is cut into a quote and a word.",
      edits=[("mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp", "        uint32_t cpt_next = _get_cpt(pos + 1);\n        if (cpt_next == 's' || cpt_next == 't' || cpt_next == 'm' || cpt_next == 'd') {\n          pos += _add_token(pos + 2);\n          continue;\n        }\n        if (pos + 2 < offset_end) {",
              "        uint32_t cpt_next = _get_cpt(pos + 1);\n        if (cpt_next == 's' || cpt_next == 't' || cpt_next == 'm' || cpt_next == 'd') {\n          pos += _add_token(pos + 2);\n          continue;\n        }\n        if (pos + 3 < offset_end) {")],
      demo=WORDS, files={"tensor_stub.cpp": STUB},
      cpp=SPLIT.replace("CASES", r'''  cut("we're two", {"we", "'re", " two"}); cut("it's", {"it", "'s"}); cut("we're", {"we", "'re"});''')),
 dict(id="c10-blank-number", property="C10",
      needs="several blanks before a number or a mark, the last of them not a plain space (a tab, an unbreakable blank)",
      breaks="The whole run of blanks is one word, where its last blank is a word of its own.",
      edits=[("mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp", "      // regex: \\s+(?!\\S)\n      if (num_whitespaces > 1 && _get_cpt(pos + num_whitespaces) != OUT_OF_RANGE) {\n        pos += num_whitespaces - 1;\n        _add_token(pos);\n        continue;\n      }\n\n      // regex: \\s+\n      if (num_whitespaces > 0) {\n        pos += num_whitespaces;\n        _add_token(pos);\n        continue;\n      }\n\n      // no matches\n      _add_token(++pos);\n    }\n  }\n\n  return bpe_offsets;\n}\n\n// LLAMA3",
              "      // regex: \\s+(?!\\S)\n      if (num_whitespaces > 1 && _get_cpt(pos + num_whitespaces) != OUT_OF_RANGE\n          && (_get_cpt(pos + num_whitespaces - 1) == ' ' || _get_flags(pos + num_whitespaces).is_letter)) {\n        pos += num_whitespaces - 1;\n        _add_token(pos);\n        continue;\n      }\n\n      // regex: \\s+\n      if (num_whitespaces > 0) {\n        pos += num_whitespaces;\n        _add_token(pos);\n        continue;\n      }\n\n      // no matches\n      _add_token(++pos);\n    }\n  }\n\n  return bpe_offsets;\n}\n\n// LLAMA3")],
      demo=WORDS, files={"tensor_stub.cpp": STUB},
      cpp=SPLIT.replace("CASES", r'''  cut("a  b", {"a", " ", " b"}); cut("a  7", {"a", " ", " 7"}); cut("a \t7", {"a", " ", "\xC4\x89", "7"});''')),
]

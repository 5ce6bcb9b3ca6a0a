// Driver for the tokenizers.
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/smollm3_3B/tokenization_smollm3.hpp"

using namespace mllm;
using namespace mllm::preprocessor;
using nlohmann::json;

struct Setup {
  BPE wide;
  BPEUTF8 narrow;
  Trie trie;
  TrieUTF8 trie8;
};

template <class T> static json idsOf(T& t, const std::vector<std::wstring>& words) {
  auto x = t.convert2Ids(words);
  json o = json::array();
  for (size_t i = 0; i < words.size(); i++) o.push_back(x.template ptr<int64_t>()[i]);
  return o;
}
template <class T> static json viaWide(T& t, const std::string& s) {
  json o;
  auto words = t.tokenize(s);
  auto ids = idsOf(t, words);
  o["tokens"] = json::array();
  o["text"] = json::array();
  for (auto& w : words) o["tokens"].push_back(wideString2Utf8String(w));
  for (auto& i : ids) o["text"].push_back(wideString2Utf8String(t.detokenize(i.template get<int64_t>())));
  o["ids"] = ids;
  return o;
}
template <class T> static json viaUtf8(T& t, const std::string& s) {
  json o;
  o["tokens"] = t.tokenize(s);
  o["ids"] = t.encode(s);
  o["text"] = json::array({t.decode(t.encode(s))});
  return o;
}

int main() {
  std::string line;
  std::unique_ptr<Setup> u;
  std::unique_ptr<models::qwen3::Qwen3Tokenizer> qwen3;
  std::unique_ptr<models::qwen3_moe::Qwen3Tokenizer> moe;
  std::unique_ptr<models::smollm3::SmolLM3Tokenizer> smol;
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o;
    std::string op = q["op"];
    if (op == "open") {
      std::string file = q["file"];
      u = std::make_unique<Setup>();
      o["ok"] = u->wide.initFromSentencePieceJson(file) && u->narrow.initFromSentencePieceJson(file);
      std::vector<std::wstring> ws;
      std::vector<std::string> ss;
      for (auto& s : q["specials"]) {
        ss.push_back(s);
        ws.push_back(utf8string2WideString(s));
      }
      if (q["one"].get<bool>()) {
        for (auto& w : ws) u->trie.add(w);
        for (auto& s : ss) u->trie8.add(s);
      } else {
        u->trie.update(ws);
        u->trie8.update(ss);
      }
      if (q["models"].get<bool>()) {
        qwen3 = std::make_unique<models::qwen3::Qwen3Tokenizer>(file);
        moe = std::make_unique<models::qwen3_moe::Qwen3Tokenizer>(file);
        smol = std::make_unique<models::smollm3::SmolLM3Tokenizer>(file);
      }
    } else if (op == "map") {
      std::unordered_map<std::wint_t, wchar_t> m;
      makeBytes2UnicodeMap(m);
      o["map"] = json::array();
      for (auto& [b, c] : m) o["map"].push_back({(int)b, (int)c});
    } else if (op == "wide") {  // there and back
      auto w = utf8string2WideString(q["text"].get<std::string>());
      o["codes"] = json::array();
      for (auto c : w) o["codes"].push_back((int)c);
      o["back"] = wideString2Utf8String(w);
    } else if (op == "text") {
      std::string text = q["text"], units = q["units"];
      auto wtext = utf8string2WideString(text);
      o["parts"] = json::array();
      for (auto& p : u->trie.split(wtext)) o["parts"].push_back({u->trie.isSpecialToken(p), wideString2Utf8String(p)});
      o["parts8"] = json::array();
      for (auto& p : u->trie8.split(text)) o["parts8"].push_back({u->trie8.isSpecialToken(p), p});
      o["words"] = json::array(), o["ids"] = json::array(), o["back"] = json::array();
      for (auto& w : u->wide._bpe(utf8string2WideString(units))) {
        o["words"].push_back(wideString2Utf8String(w));
        auto id = u->wide._lookup_vocab(w);
        o["ids"].push_back(id);
        o["back"].push_back(wideString2Utf8String(u->wide._lookup_inverse_vocab(id)));
      }
      o["words8"] = json::array(), o["ids8"] = json::array(), o["back8"] = json::array();
      for (auto& w : u->narrow._bpe(units)) {
        o["words8"].push_back(w);
        auto id = u->narrow._lookup_vocab(w);
        o["ids8"].push_back(id);
        o["back8"].push_back(u->narrow._lookup_inverse_vocab(id));
      }
      for (auto& m : q["models"]) {
        if (m == "qwen3") o[m] = viaWide(*qwen3, text);
        if (m == "qwen3_moe") o[m] = viaWide(*moe, text);
        if (m == "smollm3") o[m] = viaUtf8(*smol, text);
      }
    }
    std::cout << "@" << o.dump(-1, ' ', true, json::error_handler_t::replace) << std::endl;
  }
}

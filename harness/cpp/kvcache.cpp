// Driver for the key/value cache (StaticCache, SubStaticCache).
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

#include <nlohmann/json.hpp>
#include "mllm/nn/lmcache/StaticCache.hpp"

using namespace mllm;
using nlohmann::json;
using std::vector;

struct Late {
  Tensor t;
  int kind;
  vector<int> tags;
};

static std::unique_ptr<nn::StaticCache> cache;
static vector<std::unique_ptr<nn::SubStaticCache>> subs;
static vector<Late> late;
static int layers, qh, kvh, dim, tags, max_rows;
static DataTypes kt, vt;
static DeviceTypes dev;
static bool fa2;

static DataTypes type(int kind) { return kind ? vt : kt; }
static size_t rowBytes(int kind) { return dim / lanesOfType(type(kind)) * bytesOfType(type(kind)); }

// what head h's row named tag holds
static void fill(char* p, int kind, int h, int tag) {
  uint32_t x = (tag * 64 + h) * 2 + kind + 1;
  for (size_t i = 0, n = rowBytes(kind); i < n; ++i) {
    x = x * 1664525u + 1013904223u;
    p[i] = tag == 0 ? 0 : i == 0 ? (char)tag : i == 1 ? (char)(h * 2 + kind + 1) : (char)(x >> 24);
  }
}
static int named(const char* p, int kind, int h) {  // -1: no row of that head
  vector<char> want(rowBytes(kind));
  int tag = (unsigned char)*p;
  if (tag > tags) return -1;
  fill(want.data(), kind, h, tag);
  return std::memcmp(want.data(), p, want.size()) ? -1 : tag;
}

// rows of every head; way 1..: as part of a larger tensor
static Tensor rows(int kind, const vector<int>& t, int way) {
  int n = (int)t.size(), before = way == 1 || way == 3 ? 2 : 0, after = way == 2 || way == 3 ? 3 : 0, h0 = way == 4 ? 1 : 0;
  auto all = Tensor::zeros({1, kvh + 2 * h0, n + before + after, dim}, type(kind), dev);
  std::memset(all.ptr<char>(), 0x5b, all.bytes());
  auto part = all[{kAll, {h0, h0 + kvh}, {before, before + n}, kAll}];
  for (int h = 0; h < kvh; ++h)
    for (int i = 0; i < n; ++i) fill(part.offsettedPtr<char>({0, h, i, 0}), kind, h, t[i]);
  return part;
}

// the rows a view shows: one list of names if keys and values of every head agree, otherwise the first disagreement
static json seen(std::array<Tensor, 2> kv) {
  json out = json::array();
  int rep = qh / kvh;
  for (int kind = 0; kind < 2; ++kind) {
    auto& t = kv[kind];
    auto s = t.shape();
    int heads = fa2 ? kvh : qh;
    if (s.size() != 4 || s[0] != 1 || s[fa2 ? 2 : 1] != heads || s[3] != dim || t.dtype() != type(kind)) return {{"shape", s}, {"kind", kind}};
    int n = s[fa2 ? 1 : 2];
    for (int h = 0; h < heads; ++h) {
      json got = json::array();
      for (int i = 0; i < n; ++i) got.push_back(named(fa2 ? t.offsettedPtr<char>({0, i, h, 0}) : t.offsettedPtr<char>({0, h, i, 0}), kind, fa2 ? h : h / rep));
      if (kind == 0 && h == 0) out = got;
      if (got != out) return {{"kind", kind}, {"head", h}, {"rows", got}, {"others", out}};
    }
  }
  return out;
}

static void writeLate() {
  for (auto& l : late)
    for (size_t i = 0; i < l.tags.size(); ++i)
      for (int h = 0; h < kvh; ++h) fill(l.t.ptr<char>() + (i * kvh + h) * rowBytes(l.kind), l.kind, h, l.tags[i]);
  late.clear();
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o = {{"ok", true}, {"rows", json::array()}};
    std::string op = q["op"];
    if (op != "reserve") writeLate();
    try {
      if (op == "new") {
        late.clear();
        subs.clear();
        max_rows = q["max"], layers = q["layers"], qh = q["q"], kvh = q["kv"], dim = q["dim"], tags = q["tags"];
        kt = (DataTypes)(int)q["kt"], vt = (DataTypes)(int)q["vt"], fa2 = q["fa2"], dev = q["other"] ? kOpenCL : kCPU;
        cache = std::make_unique<nn::StaticCache>(max_rows, layers, qh, kvh, dim, kt, vt, dev, fa2);
        if (q["moved"]) cache = std::make_unique<nn::StaticCache>(*cache);
      } else if (op == "append" || op == "reserve") {
        int l = q["layer"];
        vector<int> t = q["tags"];
        if (!fa2) {
          o["rows"] = seen(cache->updateKVCache(l, rows(0, t, q["way"]), rows(1, t, (int)q["way"] ? 4 - (int)q["way"] : 0)));
        } else {
          auto at = cache->preGetKVWriteLocation(l, (int)t.size());
          for (int kind = 0; kind < 2; ++kind) {
            vector<int32_t> want = {1, (int)t.size(), kvh * dim};
            if (at[kind].shape() != want || at[kind].dtype() != type(kind) || !at[kind].impl()->isContiguous()) o["rows"] = {{"location", at[kind].shape()}};
            late.push_back({at[kind], kind, t});
          }
          if (op == "append") writeLate();
          if (o["rows"].empty() && op == "append") o["rows"] = seen(cache->getKVCache(l));
        }
      } else if (op == "cut") {
        cache->setCurrentSeqCnt(q["n"]);
      } else if (op == "clear") {
        cache->clearCache();
      } else if (op == "sub") {
        subs.push_back(std::make_unique<nn::SubStaticCache>(*cache, q["start"], q["len"]));
      } else if (op == "drop") {
        subs.pop_back();
      } else if (op == "subclear") {
        subs[(int)q["sub"]]->clearCache();
      } else if (op == "subappend") {
        vector<int> t = q["tags"];
        o["rows"] = seen(subs[(int)q["sub"]]->updateKVCache(q["layer"], rows(0, t, q["way"]), rows(1, t, (int)q["way"] ? 4 - (int)q["way"] : 0)));
      }
    } catch (const std::exception& e) {
      o["ok"] = false;
      o["why"] = e.what();
    }
    o["cnt"] = json::array(), o["subs"] = json::array(), o["views"] = json::array();
    for (int l = 0; l < layers; ++l) {
      o["cnt"].push_back(cache->getCurrentSeqCnt(l));
      if (late.empty()) o["views"].push_back(seen(cache->getKVCache(l)));
    }
    for (auto& s : subs) {
      o["subs"].push_back(json::array());
      for (int l = 0; l < layers; ++l) o["subs"].back().push_back(s->getCurrentSeqCnt(l));
    }
    if (cache->getLayerNums() != layers || (!subs.empty() && subs[0]->getLayerNums() != layers)) o["layers"] = cache->getLayerNums();
    std::cout << "@" << o.dump() << std::endl;
  }
}

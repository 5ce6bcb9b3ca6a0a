// Driver for the radix tree, the block allocator and the prefix caches.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"

using namespace mllm;
using namespace mllm::prefix_cache;
using std::string;
using std::vector;

struct Out {
  std::ostringstream o;
  bool first = true;
  Out() { o << "@{"; }
  Out& key(const char* k) {
    if (!first) o << ",";
    first = false;
    o << "\"" << k << "\":";
    return *this;
  }
  void put(long v) { o << v; }
  template<typename T>
  void put(const vector<T>& v) {
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) o << ",";
      put(v[i]);
    }
    o << "]";
  }
  void put(uint32_t v) { o << v; }
  ~Out() { std::cout << o.str() << "}" << std::endl; }
};

struct Subject {
  int layers = 1;
  size_t block[2] = {0, 0};
  std::unique_ptr<RadixTree> tree;
  std::unique_ptr<ZenFileSystem> zen;
  std::unique_ptr<PrefixCacheAllocator> pca;
  std::unique_ptr<Cache> cache;
  std::unique_ptr<nn::CpuPrefixCache> cpu;

  vp_addr_t alloc(int l, int kind) {
    if (zen) return zen->malloc();
    if (pca) return pca->alloc(kCPU);
    if (cache) return cache->alloc(kCPU);
    return kind ? cpu->allocValue(l) : cpu->allocKey(l);
  }
  void free(int l, int kind, vp_addr_t a) {
    if (zen) zen->free(a);
    else if (pca) pca->free(kCPU, a);
    else if (cache) cache->free(kCPU, a);
    else if (kind) cpu->freeValue(l, a);
    else cpu->freeKey(l, a);
  }
  char* at(int l, int kind, vp_addr_t a) {
    if (zen) return zen->access(a);
    if (pca) return pca->physicalAddr(a);
    if (cache) return cache->physicalAddr(a);
    return kind ? cpu->physicalAddrValue(l, a) : cpu->physicalAddrKey(l, a);
  }
  void purge(int l, int kind, vp_addr_t a) {
    if (zen) zen->hintsPurge(a);
    else if (pca) pca->purge(kCPU, a);
    else if (cache) cache->purge(kCPU, a);
    else if (kind) cpu->purgeValue(l, a);
    else cpu->purgeKey(l, a);
  }
  void prefetch(int l, int kind, vp_addr_t a) {
    if (zen) zen->hintsPrefetch(a);
    else if (pca) pca->prefetch(kCPU, a);
    else if (cache) cache->prefetch(kCPU, a);
    else if (kind) cpu->prefetchValue(l, a);
    else cpu->prefetchKey(l, a);
  }
};

static vector<int64_t> tokens(std::istream& in) {
  int n;
  in >> n;
  vector<int64_t> t(n);
  for (auto& x : t) in >> x;
  return t;
}
static vector<vector<vp_addr_t>> addrs(std::istream& in, int layers, size_t n) {
  vector<vector<vp_addr_t>> a(layers, vector<vp_addr_t>(n));
  for (auto& l : a)
    for (auto& x : l) in >> x;
  return a;
}

// find() takes the namespace where it can
template<typename T>
static RadixSearchResult FIND(T& c, const vector<int64_t>& t, int64_t ns) {
  if constexpr (requires { c->find(t, ns); }) return c->find(t, ns);
  else return c->find(t);
}

template<typename T>
static void SLIDE(T& c, const vector<int64_t>& t, int64_t ns) {
  if constexpr (requires { c->evictSlidingWindowLayerOn(t, ns); }) c->evictSlidingWindowLayerOn(t, ns);
  else c->evictSlidingWindowLayerOn(t);
}

int main() {
  auto s = std::make_unique<Subject>();
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    string op;
    in >> op;
    if (op == "new") {
      string what;
      in >> what;
      s = std::make_unique<Subject>();
      if (what == "tree") {
        in >> s->layers;
        s->tree = std::make_unique<RadixTree>(RadixTreeOptions{.enable_lru_eviction = false, .transformer_blocks_num = s->layers});
      } else {
        size_t page, lane, ke, ve;
        int dt, mm, window;
        string dir, mask;
        in >> s->layers >> page >> lane >> ke >> ve >> dt >> mm >> dir >> window >> mask;
        auto t = static_cast<DataTypes>(dt);
        auto m = static_cast<ZenFSBlobMMapType>(mm);
        s->block[0] = ke * bytesOfType(t) / lanesOfType(t);
        s->block[1] = ve * bytesOfType(t) / lanesOfType(t);
        ZenFileSystemOptions z{.record = false, .working_dir = dir, .blob_bits_size = 32 - page - lane, .page_bits = page, .lane_bits = lane,
                               .per_k_token_ele = ke, .per_v_token_ele = ke, .k_dtype = t, .v_dtype = t, .mmap_type = m};
        PrefixCacheAllocatorOptions p{.per_k_token_ele = ke, .per_v_token_ele = ke, .k_dtype = t, .v_dtype = t, .zen_fs_options = z};
        if (what == "zen") {
          s->zen = std::make_unique<ZenFileSystem>();
          s->zen->initialize(z);
        } else if (what == "pca") {
          s->pca = std::make_unique<PrefixCacheAllocator>(p);
        } else if (what == "cache") {
          CacheOptions c;
          c.radix_tree_options.transformer_blocks_num = s->layers;
          c.allocator_options = p;
          s->cache = std::make_unique<Cache>(c);
        } else if (what == "cpu") {
          nn::PrefixCacheOptions o;
          o.total_layers = s->layers;
          o.per_k_token_ele_num = ke;
          o.per_v_token_ele_num = ve;
          o.k_dtype = o.v_dtype = t;
          o.zen_fs_working_dir = dir;
          o.zen_fs_blob_bits_size = 32 - page - lane;
          o.zen_fs_page_bits = page;
          o.zen_fs_lane_bits = lane;
          o.zen_fs_mem_type = m;
          if (window > 0) {
            o.hybrid_sliding_window_cache = true;
            o.sliding_window_size = window;
            vector<bool> w;
            for (char c : mask) w.push_back(c == '1');
            o.sliding_window_layers = w;
          }
          s->cpu = std::make_unique<nn::CpuPrefixCache>(o);
        }
      }
      Out().key("ok").put(1L);
    } else if (op == "ins") {
      int64_t ns;
      in >> ns;
      auto t = tokens(in);
      auto k = addrs(in, s->layers, t.size()), v = addrs(in, s->layers, t.size());
      bool ok = true;
      if (s->tree) {
        RadixTreeNodeValue val;
        for (int l = 0; l < s->layers; ++l) {
          val.k_cache_addresses.emplace_back(k[l]);
          val.v_cache_addresses.emplace_back(v[l]);
        }
        ok = s->tree->insert(RadixTreeNodeKey(VectorView<int64_t>(t), ns), val);
      } else if (s->cache) {
        s->cache->promote(t, k, v, ns);
      } else {
        s->cpu->promote(t, k, v, ns);
      }
      Out().key("ok").put(static_cast<long>(ok));
    } else if (op == "find") {
      int64_t ns;
      in >> ns;
      auto t = tokens(in);
      auto r = s->tree    ? s->tree->search(RadixTreeNodeKey(VectorView<int64_t>(t), ns))
               : s->cache ? FIND(s->cache, t, ns)
                          : FIND(s->cpu, t, ns);
      long path = 0;
      for (auto& [n, len] : r.path) path += len;
      Out o;
      o.key("ok").put(static_cast<long>(r.success));
      o.key("n").put(static_cast<long>(r.matched_length));
      o.key("path").put(path);
      o.key("k").put(r.k_cache_addresses);
      o.key("v").put(r.v_cache_addresses);
    } else if (op == "clear") {
      s->tree->clear();
      Out().key("ok").put(1L);
    } else if (op == "evictw") {
      int64_t ns;
      in >> ns;
      if (s->cpu) SLIDE(s->cpu, tokens(in), ns);
      Out().key("ok").put(1L);
    } else if (op == "alloc") {
      int l, k;
      in >> l >> k;
      auto a = s->alloc(l, k);
      Out().key("a").put(a);
    } else if (op == "free" || op == "purge" || op == "prefetch" || op == "fill") {
      int l, k, b;
      vp_addr_t a;
      in >> l >> k >> a;
      if (op == "free") s->free(l, k, a);
      if (op == "purge") s->purge(l, k, a);
      if (op == "prefetch") s->prefetch(l, k, a);
      if (op == "fill") {
        in >> b;
        memset(s->at(l, k, a), b, s->block[k]);
      }
      Out().key("ok").put(1L);
    } else if (op == "read") {  // the byte a block is filled with (-1: not one, -2: no memory)
      vector<long> r;
      int l, k;
      vp_addr_t a;
      while (in >> l >> k >> a) {
        auto* p = reinterpret_cast<unsigned char*>(s->at(l, k, a));
        long b = p ? p[0] : -2;
        for (size_t i = 0; p && i < s->block[k]; ++i)
          if (p[i] != b) {
            b = -1;
            break;
          }
        r.push_back(b);
      }
      Out().key("b").put(r);
    }
  }
}

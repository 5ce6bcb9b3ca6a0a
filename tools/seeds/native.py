import os

STUB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../harness/cpp/tensor_stub.cpp")).read()
AR = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../harness/cpp/stubs/mllm/models/ARGeneration.hpp")).read()
INC = ". third_party third_party/stb/include third_party/half/include third_party/dlpack/include third_party/xxHash/include third_party/utfcpp/include third_party/json"
XXH = "third_party/xxHash/src/xxhash.c third_party/xxHash/src/xxh_x86dispatch.c"


def sh(sources, local="demo.cpp", run='timeout 60 "$t/demo" "$t"', flags=""):
    return f"""#!/bin/bash
# run in the repository root: exit 0 when the property holds
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
F="-O1 -w -DFMT_HEADER_ONLY=1 -DMLLM_KERNEL_USE_THREADS=1 -DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1 -DXXH_DISPATCH_ENABLE=1 -fopenmp {flags}"
for i in {INC}; do F="$F -I$PWD/$i"; done
o=""
for s in {' '.join('"$here/' + x + '"' for x in local.split())} {sources}; do
  p="$t/$(echo "$s" | tr / _).o"
  case "$s" in *.c) gcc $F -c "$s" -o "$p" & ;; *) g++ -std=c++20 $F -c "$s" -o "$p" & ;; esac
  o="$o $p"
done
wait
g++ -fopenmp $o -o "$t/demo" -lpthread -ldl
{run}
"""


P = "mllm/engine/prefix_cache/"
TREE = sh(P + "RadixTree.cpp mllm/utils/Log.cpp " + XXH)
BLOCKS = sh(" ".join([P + x for x in ("RadixTree.cpp", "ZenFS.cpp", "Allocator.cpp", "TLB.cpp", "Cache.cpp")]) +
            " mllm/nn/lmcache/PrefixCache.cpp mllm/core/TensorViewImpl.cpp mllm/core/DataTypes.cpp mllm/core/SlicePrimitives.cpp"
            " mllm/core/DeviceTypes.cpp mllm/utils/Log.cpp " + XXH, "demo.cpp tensor_stub.cpp")
MEM = sh("mllm/engine/BuddyMemPool.cpp mllm/engine/MemoryManager.cpp mllm/backends/base/Allocator.cpp mllm/core/DeviceTypes.cpp mllm/core/DataTypes.cpp mllm/utils/Log.cpp")
POOL = sh("mllm/engine/HpcThreadPool.cpp mllm/utils/Log.cpp")
SERVICE = sh("mllm/engine/service/Service.cpp mllm/engine/service/Session.cpp mllm/utils/Log.cpp")
SYM = sh("mllm/compile/symbolic_expr/Parser.cpp mllm/compile/symbolic_expr/Eval.cpp")
FILES = sh("mllm/core/ParameterFile.cpp mllm/core/MappedFile.cpp mllm/core/DataTypes.cpp mllm/core/TensorViewImpl.cpp mllm/utils/Log.cpp", "demo.cpp tensor_stub.cpp")
TOK = sh("mllm/preprocessor/tokenizers/AutoTokenizer.cpp mllm/preprocessor/tokenizers/BPE.cpp mllm/preprocessor/tokenizers/BPEUTF8.cpp"
         " mllm/preprocessor/tokenizers/Unicode.cpp mllm/utils/Log.cpp mllm/core/DataTypes.cpp mllm/core/TensorViewImpl.cpp mllm/core/SlicePrimitives.cpp"
         " mllm/core/DeviceTypes.cpp " + XXH, "demo.cpp tensor_stub.cpp")

ARENA = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "mllm/engine/MemoryManager.hpp"
using namespace mllm;
struct Arena : Allocator {
  std::vector<std::pair<char*, size_t>> segs;
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override { s->ptr_ = aligned_alloc(64, (s->size_ + 63) & ~63ul); return true; }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override { ::free(s->ptr_); }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t) override { *p = aligned_alloc(4096, (cap + 4095) & ~4095ul); segs.push_back({(char*)*p, cap}); return true; }
  void generalFree(void*) override {}
  size_t allocSize(Storage* s) override { return (s->size_ + 63) & ~63ul; }
  size_t allocSize(const Storage::ptr_t& s) override { return allocSize(s.get()); }
  size_t alignSize() const override { return 64; }
};
static std::shared_ptr<Storage> block(size_t n) { auto s = std::make_shared<Storage>(); s->size_ = n; s->device_ = kCPU; static uint32_t id = 0; s->custom_32bit_uuid_ = ++id; return s; }
"""

SEEDS = [
 dict(id="c01-exact-fit", property="C01",
      needs="a request for exactly what a segment still has free, its whole capacity for instance",
      breaks="Such a request is served from a new segment although the returned memory would do: the pool grows on every round of returning everything and asking for it in one piece.",
      edits=[("mllm/engine/BuddyMemPool.cpp", "if (required_size > (seg.second->cap - seg.second->used)) continue;",
              "if (required_size >= (seg.second->cap - seg.second->used)) continue;")],
      demo=MEM, cpp=ARENA + r"""
int main() {
  auto a = std::make_shared<Arena>();
  MemoryManagerOptions o;
  o.really_large_tensor_threshold = 1 << 30;
  o.using_buddy_mem_pool = true;
  o.buddy_mem_pool_options.buddy_first_segment_cap = 1 << 16;
  o.buddy_mem_pool_options.buddy_min_order = 8;
  o.buddy_mem_pool_options.buddy_max_order = 16;
  MemoryManager m;
  m.registerAllocator(kCPU, a, o);
  std::vector<std::shared_ptr<Storage>> all;
  for (int i = 0; i < 5; ++i) { all.push_back(block(5000)); m.alloc(all.back()); }
  for (auto& s : all) m.free(s);
  auto whole = block(1 << 16);
  m.alloc(whole);
  printf("segments: %zu\n", a->segs.size());
  return a->segs.size() == 1 && whole->ptr_ == a->segs[0].first ? 0 : 1;
}
"""),
 dict(id="c01-merged-neighbour", property="C01",
      needs="two blocks of which the left one is returned last, and a later request for what they make up together",
      breaks="When the left neighbour of a free block is returned, the block they make up starts in the middle: it reaches into memory that belongs to others.",
      edits=[("mllm/engine/BuddyMemPool.cpp", "    if (omb->ptr < (*it)->ptr) {\n      omb->size *= 2;", "    if (omb->ptr < (*it)->ptr && omb->size > buddy_size) {\n      omb->size *= 2;")],
      demo=MEM, cpp=ARENA + r"""
int main() {
  auto a = std::make_shared<Arena>();
  MemoryManagerOptions o;
  o.really_large_tensor_threshold = 1 << 30;
  o.using_buddy_mem_pool = true;
  o.buddy_mem_pool_options.buddy_first_segment_cap = 1 << 12;
  o.buddy_mem_pool_options.buddy_min_order = 10;
  o.buddy_mem_pool_options.buddy_max_order = 12;
  MemoryManager m;
  m.registerAllocator(kCPU, a, o);
  std::vector<std::shared_ptr<Storage>> s;
  for (int i = 0; i < 4; ++i) { s.push_back(block(1024)); m.alloc(s.back()); }
  // the two halves of the first half
  std::shared_ptr<Storage> left, right, other;
  char* base = a->segs[0].first;
  for (auto& x : s) {
    size_t off = (char*)x->ptr_ - base;
    if (off == 0) left = x;
    if (off == 1024) right = x;
    if (off == 2048) other = x;
  }
  m.free(right);
  m.free(left);
  auto two = block(2048);
  m.alloc(two);
  char *p = (char*)two->ptr_, *q = (char*)other->ptr_;
  printf("%ld..%ld and %ld\n", p - base, p - base + 2048, q - base);
  return p + 2048 <= q || q + 1024 <= p ? 0 : 1;
}
"""),
 dict(id="c02-last-worker", property="C02",
      needs="a loop of exactly two tiles whose second body is still running when the first has finished",
      breaks="The call does not wait for the last worker: it returns while a body is still running.",
      edits=[("mllm/engine/HpcThreadPool.cpp", "  do {\n    complete = true;\n    for (int i = 1; i < tiles_num; ++i) {", "  do {\n    complete = true;\n    for (int i = 1; i < tiles_num - (tiles_num == 2); ++i) {")],
      demo=POOL, cpp=r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <memory>
#include <thread>
#include "mllm/engine/HpcThreadPool.hpp"
using namespace mllm;
int main() {
  auto* pool = new HpcThreadPool(4);
  pool->activate();
  int bad = 0;
  for (int n = 1; n <= 9; ++n) {
    auto done = std::make_shared<std::atomic<int>>(0);
    auto out = std::make_shared<std::atomic<bool>>(false);
    int slot = pool->acquireTaskSlot();
    pool->push({.func = [done](int i) {
                  if (i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
                  ++*done;
                }, .start = 0, .end = n, .step = 1}, slot);
    if (*done != n) { printf("%d of %d\n", done->load(), n); bad = 1; }
    std::this_thread::sleep_for(std::chrono::milliseconds(150));
    pool->releaseTaskSlot(slot);
  }
  fflush(stdout);
  _Exit(bad);
}
"""),
 dict(id="c02-slot-twice", property="C02",
      needs="two callers that ask for a task slot while both are at work",
      breaks="A slot that is taken is handed out again: two loops overwrite each other, bodies are lost, repeated or run after their call returned.",
      edits=[("mllm/engine/HpcThreadPool.cpp", "    if (task_available_[i]) {\n      task_available_[i] = false;\n      return i;", "    if (task_available_[i]) {\n      return i;"),
             ],
      demo=POOL, cpp=r"""
#include <cstdio>
#include <set>
#include "mllm/engine/HpcThreadPool.hpp"
using namespace mllm;
int main() {
  auto* pool = new HpcThreadPool(2);
  pool->activate();
  std::set<int> held;
  int bad = 0;
  for (int i = 0; i < 200; ++i) {
    int s = pool->acquireTaskSlot();
    if (s < 0) break;
    if (!held.insert(s).second) { printf("slot %d given twice\n", s); bad = 1; break; }
  }
  fflush(stdout);
  _Exit(bad);
}
"""),
 dict(id="c03-split-children", property="C03",
      needs="an edge that is split while it has children, and a split of one of those children afterwards",
      breaks="After a split the children of the lower part still name the upper part as their parent: the next split below ends the process.",
      edits=[(P + "RadixTree.cpp", "    for (auto& [k, c] : lower->children) c->parent = lower;\n", "")],
      demo=TREE, cpp=r"""
#include <cstdio>
#include "mllm/engine/prefix_cache/RadixTree.hpp"
using namespace mllm::prefix_cache;
using V = std::vector<int64_t>;
static int next_ = 1;
static std::vector<std::pair<V, std::vector<vp_addr_t>>> put;
static void add(RadixTree& t, V k) {
  std::vector<vp_addr_t> a(k.size());
  for (auto& x : a) x = next_++;
  for (auto& [o, b] : put)
    for (size_t i = 0; i < k.size() && i < o.size() && k[i] == o[i]; ++i) a[i] = b[i];
  put.push_back({k, a});
  RadixTreeNodeValue v;
  v.k_cache_addresses.emplace_back(put.back().second);
  v.v_cache_addresses.emplace_back(put.back().second);
  t.insert(RadixTreeNodeKey(VectorView<int64_t>(put.back().first), 0), v);
}
int main() {
  put.reserve(16);
  RadixTree t(RadixTreeOptions{.transformer_blocks_num = 1});
  add(t, {1, 2, 3, 4});
  add(t, {1, 2, 3, 4, 5, 6, 7});
  add(t, {1, 2, 9});
  add(t, {1, 2, 3, 4, 5, 8});
  for (auto& [k, a] : put) {
    auto r = t.search(RadixTreeNodeKey(VectorView<int64_t>(k), 0));
    if (!r.success || (size_t)r.matched_length != k.size() || r.k_cache_addresses[0] != a) return 1;
  }
  return 0;
}
"""),
 dict(id="c03-deep-values", property="C03",
      needs="an insertion that continues a sequence stored in two or more edges",
      breaks="The value addresses of the new part are taken from the wrong place when it hangs below a second edge: a search gives addresses of other tokens.",
      edits=[(P + "RadixTree.cpp", "    leaf_value.v_cache_addresses[b_idx] = value.v_cache_addresses[b_idx].subview(matched, key.token_ids.size() - matched);",
              "    leaf_value.v_cache_addresses[b_idx] = value.v_cache_addresses[b_idx].subview(edge_matched, key.token_ids.size() - matched);")],
      demo=TREE, cpp=r"""
#include <cstdio>
#include "mllm/engine/prefix_cache/RadixTree.hpp"
using namespace mllm::prefix_cache;
using V = std::vector<int64_t>;
int main() {
  RadixTree t(RadixTreeOptions{.transformer_blocks_num = 1});
  std::vector<V> ks = {{1, 2}, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 6}};
  std::vector<vp_addr_t> a = {10, 11, 12, 13, 14, 15}, b = {20, 21, 22, 23, 24, 25};
  for (auto& k : ks) {
    RadixTreeNodeValue v;
    v.k_cache_addresses.emplace_back(a);
    v.v_cache_addresses.emplace_back(b);
    t.insert(RadixTreeNodeKey(VectorView<int64_t>(k), 0), v);
  }
  auto r = t.search(RadixTreeNodeKey(VectorView<int64_t>(ks[2]), 0));
  for (auto x : r.v_cache_addresses[0]) printf("%u ", x);
  return r.matched_length == 6 && r.k_cache_addresses[0] == a && r.v_cache_addresses[0] == b ? 0 : 1;
}
"""),
 dict(id="c04-page-stride", property="C04",
      needs="pages and lanes of different number of bits, and more than one page in use",
      breaks="The address of a block is computed with the number of pages instead of the lanes of a page: blocks overlap or lie outside.",
      edits=[(P + "ZenFS.cpp", "      size_t offset = (page_addr * (1 << options_.lane_bits) + lane_addr) * per_kv_token_mem_size_;\n      return",
              "      size_t offset = (page_addr * (1 << options_.page_bits) + lane_addr) * per_kv_token_mem_size_;\n      return")],
      demo=BLOCKS, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <cstring>
#include <vector>
#include "mllm/engine/prefix_cache/ZenFS.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
int main() {
  ZenFileSystem z;
  z.initialize({.record = false, .working_dir = "", .blob_bits_size = 29, .page_bits = 1, .lane_bits = 2, .per_k_token_ele = 16, .per_v_token_ele = 16,
                .k_dtype = kFloat32, .v_dtype = kFloat32, .mmap_type = ZenFSBlobMMapType::kAnonymous});
  std::vector<vp_addr_t> a;
  for (int i = 0; i < 8; ++i) { a.push_back(z.malloc()); memset(z.access(a[i]), i + 1, 64); }
  for (int i = 0; i < 8; ++i)
    for (int k = 0; k < 64; ++k)
      if (z.access(a[i])[k] != i + 1) { printf("block %d holds %d\n", i, z.access(a[i])[k]); return 1; }
  return 0;
}
"""),
 dict(id="c04-high-lane", property="C04",
      needs="a block returned whose place in its group of 64 is 31, while its upper neighbours are in use",
      breaks="Returning such a block marks the 32 behind it as free as well: they are handed out a second time.",
      edits=[(P + "ZenFS.cpp", "free_lanes_bits_map[word_index] |= (1ULL << bit_index);", "free_lanes_bits_map[word_index] |= bit_index < 32 ? (1 << bit_index) : (1ULL << bit_index);")],
      demo=BLOCKS, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <set>
#include <vector>
#include "mllm/engine/prefix_cache/ZenFS.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
int main() {
  for (int i = 0; i < 64; ++i) {
    ZenFileSystem z;
    z.initialize({.record = false, .working_dir = "", .blob_bits_size = 26, .page_bits = 2, .lane_bits = 4, .per_k_token_ele = 1024, .per_v_token_ele = 1024,
                  .k_dtype = kFloat32, .v_dtype = kFloat32, .mmap_type = ZenFSBlobMMapType::kAnonymous});
    std::vector<vp_addr_t> a;
    for (int k = 0; k < 64; ++k) a.push_back(z.malloc());
    std::set<vp_addr_t> live(a.begin(), a.end());
    z.free(a[i]);
    live.erase(a[i]);
    for (int k = 0; k < 2; ++k) {
      auto y = z.malloc();
      if (!live.insert(y).second) { printf("%u given twice\n", y); return 1; }
    }
  }
  return 0;
}
"""),
 dict(id="c05-twice-slid", property="C05",
      needs="the same sequence cut to its window twice, with blocks handed out in between",
      breaks="What was dropped from a sliding layer keeps its value address: the next cut frees the block again although it belongs to somebody else by then.",
      edits=[("mllm/nn/lmcache/PrefixCache.cpp", "              radix_tree_node.v_cache_addresses[layer_idx][idx] = INVALID_VP_ADDR;\n", "")],
      demo=BLOCKS, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <set>
#include "mllm/nn/lmcache/PrefixCache.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
int main() {
  nn::PrefixCacheOptions o;
  o.total_layers = 2;
  o.per_k_token_ele_num = o.per_v_token_ele_num = 1024;
  o.k_dtype = o.v_dtype = kFloat32;
  o.hybrid_sliding_window_cache = true;
  o.sliding_window_layers = std::vector<bool>{false, true};
  o.sliding_window_size = 4;
  o.zen_fs_page_bits = 2;
  o.zen_fs_lane_bits = 2;
  o.zen_fs_mem_type = ZenFSBlobMMapType::kAnonymous;
  nn::CpuPrefixCache c(o);
  std::vector<int64_t> t = {1, 2, 3, 4, 5, 6};
  std::vector<std::vector<vp_addr_t>> k(2), v(2);
  for (int l = 0; l < 2; ++l)
    for (int i = 0; i < 6; ++i) { k[l].push_back(c.allocKey(l)); v[l].push_back(c.allocValue(l)); }
  c.promote(t, k, v, 0);
  c.evictSlidingWindowLayerOn(t);
  std::set<vp_addr_t> live(v[1].begin() + 2, v[1].end());
  for (int i = 0; i < 4; ++i) live.insert(c.allocValue(1));
  c.evictSlidingWindowLayerOn(t);
  for (int i = 0; i < 4; ++i)
    if (auto x = c.allocValue(1); !live.insert(x).second) { printf("%u given twice\n", x); return 1; }
  return 0;
}
"""),
 dict(id="c05-window-branch", property="C05",
      needs="a sequence stored in several edges, the last one shorter than the window",
      breaks="The tokens of edges that lie in the window as a whole are not counted: too few of the earlier ones are dropped and their blocks stay taken.",
      edits=[("mllm/nn/lmcache/PrefixCache.cpp", "          // Update length_cnt\n          length_cnt += this_node_matched_length;",
              "          // Update length_cnt\n          if (length_cnt == 0 || this_node_matched_length > 1) { length_cnt += this_node_matched_length; }")],
      demo=BLOCKS, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include "mllm/nn/lmcache/PrefixCache.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
int main() {
  nn::PrefixCacheOptions o;
  o.total_layers = 1;
  o.per_k_token_ele_num = o.per_v_token_ele_num = 1024;
  o.k_dtype = o.v_dtype = kFloat32;
  o.hybrid_sliding_window_cache = true;
  o.sliding_window_layers = std::vector<bool>{true};
  o.sliding_window_size = 2;
  o.zen_fs_page_bits = 2;
  o.zen_fs_lane_bits = 2;
  o.zen_fs_mem_type = ZenFSBlobMMapType::kAnonymous;
  nn::CpuPrefixCache c(o);
  std::vector<std::vector<int64_t>> ts = {{1, 2, 3}, {1, 2, 3, 4}, {1, 2, 3, 4, 5}};
  std::vector<std::vector<vp_addr_t>> k(1), v(1);
  for (int i = 0; i < 5; ++i) { k[0].push_back(c.allocKey(0)); v[0].push_back(c.allocValue(0)); }
  std::vector<std::vector<std::vector<vp_addr_t>>> keep;
  for (auto& t : ts) {
    auto cut = [&](auto& a) { return std::vector<std::vector<vp_addr_t>>{{a[0].begin(), a[0].begin() + t.size()}}; };
    keep.push_back(cut(k));
    auto& kk = keep.back();
    keep.push_back(cut(v));
    c.promote(t, keep[keep.size() - 2], keep.back(), 0);
  }
  c.evictSlidingWindowLayerOn(ts[2]);
  auto r = c.find(ts[2]);
  int bad = r.matched_length != 5;
  for (int i = 0; i < 5; ++i) {
    bool gone = r.k_cache_addresses[0][i] == INVALID_VP_ADDR;
    printf("%d", gone);
    if (gone != (i < 3)) bad = 1;
  }
  return bad;
}
"""),
 dict(id="c06-queued-rest", property="C06",
      needs="a caller that collects its answers later than they are produced",
      breaks="Taking one answer throws away all others of that request which are ready already.",
      edits=[("mllm/engine/service/Service.cpp", "  if (q.empty()) queues_.erase(req_id);", "  if (q.empty() || v.raw.empty()) queues_.erase(req_id);")],
      demo=SERVICE, cpp=r"""
#include <chrono>
#include <cstdio>
#include <thread>
#include "mllm/engine/service/Service.hpp"
using namespace mllm::service;
struct S : Session {
  void streamGenerate(const nlohmann::json&, const std::function<void(const nlohmann::json&, bool)>& cb) override {
    cb("a", false);
    cb("", false);   // half a character
    cb("b", false);
    cb("", true);
  }
};
int main() {
  startService(1);
  insertSession("m", std::make_shared<S>());
  sendRequest(R"({"id":"x","model":"m"})");
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(10)); printf("lost\n"); fflush(stdout); _Exit(1); }).detach();
  std::string s;
  for (int i = 0; i < 4; ++i) {
    auto j = nlohmann::json::parse(getResponse("x"));
    s += j["choices"][0]["delta"]["content"].get<std::string>() + (j["finished"].get<bool>() ? "." : ",");
  }
  printf("%s\n", s.c_str());
  fflush(stdout);
  _Exit(s == "a,,b,." ? 0 : 1);
}
"""),
 dict(id="c06-empty-end", property="C06",
      needs="a session that produces an empty piece in the middle of its answer",
      breaks="An empty piece of text is taken for the end: the caller is told that the answer is complete while more follows.",
      edits=[("mllm/engine/service/Service.cpp", "              item.finished = finished;\n              item.raw", "              item.finished = finished || token.empty();\n              item.raw")],
      demo=SERVICE, cpp=r"""
#include <cstdio>
#include "mllm/engine/service/Service.hpp"
using namespace mllm::service;
struct S : Session {
  void streamGenerate(const nlohmann::json&, const std::function<void(const nlohmann::json&, bool)>& cb) override {
    cb("a", false);
    cb("", false);
    cb("b", false);
    cb("", true);
  }
};
int main() {
  startService(1);
  insertSession("m", std::make_shared<S>());
  sendRequest(R"({"id":"x","model":"m"})");
  std::string s;
  for (bool end = false; !end;) {
    auto j = nlohmann::json::parse(getResponse("x"));
    end = j["finished"].get<bool>();
    s += j["choices"][0]["delta"]["content"].get<std::string>();
  }
  printf("%s\n", s.c_str());
  fflush(stdout);
  _Exit(s == "ab" ? 0 : 1);
}
"""),
 dict(id="c07-right-group", property="C07",
      needs="printing a difference or quotient whose right side is a sum, difference, product or quotient",
      breaks="The parentheses around the right side are left out when the operators are the same: a - (b - c) is printed as a - b - c.",
      edits=[("mllm/compile/symbolic_expr/AST.hpp", "    if (rhs_->getKind() == Kinds::Binary) {", "    if (rhs_->getKind() == Kinds::Binary && static_cast<BinaryExprAST*>(rhs_.get())->getOpType() != getOpType()) {")],
      demo=SYM, cpp=r"""
#include <cstdio>
#include "mllm/compile/symbolic_expr/Eval.hpp"
using namespace mllm;
int main() {
  for (const char* s : {"a - (b - c)", "a / (b / c)", "a - (b + c)", "a * (b * c)", "(a - b) - c"}) {
    SymExprDict d = {{"a", 64}, {"b", 8}, {"c", 2}};
    SymExpr e{std::string(s)};
    SymExpr f{e.str()};
    if (e.eval(d) != f.eval(d)) { printf("%s is printed as %s\n", s, e.str().c_str()); return 1; }
  }
  return 0;
}
"""),
 dict(id="c07-static-left", property="C07",
      needs="an expression with a named dimension only inside a function or on the right-hand side",
      breaks="Such an expression is said to be a constant.",
      edits=[("mllm/compile/symbolic_expr/AST.hpp", "  void isStatic(bool& flag) override { expr_->isStatic(flag); }\n\n", "")],
      demo=SYM, cpp=r"""
#include <cstdio>
#include "mllm/compile/symbolic_expr/Eval.hpp"
using namespace mllm;
int main() {
  for (const char* s : {"a", "2 * a", "floor(a / 2)", "abs(ceil(a)) + 1"})
    if (SymExpr(std::string(s)).isStatic()) { printf("%s does not depend on a?\n", s); return 1; }
  return SymExpr(std::string("floor(5 / 2)")).isStatic() ? 0 : 1;
}
"""),
 dict(id="c08-order", property="C08",
      needs="a version 2 file, read without mapping, whose data do not lie in the order of its table",
      breaks="The data are read one after the other instead of from where the table says: tensors get bytes of others.",
      edits=[("mllm/core/ParameterFile.cpp", "      file.seekg(param_desc.parameter_offset);\n      file.read(", "      if (i == 0) { file.seekg(param_desc.parameter_offset); }\n      file.read(")],
      demo=FILES, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/schema/ModelFileV2.hpp"
using namespace mllm;
using V2 = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>;
int main(int, char** v) {
  std::string path = std::string(v[1]) + "/f.mllm";
  ModelFileV2Descriptor h{};
  h.magic_number = MLLM_MODEL_FILE_V2_MAGIC_NUMBER;
  h.version = MLLM_MODEL_FILE_V2_VERSION;
  h.num_params = 2;
  h.params_desc_offset = sizeof(h);
  uint64_t at = sizeof(h) + 2 * sizeof(ModelFileV2ParamsDescriptor);
  std::ofstream f(path, std::ios::binary);
  f.write((char*)&h, sizeof(h));
  for (int i = 0; i < 2; ++i) {   // padded to 64 bytes
    ModelFileV2ParamsDescriptor d{};
    d.parameter_id = i;
    d.parameter_type = kInt8;
    d.parameter_size = 5;
    d.parameter_offset = at + i * 64;
    d.shape_len = 1;
    d.shape[0] = 5;
    strcpy(d.name, i ? "b" : "a");
    f.write((char*)&d, sizeof(d));
  }
  std::string s(128, 'x');
  s.replace(0, 5, "first");
  s.replace(64, 5, "other");
  f.write(s.data(), s.size());
  f.close();
  auto p = V2::read(path, false);
  std::string a((char*)p->pull("a").ptr<int8_t>(), 5), b((char*)p->pull("b").ptr<int8_t>(), 5);
  printf("%s %s\n", a.c_str(), b.c_str());
  return a == "first" && b == "other" ? 0 : 1;
}
"""),
 dict(id="c08-long-rank", property="C08",
      needs="a version 2 file written by the C++ writer with a tensor of five or more dimensions",
      breaks="Only the first four dimensions are written to the table: the others are read back as zero.",
      edits=[("mllm/core/ParameterFile.cpp", "for (size_t i = 0; i < shape.size() && i < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; i++)", "for (size_t i = 0; i < shape.size() && i < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH / sizeof(int32_t); i++)")],
      demo=FILES, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <cstring>
#include "mllm/core/ParameterFile.hpp"
using namespace mllm;
using V2 = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>;
int main(int, char** v) {
  std::string path = std::string(v[1]) + "/f.mllm";
  std::vector<int32_t> shape = {1, 2, 3, 1, 4, 2};
  auto f = ParameterFile::create(ModelFileVersion::kV2);
  auto t = Tensor::empty(shape, kFloat32, kCPU).alloc();
  memset(t.ptr<uint8_t>(), 7, t.bytes());
  f->push("a", t);
  V2::write(f, path);
  auto r = V2::read(path, false)->pull("a");
  return r.shape() == shape && !memcmp(r.ptr<uint8_t>(), t.ptr<uint8_t>(), t.bytes()) ? 0 : 1;
}
"""),
 dict(id="c09-last-pair", property="C09",
      needs="a word whose last two pieces are a pair to merge",
      breaks="A pair at the very end of a word is not merged when the word has more than two pieces left.",
      edits=[("mllm/preprocessor/tokenizers/BPEUTF8.cpp", "      if (j < word.size() - 1 && word[j] == first && word[j + 1] == second) {", "      if (j + 1 < word.size() - (word.size() > 6) && word[j] == first && word[j + 1] == second) {"),
             ("mllm/preprocessor/tokenizers/BPEUTF8.cpp", "    word = std::move(new_word);\n", "    if (word.size() == new_word.size()) { break; }\n    word = std::move(new_word);\n")],
      demo=TOK, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include <fstream>
#include "mllm/preprocessor/tokenizers/BPEUTF8.hpp"
using namespace mllm::preprocessor;
int main(int, char** v) {
  std::string path = std::string(v[1]) + "/tokenizer.json";
  std::ofstream(path) << R"({"model":{"vocab":{"a":0,"b":1,"c":2,"ab":3},"merges":["a b"]},"added_tokens":[]})";
  BPEUTF8 b;
  b.initFromSentencePieceJson(path);
  for (std::string w : {"ab", "cab", "cccccab", "cccccccccab", "abcab"}) {
    auto t = b._bpe(w);
    if (t.back() != "ab") { printf("%s ends in %s\n", w.c_str(), t.back().c_str()); return 1; }
  }
  return 0;
}
"""),
 dict(id="c09-three-bytes", property="C09",
      needs="text with a character from U+F000 to U+FFFF",
      breaks="Characters near the upper end of three bytes lose their top bits when written back: text does not survive tokenisation.",
      edits=[("mllm/preprocessor/tokenizers/Unicode.cpp", "0xE0U | ((wc >> 12U) & 0x0FU)", "0xE0U | ((wc >> 12U) % 0x0FU)")],
      demo=TOK, files={"tensor_stub.cpp": STUB}, cpp=r"""
#include <cstdio>
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
using namespace mllm::preprocessor;
int main() {
  for (std::string s : {"a\xC3\xA9", "\xE4\xB8\xAD", "\xEF\xBC\x8C", "\xEF\xBF\xBD", "\xF0\x9F\x99\x82"})
    if (wideString2Utf8String(utf8string2WideString(s)) != s) { printf("%s changed\n", s.c_str()); return 1; }
  return 0;
}
"""),
]

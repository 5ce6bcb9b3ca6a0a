import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from native import STUB, sh

KV = sh("mllm/nn/lmcache/StaticCache.cpp mllm/core/TensorViewImpl.cpp mllm/core/DataTypes.cpp mllm/core/SlicePrimitives.cpp"
        " mllm/core/DeviceTypes.cpp mllm/utils/Log.cpp", "demo.cpp tensor_stub.cpp")
HEAD = r"""
#include <cstdio>
#include "mllm/nn/lmcache/StaticCache.hpp"
using namespace mllm;
static int bad = 0;
static void check(bool ok, const char* what) { if (!ok) { bad = 1; printf("wrong: %s\n", what); } }
static Tensor rows(int heads, int n, int dim, float base) {
  auto t = Tensor::zeros({1, heads, n, dim}, kFloat32, kCPU);
  for (int h = 0; h < heads; ++h)
    for (int i = 0; i < n; ++i)
      for (int d = 0; d < dim; ++d) *t.offsettedPtr<float>({0, h, i, d}) = base + h * 100 + i * 10 + d;
  return t;
}
static float at(Tensor& t, int h, int i, int d) { return *t.offsettedPtr<float>({0, h, i, d}); }
"""
F = "mllm/nn/lmcache/StaticCache.cpp"
H = "mllm/nn/lmcache/StaticCache.hpp"
SEEDS = [
 dict(id="c11-sub-room", property="C11", needs="a sub-cache that does not start at row 0 and is filled to its end",
      breaks="A sub-cache believes it has the parent's whole capacity: its last rows land in the next head's rows.",
      edits=[(H, "sub_max_cache_length_ = cache_.max_cache_length_ - start_idx_;", "sub_max_cache_length_ = cache_.max_cache_length_;")],
      demo=KV, files={"tensor_stub.cpp": STUB}, cpp=HEAD + r"""
int main() {
  nn::StaticCache c(8, 1, 2, 2, 2, kFloat32, kFloat32, kCPU, false);
  c.updateKVCache(0, rows(2, 3, 2, 1), rows(2, 3, 2, 1001));
  nn::SubStaticCache s(c, 2, 1);
  s.updateKVCache(0, rows(2, 5, 2, 5000), rows(2, 5, 2, 6000));
  bool refused = false;
  try { s.updateKVCache(0, rows(2, 1, 2, 7000), rows(2, 1, 2, 8000)); } catch (const std::exception&) { refused = true; }
  check(refused, "a row that does not fit was taken");
  auto kv = c.getKVCache(0);
  for (int h = 0; h < 2; ++h) check(at(kv[0], h, 0, 0) == 1 + h * 100, "another head's first row was overwritten");
  return bad;
}
"""),
 dict(id="c11-sub-clear", property="C11", needs="clearing a sub-cache that began with rows of its parent, then appending",
      breaks="Clearing a sub-cache forgets the rows it was opened on.",
      edits=[(H, "++layer_idx) { current_sub_seq_cnt_[layer_idx] = len_; }", "++layer_idx) { current_sub_seq_cnt_[layer_idx] = start_idx_; }")],
      demo=KV, files={"tensor_stub.cpp": STUB}, cpp=HEAD + r"""
int main() {
  nn::StaticCache c(8, 1, 2, 2, 2, kFloat32, kFloat32, kCPU, false);
  c.updateKVCache(0, rows(2, 3, 2, 1), rows(2, 3, 2, 1001));
  nn::SubStaticCache s(c, 0, 3);
  s.updateKVCache(0, rows(2, 2, 2, 5000), rows(2, 2, 2, 6000));
  s.clearCache();
  check(s.getCurrentSeqCnt(0) == 3, "count after clearing");
  auto kv = s.updateKVCache(0, rows(2, 1, 2, 7000), rows(2, 1, 2, 8000));
  check(kv[0].shape()[2] == 4 && at(kv[0], 0, 0, 0) == 1 && at(kv[0], 0, 3, 0) == 7000, "rows after clearing");
  return bad;
}
"""),
 dict(id="c11-value-type", property="C11", needs="keys and values of different data types",
      breaks="Values are copied by the size of the keys' type.",
      edits=[(F, "            std::memcpy(v_cache_ptr, v_ptr, inputs_seq_len * kv_dims_ * bytesOfType(v_dtype_) / lanesOfType(v_dtype_));",
              "            std::memcpy(v_cache_ptr, v_ptr, inputs_seq_len * kv_dims_ * bytesOfType(k_dtype_) / lanesOfType(k_dtype_));")],
      demo=KV, files={"tensor_stub.cpp": STUB}, cpp=HEAD + r"""
int main() {
  nn::StaticCache c(8, 1, 2, 2, 2, kInt8, kFloat32, kCPU, false);
  auto kv = c.updateKVCache(0, Tensor::zeros({1, 2, 2, 2}, kInt8, kCPU), rows(2, 2, 2, 1));
  for (int h = 0; h < 2; ++h) check(at(kv[1], h, 1, 1) == 1 + h * 100 + 11, "value row");
  return bad;
}
"""),
 dict(id="c11-cut-last", property="C11", needs="cutting a cache of several layers back, then reading its last layer",
      breaks="Cutting back spares the layers after the first that already has that many rows.",
      edits=[(H, "for (int32_t layer_idx = 0; layer_idx < layer_nums_; ++layer_idx) { current_seq_cnt_[layer_idx] = seq; }",
              "for (int32_t layer_idx = 0; layer_idx < layer_nums_ && current_seq_cnt_[layer_idx] != seq; ++layer_idx) { current_seq_cnt_[layer_idx] = seq; }")],
      demo=KV, files={"tensor_stub.cpp": STUB}, cpp=HEAD + r"""
int main() {
  nn::StaticCache c(8, 2, 2, 2, 2, kFloat32, kFloat32, kCPU, false);
  c.updateKVCache(0, rows(2, 2, 2, 1), rows(2, 2, 2, 1));
  c.updateKVCache(1, rows(2, 3, 2, 1), rows(2, 3, 2, 1));
  c.setCurrentSeqCnt(2);
  check(c.getCurrentSeqCnt(1) == 2 && c.getKVCache(1)[0].shape()[2] == 2, "rows left in the last layer");
  return bad;
}
"""),
 dict(id="c11-place-bytes", property="C11", needs="places handed out for rows written in place, after others, keys and values of different types",
      breaks="The place for values keeps the type of the keys.",
      edits=[(F, "auto v_storage = TensorStorage::create(new_shape, v_cache_[layer_idx].dtype(), v_cache_[layer_idx].device());",
              "auto v_storage = TensorStorage::create(new_shape, k_storage->dtype_, v_cache_[layer_idx].device());")],
      demo=KV, files={"tensor_stub.cpp": STUB}, cpp=HEAD + r"""
int main() {
  nn::StaticCache c(8, 1, 2, 2, 2, kFloat16, kFloat32, kCPU, true);
  auto at = c.preGetKVWriteLocation(0, 2);
  check(at[0].dtype() == kFloat16 && at[1].dtype() == kFloat32, "types of the places");
  return bad;
}
"""),
]

import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from native import STUB, sh

BASE_H = "#pragma once\n#include <fmt/core.h>\n#include <fmt/format.h>\n"


def ops(*names, more=""):
    src = " ".join(f"mllm/backends/cpu/ops/{n}Op.cpp mllm/core/aops/{n}Op.cpp" for n in names)
    d = sh(src + " " + more + " mllm/core/BaseOp.cpp mllm/core/TensorViewImpl.cpp mllm/core/DataTypes.cpp mllm/core/SlicePrimitives.cpp"
           " mllm/core/DeviceTypes.cpp mllm/utils/Log.cpp", "demo.cpp tensor_stub.cpp", flags="-mavx2 -mfma -mf16c")
    d = d.replace("g++ -fopenmp $o", "g++ -fopenmp $o -Wl,--unresolved-symbols=ignore-all")
    return d.replace('F="', 'mkdir -p "$t/inc/fmt"; cp "$here"/base.h "$t/inc/fmt/"\nF="-I$t/inc ', 1)


FILES = {"tensor_stub.cpp": STUB, "base.h": BASE_H}
HEAD = r"""
#include <cstdio>
#include <vector>
#include "mllm/core/Tensor.hpp"
HEADERS
using namespace mllm;
static int bad = 0;
template<typename T> static Tensor make(std::vector<int> shape, DataTypes t, std::vector<T> v) {
  auto x = Tensor::zeros(shape, t, kCPU);
  for (size_t i = 0; i < v.size(); ++i) x.ptr<T>()[i] = v[i];
  return x;
}
static Tensor upto(std::vector<int> shape) {
  auto x = Tensor::zeros(shape, kFloat32, kCPU);
  for (size_t i = 0; i < x.numel(); ++i) x.ptr<float>()[i] = (float)i;
  return x;
}
static std::vector<Tensor> run(BaseOp& op, std::vector<Tensor> in) {
  std::vector<Tensor> out;
  out.reserve(4);
  op.reshape(in, out);
  for (auto& o : out) o.alloc();
  op.forward(in, out);
  return out;
}
template<typename T> static void same(Tensor t, std::vector<int> shape, std::vector<T> want) {
  bool ok = t.shape() == shape;
  for (size_t i = 0; ok && i < want.size(); ++i) ok = t.ptr<T>()[i] == want[i];
  if (!ok) {
    bad = 1;
    printf("wrong:");
    for (size_t i = 0; i < t.numel(); ++i) printf(" %g", (double)t.ptr<T>()[i]);
    printf("\n");
  }
}
"""


def head(*names, more=""):
    return HEAD.replace("HEADERS", "\n".join(f'#include "mllm/backends/cpu/ops/{n}Op.hpp"' for n in names) + more)


P = "mllm/backends/cpu/ops/"
SEEDS = [
 dict(id="c12-stack-negative", property="C12", needs="stacking with the new dimension counted from the end, tensors of two or more dimensions",
      breaks="The values are laid out for another dimension than the shape says.",
      edits=[(P + "StackOp.cpp", "stack_dim += (input_rank + 1);", "stack_dim += input_rank;")],
      demo=ops("Stack"), files=FILES, cpp=head("Stack") + r"""
int main() {
  auto a = upto({2, 2});
  auto b = make<float>({2, 2}, kFloat32, {10, 11, 12, 13});
  aops::StackOpOptions s;
  s.dim = 0;
  cpu::CPUStackOp first(s);
  same<float>(run(first, {a, b})[0], {2, 2, 2}, {0, 1, 2, 3, 10, 11, 12, 13});
  s.dim = -1;
  cpu::CPUStackOp last(s);
  same<float>(run(last, {a, b})[0], {2, 2, 2}, {0, 10, 1, 11, 2, 12, 3, 13});
  return bad;
}
"""),
 dict(id="c12-gather-negative", property="C12", needs="gathering by indices given as floats, one of them negative",
      breaks="Negative indices given as floats are taken for out of range: the row keeps what the memory held.",
      edits=[(P + "GatherOp.cpp", "        idx = indices_i32[i];\n", "        idx = indices_i32[i];\n        if (idx < 0) idx += dim_size;\n"),
             (P + "GatherOp.cpp", "      if (idx < 0) idx += dim_size;\n\n      if (idx < 0 ||", "      if (idx < 0 ||")],
      demo=ops("Gather"), files=FILES, cpp=head("Gather") + r"""
int main() {
  aops::GatherOpOptions s;
  s.dim = 0;
  cpu::CPUGatherOp op(s);
  same<float>(run(op, {upto({3, 2}), make<int>({2}, kInt32, {-1, 0})})[0], {2, 2}, {4, 5, 0, 1});
  same<float>(run(op, {upto({3, 2}), make<float>({2}, kFloat32, {2, 1})})[0], {2, 2}, {4, 5, 2, 3});
  same<float>(run(op, {upto({3, 2}), make<float>({2}, kFloat32, {-1, 0})})[0], {2, 2}, {4, 5, 0, 1});
  return bad;
}
"""),
 dict(id="c12-pad-reflect", property="C12", needs="padding by reflection past the far end",
      breaks="The first element past the end is read from outside its row instead of from the last but one.",
      edits=[(P + "PadOp.cpp", "if (r >= size) { r = period - r; }", "if (r > size) { r = period - r; }")],
      demo=ops("Pad"), files=FILES, cpp=head("Pad") + r"""
int main() {
  aops::PadOpOptions s;
  s.mode = aops::PadMode::kReflect;
  s.pad = {2, 0};
  cpu::CPUPadOp before(s);
  same<float>(run(before, {upto({2, 4})})[0], {2, 6}, {2, 1, 0, 1, 2, 3, 6, 5, 4, 5, 6, 7});
  s.pad = {0, 1};
  cpu::CPUPadOp after(s);
  same<float>(run(after, {upto({2, 4})})[0], {2, 5}, {0, 1, 2, 3, 2, 4, 5, 6, 7, 6});
  return bad;
}
"""),
 dict(id="c12-topk-unsorted", property="C12", needs="top-k asked not to sort, with winners that are not in order of size",
      breaks="The winners come in order of their values, not of their places.",
      edits=[(P + "TopKOp.cpp", "std::sort(temp_data.begin(), temp_data.end(), index_compare);", "std::sort(temp_data.begin(), temp_data.end());")],
      demo=ops("TopK"), files=FILES, cpp=head("TopK") + r"""
int main() {
  aops::TopKOpOptions s;
  s.dim = -1, s.k = 2, s.largest = true, s.sorted = true;
  cpu::CPUTopKOp sorted(s);
  same<float>(run(sorted, {make<float>({4}, kFloat32, {5, 9, 1, 7})})[0], {2}, {9, 7});
  s.sorted = false;
  cpu::CPUTopKOp unsorted(s);
  auto o = run(unsorted, {make<float>({4}, kFloat32, {5, 9, 1, 7})});
  same<float>(o[0], {2}, {9, 7});
  same<int>(o[1], {2}, {1, 3});
  return bad;
}
"""),
 dict(id="c12-transpose-odd", property="C12", needs="transposing 64-bit integers with an odd number of columns",
      breaks="The last column comes with neighbouring rows exchanged.",
      edits=[("mllm/backends/cpu/kernels/x86/transpose.cpp", "_mm_set_epi64x(X[(i + 1) * W + j], X[i * W + j]);", "_mm_set_epi64x(X[i * W + j], X[(i + 1) * W + j]);")],
      demo=sh("mllm/backends/cpu/kernels/x86/transpose.cpp"), cpp=r"""
#include <cstdio>
#include <vector>
#include "mllm/backends/cpu/kernels/x86/transpose.hpp"
int main() {
  int bad = 0;
  for (size_t h = 1; h < 6; ++h)
    for (size_t w = 1; w < 6; ++w) {
      std::vector<mllm::mllm_int64_t> x(h * w), y(h * w);
      for (size_t i = 0; i < x.size(); ++i) x[i] = i;
      mllm::cpu::x86::transpose_hw_wh_int64(x.data(), y.data(), h, w);
      for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < w; ++j)
          if (y[j * h + i] != x[i * w + j] && !bad++) printf("wrong at %zu, %zu of %zu x %zu\n", i, j, h, w);
    }
  return bad != 0;
}
"""),
 dict(id="c12-causal-earlier", property="C12", needs="a causal mask with more keys than rows (tokens were processed before)",
      breaks="Rows do not see the keys that came before this sequence.",
      edits=[(P + "CausalMaskOp.cpp", """              const size_t row_offset = r * D;
              const size_t copy_count = D - S + r + 1;
              const size_t fill_count = std::max(D - copy_count, (size_t)0);

              memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(float));

              float* fill_start = o_ptr + row_offset + copy_count;
              size_t avx_iters""", """              const size_t row_offset = r * D;
              const size_t copy_count = r + 1;
              const size_t fill_count = std::max(D - copy_count, (size_t)0);

              memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(float));

              float* fill_start = o_ptr + row_offset + copy_count;
              size_t avx_iters""")],
      demo=ops("CausalMask"), files=FILES, cpp=head("CausalMask") + r"""
int main() {
  cpu::CPUCausalMaskOp op(aops::CausalMaskOpOptions{});
  same<float>(run(op, {upto({1, 1, 2, 2})})[0], {1, 1, 2, 2}, {0, -1e10f, 2, 3});
  same<float>(run(op, {upto({1, 1, 2, 3})})[0], {1, 1, 2, 3}, {0, 1, -1e10f, 3, 4, 5});
  return bad;
}
"""),
 dict(id="c12-concat-view", property="C12", needs="joining tensors of which one is a view with gaps between its rows",
      breaks="A view that follows a plain tensor is read as if it had no gaps.",
      edits=[(P + "ConcatOp.cpp", "for (auto& input : inputs) { is_all_contiguous &= input.isContiguous(); }", "is_all_contiguous &= inputs.front().isContiguous();")],
      demo=ops("Concat"), files=FILES, cpp=head("Concat") + r"""
int main() {
  aops::ConcatOpOptions s;
  s.dim = 0;
  cpu::CPUConcatOp op(s);
  auto a = upto({2, 2});
  auto b = upto({2, 3});
  same<float>(run(op, {b[{{kAll}, {0, 2}}], a})[0], {4, 2}, {0, 1, 3, 4, 0, 1, 2, 3});
  same<float>(run(op, {a, b[{{kAll}, {0, 2}}]})[0], {4, 2}, {0, 1, 2, 3, 0, 1, 3, 4});
  return bad;
}
"""),
]

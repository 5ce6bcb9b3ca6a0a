// Driver for the tensor operations of the CPU backend, with the shape and view arithmetic of the abstract operations.
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <string>

#include <nlohmann/json.hpp>
#include "mllm/backends/cpu/ops/ArgsortOp.hpp"
#include "mllm/backends/cpu/ops/CausalMaskOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/GatherOp.hpp"
#include "mllm/backends/cpu/ops/InterpolateOp.hpp"
#include "mllm/backends/cpu/ops/MaskedScatterOp.hpp"
#include "mllm/backends/cpu/kernels/x86/fill.hpp"
#include "mllm/backends/cpu/ops/IndexOp.hpp"
#include "mllm/backends/cpu/ops/RoPEOp.hpp"
#include "mllm/backends/cpu/ops/PadOp.hpp"
#include "mllm/backends/cpu/ops/PermuteOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/Scatter2ShardsOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/backends/cpu/ops/SplitOp.hpp"
#include "mllm/backends/cpu/ops/StackOp.hpp"
#include "mllm/backends/cpu/ops/TopKOp.hpp"
#include "mllm/backends/cpu/ops/TransposeOp.hpp"
#include "mllm/backends/cpu/ops/ViewOp.hpp"

using namespace mllm;
using nlohmann::json;
using std::vector;

static DataTypes type;

static void put(char* p, DataTypes t, int v) {
  switch (t) {
    case kFloat32: *(float*)p = (float)v; break;
    case kFloat16: *(mllm_fp16_t*)p = (mllm_fp16_t)(float)v; break;
    case kInt32: *(int32_t*)p = v; break;
    case kInt16: *(int16_t*)p = (int16_t)v; break;
    case kInt64: *(int64_t*)p = v; break;
    default: *(int8_t*)p = (int8_t)v;
  }
}
static int get(const char* p, DataTypes t) {
  float f = 0;
  switch (t) {
    case kFloat32: f = *(const float*)p; break;
    case kFloat16: f = (float)*(const mllm_fp16_t*)p; break;
    case kInt32: return *(const int32_t*)p;
    case kInt16: return *(const int16_t*)p;
    case kInt64: return (int)*(const int64_t*)p;
    default: return *(const int8_t*)p;
  }
  if (f < -60000) return -1;   // masked
  return f == (float)(int)f ? (int)f : -99;
}

template<typename F>
static void each(const vector<int32_t>& shape, F f) {
  vector<int32_t> at(shape.size(), 0);
  for (auto d : shape)
    if (d <= 0) return;
  while (true) {
    f(at);
    int i = (int)shape.size() - 1;
    while (i >= 0 && ++at[i] == shape[i]) at[i--] = 0;
    if (i < 0) return;
  }
}
static json values(Tensor t) {
  json v = json::array();
  each(t.shape(), [&](const vector<int32_t>& at) { v.push_back(get(t.offsettedPtr<char>(at), t.dtype())); });
  return v;
}
static Tensor made(const vector<int32_t>& shape, DataTypes t, const vector<int>& v) {
  auto x = Tensor::empty(shape, t, kCPU).alloc();
  size_t k = 0;
  each(shape, [&](const vector<int32_t>& at) { put(x.offsettedPtr<char>(at), t, v[k++]); });
  return x;
}

// what the dispatcher does with an operation
static vector<Tensor> run(BaseOp& op, vector<Tensor> in) {
  vector<Tensor> out;
  out.reserve(16);
  op.reshape(in, out);
  op.setup(in, out);
  for (auto& o : out) {     // nothing may depend on what the memory held
    bool own = true;
    for (auto& i : in) own = own && o.impl()->storage() != i.impl()->storage();
    if (own && o.ptr<char>()) std::memset(o.impl()->storage()->ptr_, 0x41, o.impl()->storage()->size_);
  }
  op.forward(in, out);
  return out;
}

int main() {
  std::string line;
  std::map<int, Tensor> live;
  int ids = 0;
  while (std::getline(std::cin, line)) {
    json q = json::parse(line), o = {{"outs", json::array()}, {"live", json::array()}};
    std::string op = q["op"];
    auto& a = q["args"];
    vector<Tensor> kept, shown;
    double scale = 0;
    auto T = [&](int i) { return live.at(a[i]); };
    auto many = [&](int i) {
      vector<Tensor> v;
      for (int x : a[i]) v.push_back(live.at(x));
      return v;
    };
    try {
      if (op == "type") {
        type = (DataTypes)(int)a[0];
        live.clear();
        ids = 0;
      } else if (op == "new") {
        kept = {made(a[0], type, a[1])};
      } else if (op == "slice") {
        aops::SliceOpOptions s;
        auto k = [](int x) { return x == 99 ? (int)kAll : x; };
        for (auto& p : a[1]) s.indices_.emplace_back(SliceIndicesPair(k(p[0]), k(p[1]), (int)p[2]));
        cpu::CPUSliceOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "split") {
        aops::SplitOpOptions s;
        s.dim = a[1], s.split_size_or_sections = a[2].get<vector<int32_t>>();
        cpu::CPUSplitOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "view") {
        aops::ViewOpOptions s;
        s.to_shape = a[1].get<vector<int32_t>>();
        cpu::CPUViewOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "contiguous") {
        cpu::CPUContiguousOp x(aops::ContiguousOpOptions{});
        kept = run(x, {T(0)});
      } else if (op == "clone") {
        cpu::CPUCloneOp x(aops::CloneOpOptions{});
        kept = run(x, {T(0)});
      } else if (op == "concat") {
        aops::ConcatOpOptions s;
        s.dim = a[1];
        cpu::CPUConcatOp x(s);
        kept = run(x, many(0));
      } else if (op == "stack") {
        aops::StackOpOptions s;
        s.dim = a[1];
        cpu::CPUStackOp x(s);
        kept = run(x, many(0));
      } else if (op == "gather") {
        aops::GatherOpOptions s;
        s.dim = a[3];
        cpu::CPUGatherOp x(s);
        kept = run(x, {T(0), made(a[1], q["odd"] ? kFloat32 : kInt32, a[2])});
      } else if (op == "repeat") {
        aops::RepeatOpOptions s;
        s.dim = a[1], s.repeat_times = a[2];
        cpu::CPURepeatOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "pad") {
        aops::PadOpOptions s;
        for (auto& p : a[1]) s.pad.push_back(p[0]), s.pad.push_back(p[1]);
        s.mode = (aops::PadMode)(int)a[2], s.value = 77;
        cpu::CPUPadOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "transpose") {
        aops::TransposeOpOptions s;
        s.dim0 = a[1], s.dim1 = a[2];
        cpu::CPUTransposeOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "permute") {
        aops::PermuteOpOptions s;
        s.axis = a[1].get<vector<int32_t>>();
        cpu::CPUPermuteOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "index") {
        aops::IndexOpOptions s;
        auto k = [](int v) { return v == 99 ? (int)kAll : v; };
        for (auto& p : a[1]) {
          vector<int> v(p.begin() + 1, p.end());
          if (p[0] == 0) s.indices_.emplace_back(SliceIndicesPair(k(v[0]), k(v[1]), v[2]));
          else if (p[0] == 1) s.indices_.emplace_back(vector<int32_t>(v));
          else s.indices_.emplace_back(made({(int)v.size()}, kInt32, v));
        }
        cpu::CPUIndexOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "resize") {
        aops::InterpolateOpOptions s;
        auto t = T(0);
        auto sizes = a[1].get<vector<int>>();
        bool times = q["odd"];
        for (size_t i = 0; i < sizes.size(); ++i) times = times && sizes[i] % t.shape()[i + 2] == 0;
        if (times)
          for (size_t i = 0; i < sizes.size(); ++i) s.scale_factor.push_back((float)(sizes[i] / t.shape()[i + 2]));
        else s.size = sizes;
        s.align_corners = a[3];
        using M = aops::InterpolateOpMode;
        s.mode = a[2] == "nearest" ? M::kNearest : a[2] == "cubic" ? M::kBicubic : sizes.size() == 1 ? M::kLinear : sizes.size() == 2 ? M::kBilinear : M::kTrilinear;
        cpu::CPUInterpolateOp x(s);
        if (a[2] == "nearest") kept = run(x, {t});
        else shown = run(x, {t}), scale = a[4];
      } else if (op == "rotate") {
        auto t = T(0);
        bool bhsd = (int)a[1] == 2;
        int all = t.shape()[3], half = ((int)a[2] < 0 ? all : (int)a[2]) / 2, B = t.shape()[0], S = t.shape()[bhsd ? 2 : 1];
        auto table = [&](const vector<int>& v) {   // both halves hold the same
          vector<int> w;
          for (int r = 0; r < B * S; ++r)
            for (int d = 0; d < 2 * half; ++d) w.push_back(v[r * half + d % half]);
          return made({B, S, 2 * half}, t.dtype(), w);
        };
        aops::RoPEOpOptions s;
        s.input_type = bhsd ? aops::RoPEOpOptionsInputType::kBHSD : aops::RoPEOpOptionsInputType::kBSHD;
        s.partial_dim = a[2];
        s.setInplace(a[5]);
        cpu::CPURoPEOp x(s);
        auto out = run(x, {t, table(a[3]), table(a[4])});
        if (!a[5]) shown = out;
      } else if (op == "fill") {
        int size = a[1];
        auto t = Tensor::zeros({size}, kFloat32, kCPU);
        auto p = t.ptr<float>();
        std::memset(p, 0x41, size * sizeof(float));
        if (a[0] == 0) cpu::x86::fill_zeros(p, size, 2);
        else if (a[0] == 1) cpu::x86::fill_ones(p, size, 2);
        else if (a[0] == 2) cpu::x86::fill_specific_value(p, size, (float)(int)a[2], 2);
        else cpu::x86::fill_arange(p, size, (float)(int)a[2], (float)((int)a[2] + size * (int)a[3]), (float)(int)a[3], 2);
        kept = {t};
      } else if (op == "causal") {
        aops::CausalMaskOpOptions s;
        s.sliding_window = (int)a[1] > 0, s.window_size = a[1];
        cpu::CPUCausalMaskOp x(s);
        kept = run(x, {T(0)});
      } else if (op == "argsort") {
        aops::ArgsortOpOptions s;
        s.dim = a[1], s.descending = a[2];
        cpu::CPUArgsortOp x(s);
        shown = run(x, {T(0)});
      } else if (op == "topk") {
        aops::TopKOpOptions s;
        s.dim = a[1], s.k = a[2], s.largest = a[3], s.sorted = a[4];
        cpu::CPUTopKOp x(s);
        shown = run(x, {T(0)});
      } else if (op == "shards") {
        aops::Scatter2ShardsOpOptions s;
        s.dim = a[1];
        cpu::CPUScatter2ShardsOp x(s);
        auto src = T(0);
        auto shape = src.shape();
        int k = shape[s.dim];
        shape.erase(shape.begin() + s.dim);
        if (shape.empty()) shape = {1};
        auto ptrs = Tensor::empty({k}, kInt64, kCPU).alloc();
        for (int i = 0; i < k; ++i) {
          shown.push_back(Tensor::zeros(shape, type, kCPU));
          ptrs.ptr<char*>()[i] = shown.back().ptr<char>();
        }
        vector<Tensor> none;
        x.reshape({src, ptrs}, none);
        x.setup({src, ptrs}, none);
        x.forward({src, ptrs}, none);
      } else if (op == "copy") {
        cpu::CPUCopyOp x(aops::CopyOpOptions{});
        run(x, {T(0), T(1)});
      } else if (op == "scatter") {
        cpu::CPUMaskedScatterOp x(aops::MaskedScatterOpOptions{});
        run(x, {T(0), made(a[1], kInt8, a[2]), T(3)});
      }
    } catch (const std::exception& e) { o["why"] = e.what(); }
    for (auto& t : kept) live[++ids] = t;
    while (live.size() > (size_t)(int)q["keep"]) live.erase(live.begin());
    for (auto& t : shown) {
      o["outs"].push_back({t.shape(), values(t)});
      if (!scale) continue;
      auto& v = o["outs"].back()[1];   // as whole numbers: how often 1/scale
      for (size_t i = 0; i < t.numel(); ++i) {
        double x = t.ptr<float>()[i] * scale, w = std::round(x);
        v[i] = std::abs(x - w) < 0.4 ? json((long)w) : json(x);
      }
    }
    for (auto& [id, t] : live) {
      o["live"].push_back({id, t.shape(), values(t)});
      if (t.dtype() != type) o["live"].back().push_back("type");
    }
    std::cout << "@" << o.dump() << std::endl;
  }
}

"""Adaptor: Tensors.tla on the tensor operations (through harness/cpp/tensors.cpp)."""
import json

from lib import cxx

NAMES = ["Argsort", "CausalMask", "Clone", "Concat", "Contiguous", "Copy", "Gather", "Index", "Interpolate", "MaskedScatter", "Pad", "Permute", "Repeat", "RoPE", "Scatter2Shards", "Slice", "Split", "Stack",
         "TopK", "Transpose", "View"]
SOURCES = [f"mllm/backends/cpu/ops/{x}Op.cpp" for x in NAMES] + [f"mllm/core/aops/{x}Op.cpp" for x in NAMES] + [
    "mllm/backends/cpu/kernels/x86/transpose.cpp", "mllm/backends/cpu/kernels/x86/fill.cpp", "mllm/core/BaseOp.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/core/SlicePrimitives.cpp", "mllm/core/DeviceTypes.cpp", "mllm/utils/Log.cpp"]
TYPES = dict(f32=0, f16=1, i8=16, i16=17, i32=18, i64=132)


def build():
    """The intermediate representation is not built: only tracing would call it."""
    avx = ["-mavx2", "-mfma", "-mf16c"] if "avx2" in open("/proc/cpuinfo").read() else []
    return cxx.build("tensors", ["tensors.cpp", "tensor_stub.cpp"], SOURCES,
                     flags=[f"-I{cxx.VERIF}/harness/cpp/stubs", "-fno-sanitize=vptr", "-Wl,--unresolved-symbols=ignore-all", *avx])


class Tensors:
    def __init__(self, d, type, keep):
        self.d, self.keep, self.i = d, keep, 0
        self.step("type", [TYPES[type]])

    def step(self, op, a):
        self.i += 1
        return self.d.ask(json.dumps(dict(op=op, args=a, keep=self.keep, odd=bool(self.i % 2))))

"""Adaptor: KvCache.tla on the key/value cache of the C++ models (through harness/cpp/kvcache.cpp)."""
import json

from lib import cxx

SOURCES = ["mllm/nn/lmcache/StaticCache.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/core/SlicePrimitives.cpp",
           "mllm/core/DeviceTypes.cpp", "mllm/utils/Log.cpp"]
F32, F16, Q4_0, I8 = 0, 1, 2, 16
TAGS = 250


def build():
    return cxx.build("kvcache", ["kvcache.cpp", "tensor_stub.cpp"], SOURCES)


class KvCache:

    def __init__(self, d, n, layers, rows, q, kv, dim, kt, vt, direct=False, other=False):
        self.d, self.i, self.direct = d, n, direct
        d.ask(json.dumps(dict(op="new", max=rows, layers=layers, q=q, kv=kv, dim=dim, kt=kt, vt=vt, fa2=direct, other=other, moved=n % 3 == 0, tags=TAGS)))

    def step(self, op, a):
        self.i += 1
        line = {"reserve": lambda: dict(layer=a[0] - 1, tags=a[1]), "append": lambda: dict(layer=a[0] - 1, tags=a[1], way=self.i % 5), "subappend": lambda: dict(sub=a[0] - 1, layer=a[1] - 1, tags=a[2], way=self.i % 5),
                "cut": lambda: dict(n=a[0]), "clear": dict, "sub": lambda: dict(start=a[0], len=a[1]), "drop": dict, "subclear": lambda: dict(sub=a[0] - 1)}[op]()
        return self.d.ask(json.dumps(dict(op=op, **line)))

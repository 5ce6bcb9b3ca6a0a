"""Real model files: the writers in C++ and Python, the C++ readers (see harness/cpp/modelfile.cpp)."""
import importlib
import io
import json
import os
import random
import struct
import sys
import types

import numpy as np
import torch

from lib import cxx
from lib.report import REPO

SRC = ["mllm/core/ParameterFile.cpp", "mllm/core/MappedFile.cpp", "mllm/core/DataTypes.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/utils/Log.cpp"]
ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=0")

# number -> (elements, bytes) of a block, torch type, numpy type
TYPES = {0: (1, 4, torch.float32, np.float32), 1: (1, 2, torch.float16, np.float16), 128: (1, 2, torch.bfloat16, None),
         16: (1, 1, torch.int8, np.int8), 17: (1, 2, torch.int16, np.int16), 18: (1, 4, torch.int32, np.int32), 132: (1, 8, torch.int64, np.int64),
         129: (1, 1, torch.uint8, np.uint8), 130: (1, 2, torch.uint16, None), 131: (1, 4, None, None), 133: (1, 8, None, None), 134: (1, 1, None, None),
         2: (32, 18, None, None), 8: (32, 34, None, None), 12: (256, 144, None, None), 201: (1, 8, None, np.complex64), 202: (1, 16, None, np.complex128)}


def build():
    return (cxx.build("modelfile", ["modelfile.cpp", "tensor_stub.cpp"], SRC, flags=["-fno-sanitize=alignment"]),
            cxx.build("modelfile_plain", ["modelfile.cpp", "tensor_stub.cpp"], SRC, san=False))


def writer():
    """The Python writer; what it imports of the native library is not needed."""
    for n in ("pymllm", "pymllm.mobile"):
        if n not in sys.modules:
            m = types.ModuleType(n)
            m.__path__ = [os.path.join(REPO, *n.split("."))]
            sys.modules[n] = m
    if "pymllm.mobile.ffi" not in sys.modules:
        m = types.ModuleType("pymllm.mobile.ffi")
        m.Tensor, m.MLLM_FIND_NUMPY_AVAILABLE, m.MLLM_FIND_TORCH_AVAILABLE = type("Tensor", (), {}), True, True
        sys.modules["pymllm.mobile.ffi"] = m
    return importlib.import_module("pymllm.mobile.convertor.model_file_v2").ModelFileV2


def content(item):
    data = random.Random(item["name"] + str(item["type"])).randbytes(item["size"])
    return data


def elements(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def as_object(item):
    """The tensor to hand to the Python writer."""
    data, shape, how = content(item), item["shape"], item["how"]
    ty = TYPES.get(item["type"])
    if how == "unsupported":
        return torch.zeros(shape, dtype=torch.float64)
    if how == "np_unsupported":
        return np.zeros(shape, dtype=np.float64)
    if how == "not a tensor":
        return [1, 2]
    if how.startswith("np"):
        a = np.frombuffer(data, dtype=ty[3]).reshape(shape)
        if how == "np_fortran":
            return np.asfortranarray(a)
        if how == "np_swapped":
            return a.astype(a.dtype.newbyteorder(">"))
        return a
    t = torch.frombuffer(bytearray(data), dtype=torch.uint8).view(ty[2]).reshape(shape) if data else torch.empty(shape, dtype=ty[2])
    if how == "strided":
        r = list(range(len(shape)))[::-1]
        return t.permute(r).contiguous().permute(r)
    if how == "part":
        big = torch.cat([t, t]) if data else t
        return big[: shape[0]]
    return t


def hx(s):
    return (s.encode() if isinstance(s, str) else s).hex()


class File:
    def __init__(self, items, dirname, d, plain, step):
        self.items, self.dir, self.d, self.plain, self.step_ = items, dirname, d, plain, step
        os.makedirs(dirname, exist_ok=True)
        self.path = os.path.join(dirname, "model.mllm")
        self.other = os.path.join(dirname, "other.mllm")
        self.n = 0
        self.layouts = []

    def open(self, kind, cap):
        self.kind, self.cap = kind, cap
        for p in (self.path, self.other):
            if os.path.exists(p):
                os.unlink(p)
        self.put, self.w, self.ended = [], None, False
        self.version = 1 if kind == "cpp1" else 2
        self.log = []
        if kind.startswith("py"):
            sys.modules[writer().__module__].open = self.recorded
        if kind == "pystream":
            self.w = writer()(self.path, "model", "Streaming", max_params_descriptor_buffer_num=cap)
        elif kind == "pyall":
            self.w = writer()(self.path, "model")
        return dict(k="done")

    def cpp(self):
        return self.d.ask(json.dumps(dict(op="write", version=self.version, path=self.path, items=[
            dict(name=hx(self.items[i]["name"]), label=hx(self.items[i]["label"]), type=self.items[i]["type"], shape=self.items[i]["shape"],
                 data=hx(content(self.items[i]))) for i in self.put])))

    def step(self, op, a):
        return getattr(self, "do_" + op)(**a)

    def do_put(self, i):
        it = self.items[i - 1]
        i -= 1
        if self.kind == "pystream":
            try:
                self.w.streaming_write(it["name"], as_object(it))
                return dict(k="done")
            except (AssertionError, ValueError, KeyError, TypeError, struct.error) as e:
                return dict(k="refused", why=repr(e))
        if any(self.items[j]["name"] == it["name"] for j in self.put):
            if self.kind == "pyall":
                return dict(k="any")        # no dictionary holds both
            self.put.append(i)
            r = self.cpp()
            return r
        self.put.append(i)
        return dict(k="done")

    def do_finish(self, c):
        if self.kind == "pystream":
            self.w.finalize()
            return dict(k="done")
        if self.kind == "pyall":
            try:
                self.w.static_write({self.items[i]["name"]: as_object(self.items[i]) for i in self.put})
                self.w.finalize()
                return dict(k="done")
            except (AssertionError, ValueError, KeyError, TypeError, struct.error) as e:
                return dict(k="refused", why=repr(e))
        return self.cpp()

    def read(self, path, mapped, version=None):
        r = self.d.ask(json.dumps(dict(op="read", path=path, version=version or self.version, mapped=mapped)))
        return r

    def bytes_now(self):
        return open(self.path, "rb").read() if os.path.exists(self.path) else b""

    def other_with(self, data):
        with open(self.other, "wb") as f:
            f.write(data)
        return self.other

    def do_look(self, mapped):
        r = self.read(self.path, mapped)
        if r["k"] == "ok":
            self.layouts.append(self.layout(self.bytes_now()))
        return r

    def needed(self, d):
        """The bytes without which something in the file is lost."""
        lay = self.layout(d)
        table = self.table(d)
        return max([x["at"] + x["size"] for x in lay if x["size"]] + [table + 0])

    def table(self, d):
        if self.version == 1:
            return 12 + struct.unpack("<Q", d[4:12])[0]
        count, at = struct.unpack("<IQ", d[520:532])
        return at + 352 * count

    def do_cut(self, at, by, mapped):
        d = self.bytes_now()
        lay = self.layout(d)
        head, table = (12, self.table(d)) if self.version == 1 else (532, self.table(d))
        first = lay[0]["at"] + lay[0]["size"] if lay else table
        place = dict(start=0, head=head, table=table, data=lay[0]["at"] if lay else table, first=first, middle=(table + len(d)) // 2, end=len(d))[at] + by
        place = min(max(place, 0), len(d))
        r = self.read(self.other_with(d[:place]), mapped)
        return dict(r, k=f"cut to {place} of {len(d)} bytes and read") if place < self.needed(d) and r["k"] == "ok" else r

    def do_cutall(self, mapped):
        data = self.bytes_now()
        size, needed = len(data), self.needed(data)
        first = 12 if self.kind == "cpp1" else 532
        edges = {0, 1, first - 1, first, needed - 1, needed - 2, size - 1}
        ls = sorted({x for x in range(size) if x % self.step_ == self.n % self.step_} | {x for x in edges if 0 <= x < size}, reverse=True)
        self.n += 1
        r = self.plain.ask(json.dumps(dict(op="prefixes", path=self.other_with(data), version=self.version, mapped=mapped, lengths=ls)), timeout=120)
        if r["broken"]:
            return dict(k=f"cut to {r['broken'][0]['at']} bytes: {r['broken'][0]['how']}")
        for t in r["taken"]:
            if t["at"] < needed:
                return dict(k=f"cut to {t['at']} of {size} bytes and read")
        return dict(k="refused")

    def do_died(self, mapped):
        image, out, seen = bytearray(), [], set()
        for off, data in self.log:
            for n in sorted({len(data) // 2, len(data) - 1, len(data), min(5, len(data)), min(521, len(data)), min(525, len(data))}):
                d = bytearray(image)
                if len(d) < off:
                    d.extend(bytes(off - len(d)))
                d[off:off + n] = data[:n]
                if n == len(data):
                    image = d
                if bytes(d) not in seen:
                    seen.add(bytes(d))
                    out.append(self.plain.ask(json.dumps(dict(op="read", path=self.other_with(bytes(d)), version=2, mapped=mapped))))
        return dict(k="images", images=out)

    def do_moved(self, how, mapped):
        """The same tensors as another program may lay them out."""
        d = self.bytes_now()
        lay, table, offs = self.layout(d), self.table(d), []
        p = 12 if self.version == 1 else struct.unpack("<Q", d[524:532])[0]
        start = p
        for x in lay:
            if self.version == 1:
                offs.append((p + len(x["name"]) // 2 + 12, x))
                p += 24 + len(x["name"]) // 2
            else:
                offs.append((p + 16, x))
                p += 352
        head, index = bytearray(d[:start]), bytearray(d[start:table])
        gap = b"\xee" * 40 if how == "gap" else b""
        order = offs[::-1] if how == "backwards" else offs
        at = len(head) + (0 if how == "table_last" else len(gap) + len(index))
        data = b""
        for q, x in order:
            data += b"\xdd" * ((-(at + len(data))) % 64 + 3 if how == "padded" else 0)
            index[q - start:q - start + 8] = struct.pack("<Q", at + len(data))
            data += d[x["at"]:x["at"] + x["size"]]
        if self.version == 2:
            head[524:532] = struct.pack("<Q", at + len(data) if how == "table_last" else len(head) + len(gap))
        return self.read(self.other_with(bytes(head + data + index if how == "table_last" else head + gap + index + data)), mapped)

    def do_damage(self, how, mapped):
        d = bytearray(self.bytes_now())
        v1 = self.version == 1

        def at(p, fmt, v):
            d[p:p + struct.calcsize(fmt)] = struct.pack(fmt, v)
        version = self.version
        big = len(d) + 1
        if v1:
            p = 12
            lay = self.layout(d)
            for x in lay:
                e = p + 4 + len(x["name"]) // 2                       # data_len, offset, dtype
                where = dict(size=e, offset=e + 8)
                if x["size"] or x is lay[-1]:
                    break
                p = e + 20
        else:
            lay = self.layout(d)
            p = 532 + 352 * next((i for i, x in enumerate(lay) if x["size"]), 0)
            where = dict(size=p + 8, offset=p + 16, shapelen=p + 24, shape=p + 32)
        if how == "magic":
            at(0, "<I", 0x12345678)
        elif how == "version":
            at(4, "<I", 3)
        elif how == "other_format":
            version = 3 - version
        elif how == "garbage":
            d[:] = random.Random(len(d)).randbytes(len(d))
        elif how == "zeros":
            d[:] = bytes(len(d))
        elif how == "index_huge":
            at(4, "<Q", len(d) - 11)
        elif how == "index_short":
            at(4, "<Q", struct.unpack("<Q", d[4:12])[0] - 1)
        elif how == "name_huge":
            at(12, "<I", 2 ** 32 - 1)
        elif how == "count_more":
            at(520, "<I", len(d) // 352 + 1)
        elif how == "count_huge":
            at(520, "<I", 2 ** 32 - 1)
        elif how == "table_far":
            at(524, "<Q", len(d) + 100)
        elif how == "table_wrap":
            at(4 if v1 else 524, "<Q", 2 ** 64 - 8)
        elif how == "table_early":
            at(524, "<Q", 0)
        elif how == "offset_far":
            at(where["offset"], "<Q", big)
        elif how == "offset_wrap":
            at(where["offset"], "<Q", 2 ** 64 - 4)
            if struct.unpack("<Q", d[where["size"]:where["size"] + 8])[0] == 0:
                at(where["offset"], "<Q", big)
        elif how == "size_huge":
            at(where["size"], "<Q", 2 ** 64 - 2 if v1 else 2 ** 63)
        elif how == "size_small":
            at(where["size"], "<Q", struct.unpack("<Q", d[where["size"]:where["size"] + 8])[0] - 1)
        elif how == "shape_long":
            at(where["shapelen"], "<Q", 17)
        elif how == "shape_negative":
            at(where["shapelen"], "<Q", 2)
            at(where["shape"], "<i", -1)
            at(where["shape"] + 4, "<i", -1)
        elif how == "shape_wrap":
            at(where["shapelen"], "<Q", 16)
            for j in range(16):
                at(where["shape"] + 4 * j, "<i", 1 << 30)
        elif how == "shape_more":
            at(where["shapelen"], "<Q", 2)
            at(where["shape"], "<i", 1 << 20)
            at(where["shape"] + 4, "<i", 1 << 20)
        else:
            raise ValueError(how)
        return self.read(self.other_with(bytes(d)), mapped, version)

    def layout(self, d):
        """Where everything is, read with nothing but the format's description."""
        out = []
        if self.version == 1:
            magic, size = struct.unpack("<iQ", d[:12])
            p, data = 12, 12 + size
            while p < data:
                n = struct.unpack("<i", d[p:p + 4])[0]
                name = d[p + 4:p + 4 + n]
                ln, off, ty = struct.unpack("<QQi", d[p + 4 + n:p + 24 + n])
                out.append((name, off, ln))
                p += 24 + n
        else:
            magic, ver, _, count, at = struct.unpack("<II512sIQ", d[:532])
            data = at + 352 * count
            for i in range(count):
                x = struct.unpack("<IIQQQ16i256s", d[at + 352 * i:at + 352 * (i + 1)])
                out.append((x[-1].split(b"\0")[0], x[3], x[2]))
        return [dict(name=n.hex(), at=o, size=s, data=data, total=len(d)) for n, o, s in out]

    def recorded(self, path, mode="r", *args, **kw):
        """Stands in for open() in the writer's module: remembers what reaches the file, in order."""
        log = self.log

        class Raw(io.FileIO):
            def write(self, b):
                at = self.tell()
                n = super().write(b)
                log.append((at, bytes(b[:n])))
                return n
        return io.BufferedWriter(Raw(path, "w")) if mode == "wb" else open(path, mode, *args, **kw)

    def close(self):
        if self.w is not None:
            self.w.file_handler.close()


def fault(want, got, items):
    if want["k"] == "any":
        return None
    if want["k"] == "images" and got["k"] == "images":
        for n, g in enumerate(got["images"]):
            if g["k"] != "refused" and all(fault(dict(k="ok", items=w), g, items) for w in want["items"]):
                return f"after {n} steps of the writer the file reads as {str(g)[:200]}"
        return None
    if want["k"] == "cut" and got["k"] == "refused":
        return None
    if want["k"] in ("ok", "cut"):
        if got["k"] != "ok":
            return f"expected to be read, got {str(got)[:200]}"
        need = {hx(items[e["i"] - 1]["name"]): e for e in want["items"]}
        have = {}
        for g in got["items"]:
            if g["name"] in have or g["name"] not in need:
                return f"read a tensor {bytes.fromhex(g['name'])[:60]!r}"
            have[g["name"]] = g
        for n, e in need.items():
            g = have.get(n)
            if g is None:
                return f"tensor {bytes.fromhex(n)[:60]!r} is missing"
            data = hx(content(items[e["i"] - 1]))
            if g["type"] != e["type"] or list(g["shape"]) != list(e["shape"]) or not g["has"]:
                return f"tensor {bytes.fromhex(n)[:60]!r}: type {g['type']} shape {g['shape']}, expected {e['type']} {list(e['shape'])}"
            if g["data"] != data:
                return f"tensor {bytes.fromhex(n)[:60]!r}: {g['data'][:40]}.. ({g['size']} bytes), expected {data[:40]}.. ({len(data) // 2} bytes)"
        return None
    if got["k"] != want["k"]:
        return f"expected {want['k']}, got {str(got)[:300]}"
    return None

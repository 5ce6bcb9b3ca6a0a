"""The CUDA-IPC tensor pool on a machine without a GPU.

The module's view of torch gets CPU stand-ins for the handful of CUDA calls it
makes (device selection, exporting and opening a storage handle); everything
else, the pool, its recycler thread, the proxies and the sync flags, is real.
"""
import contextlib
import threading
import time as real_time
import types

import torch

from pymllm.orchestrator import cuda_ipc_transport as cit

_exported = {}


def _share(self, *a, **k):
    _exported[self.data_ptr()] = self
    return (self.data_ptr(),)


class _UntypedStorage:
    @staticmethod
    def _new_shared_cuda(*h):
        return _exported[h[0]]


class _Torch(types.ModuleType):
    def __getattr__(self, k):
        return getattr(torch, k)


def _cpu(f):
    def g(*a, **k):
        if "cuda" in str(k.get("device")):
            k["device"] = "cpu"
        return f(*a, **k)
    return g


class Clock(types.ModuleType):
    """time, for the recycler: sleeps are short and counted."""

    def __init__(self):
        super().__init__("time")
        self.turns = {}

    def sleep(self, s):
        me = threading.get_ident()
        self.turns[me] = self.turns.get(me, 0) + 1
        real_time.sleep(s if s < 0.01 else 0.0002)

    def __getattr__(self, k):
        return getattr(real_time, k)


def install():
    t = _Torch("torch")
    t.cuda = types.SimpleNamespace(device=lambda *a, **k: contextlib.nullcontext(), is_available=lambda: True,
                                   synchronize=lambda *a, **k: None, current_device=lambda: 0)
    t.empty, t.zeros = _cpu(torch.empty), _cpu(torch.zeros)
    t.device = lambda *a, **k: torch.device("cpu")
    t.UntypedStorage = _UntypedStorage
    cit.torch = t
    cit.time = Clock()
    torch.UntypedStorage._share_cuda_ = _share
    return cit


class Gpu(torch.Tensor):
    """A CPU tensor that says it is on the GPU."""
    is_cuda = property(lambda self: True)

    @staticmethod
    def of(t):
        return t.as_subclass(Gpu)


def plain(t):
    return t.as_subclass(torch.Tensor)


def settle(pool, turns=3):
    """Let the recycler go round a few times."""
    me = pool._recycler.ident
    t0, end = cit.time.turns.get(me, 0), real_time.time() + 10
    while cit.time.turns.get(me, 0) < t0 + turns:
        if real_time.time() > end:
            raise AssertionError("recycler thread does not run")
        real_time.sleep(0.0001)

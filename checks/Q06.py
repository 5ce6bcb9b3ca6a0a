"""Q06: the pooled tensor transport never overwrites data in use.  Specs: ShmPool, ShmPoolTrace."""
import pickle
import random
import threading

import torch

from harness.py import ipcpool
from lib import cover, report, tlc

cit = ipcpool.install()
from pymllm.orchestrator.shared_memory_queue import TensorQueue  # noqa: E402

DT = [torch.float32, torch.int64, torch.uint8, torch.float16, torch.bool, torch.bfloat16]


class Direct:
    """Chunks taken with get_slice_with_flag; readers signal through the sync flag."""

    def __init__(self, logs, n, readers):
        self.pool = cit.MmItemMemoryPool(n, recycle_interval=0.0002, num_consumers=readers, device=0)
        self.base = self.pool.memory_pool.data_ptr()
        self.readers = readers
        self.live, self.k, self.n = [], 0, n
        self.log = [dict(op="init", n=n, readers=readers)]
        logs.append(self.log)

    def step(self, op, args):
        if op == "take":
            self.k += 1
            n = args["n"]
            meta, sl = self.pool.get_slice_with_flag(torch.empty(n, dtype=torch.uint8))
            ok = sl is not None
            lo = sl.data_ptr() - self.base if ok else 0
            hi = lo + (sl.numel() if ok else 0)
            self.log.append(dict(op="take", n=n, ok=ok, lo=lo, hi=hi, id=self.k, settled=True))
            if ok:
                val = self.k % 120 + 1
                sl.fill_(val)
                self.live.append([self.k, meta, sl, val, self.readers])
        elif op == "signal" and args["i"] <= len(self.live):
            c = self.live[args["i"] - 1]
            self.log.append(dict(op="read", same=bool((c[2] == c[3]).all())))
            self.log.append(dict(op="signal", id=c[0]))
            cit._increment_sync_flag(c[1])
            c[4] -= 1
            if c[4] == 0:
                self.live.remove(c)
            ipcpool.settle(self.pool)
        return dict(n=0)

    def close(self):
        # with every reader done the pool is one free chunk
        while self.live:
            self.step("signal", dict(i=1))
        self.step("take", dict(n=self.n))
        self.pool.shutdown()


class Queue(Direct):
    """Tensors of any type and layout sent through wrap / pickle / unwrap."""

    def __init__(self, logs, n, rnd):
        super().__init__(logs, n * 16, 1)
        self.rnd = rnd
        self.send_q = TensorQueue(transport_mode="cuda_ipc_pool", pool=self.pool)
        got = self.got = []
        slices, take = [], self.pool.get_slice_with_flag
        self.slices = slices

        def recorded(src):
            meta, sl = take(src)
            if sl is not None:
                slices.append(sl)
            return meta, sl
        self.pool.get_slice_with_flag = recorded

        class Q:                       # the pipe between the processes
            def put(self, x, *a, **k):
                got.append(pickle.dumps(x))
        self.send_q._queue = Q()

    def tensor(self, n):
        r, dt = self.rnd, self.rnd.choice(DT)
        k = max(n * 16 // torch.empty(0, dtype=dt).element_size(), 1)
        t = torch.randint(0, 2 if dt == torch.bool else 100, (k,)).to(dt)
        shape = r.choice(("flat", "grid", "transposed", "strided", "scalar", "offset"))
        if shape == "grid":
            t = t.view(-1, 2) if k % 2 == 0 else t.view(1, -1, 1)
        elif shape == "transposed" and k % 2 == 0:
            t = t.view(-1, 2).t()
        elif shape == "strided":
            t = torch.stack([t, t], dim=1)[:, 0]
        elif shape == "scalar" and n == 1:
            t = t[0].clone()
        elif shape == "offset":
            t = torch.cat([t, t])[k // 2:k // 2 + k]
        return t

    def step(self, op, args):
        if op == "take":
            self.k += 1
            t = self.tensor(args["n"])
            mm = dict(pixel_values=ipcpool.Gpu.of(t.clone(memory_format=torch.preserve_format)), grid=[(1, 2), "x", None])
            before = len(self.got)
            self.send_q.put(f"r{self.k}", "seg", mm)
            assert len(self.got) == before + 1, "nothing was put into the queue"
            mm["pixel_values"].fill_(0)          # the sender may reuse its tensor once it is sent
            msg = self.got.pop()
            p = pickle.loads(msg)[2]["pixel_values"]
            pooled = isinstance(p, cit.CudaIpcTensorTransportProxy)
            if pooled:
                sl = self.slices.pop()
                lo, nb = sl.data_ptr() - self.base, t.numel() * t.element_size()
                self.log.append(dict(op="take", n=nb, ok=True, lo=lo, hi=lo + sl.numel(), id=self.k, settled=True))
                self.live.append([self.k, msg, t])
            else:
                self.log.append(dict(op="take", n=t.numel() * t.element_size(), ok=False, lo=0, hi=0, id=self.k, settled=True))
                x = cit.unwrap_mm_inputs_from_ipc(pickle.loads(msg)[2])["pixel_values"]
                self.log.append(dict(op="read", same=x.shape == t.shape and x.dtype == t.dtype and torch.equal(ipcpool.plain(x), t)))
        elif op == "signal" and args["i"] <= len(self.live):
            k, msg, t = self.live.pop(args["i"] - 1)
            rid, seg, mm = pickle.loads(msg)
            self.log.append(dict(op="signal", id=k))
            got = cit.unwrap_mm_inputs_from_ipc(mm)
            x = ipcpool.plain(got["pixel_values"])
            same = (rid, seg) == (f"r{k}", "seg") and got["grid"] == [(1, 2), "x", None] and x.shape == t.shape \
                and x.dtype == t.dtype and torch.equal(x, t)
            self.log.append(dict(op="read", same=bool(same)))
            ipcpool.settle(self.pool)
        return dict(n=0)

    def close(self):
        while self.live:
            self.step("signal", dict(i=1))
        self.n = 1
        meta, sl = self.pool.get_slice_with_flag(torch.empty(self.pool.memory_pool.numel(), dtype=torch.uint8))
        self.log.append(dict(op="take", n=self.pool.memory_pool.numel(), ok=sl is not None, lo=0,
                             hi=self.pool.memory_pool.numel() if sl is not None else 0, id=0, settled=True))
        self.pool.shutdown()


def run(ctx, name, consts, make, sims, depth):
    logs = []
    r = tlc.explore("ShmPool", consts, invariants=["Disjoint", "InPool", "WholeAgain"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed, max_len=70)
    n = len(paths)
    paths += tlc.simulate("ShmPool", dict(consts, MaxLive=7), depth=depth, num=sims, seed=ctx.seed)
    report.replay(ctx, name, paths, lambda: make(logs))
    bad, st = tlc.validate("ShmPoolTrace", logs, invariants=["Disjoint"])
    ctx.cov["states"] += st["states"]
    ctx.cov["transitions"] += st["generated"]
    for i, k in bad[:3]:
        ctx.violation(f"{name}: chunk use breaks the contract at {logs[i][k] if k < len(logs[i]) else None}",
                      dict(trace=logs[i][:k + 1]))
    ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions, {n} covering paths, {len(logs)} runs validated")


def threads(ctx, rounds):
    """Senders and readers in threads, beside the recycler: contents and events, validated afterwards."""
    logs = []
    for k in range(rounds):
        pool = cit.MmItemMemoryPool(97, recycle_interval=0.0, num_consumers=1, device=0)
        base = pool.memory_pool.data_ptr()
        log, lock, box = [dict(op="init", n=97, readers=1)], threading.Lock(), []
        rnd = random.Random(ctx.seed * 100 + k)
        todo = [[rnd.randint(1, 30) for _ in range(40)] for _ in range(3)]
        over = threading.Event()

        def send(me):
            for j, n in enumerate(todo[me]):
                meta, sl = pool.get_slice_with_flag(torch.empty(n, dtype=torch.uint8))
                ident = me * 1000 + j
                if sl is not None:
                    lo = sl.data_ptr() - base
                    with lock:
                        log.append(dict(op="take", n=n, ok=True, lo=lo, hi=lo + sl.numel(), id=ident, settled=False))
                    val = ident % 113 + 1
                    sl.fill_(val)
                    box.append((ident, meta, sl, val))

        def read():
            while not over.is_set() or box:
                try:
                    ident, meta, sl, val = box.pop(rnd.randrange(len(box)))
                except (IndexError, ValueError):
                    continue
                same = bool((sl == val).all())
                with lock:
                    log.append(dict(op="read", same=same))
                    log.append(dict(op="signal", id=ident))
                cit._increment_sync_flag(meta)
        ts = [threading.Thread(target=send, args=(i,)) for i in range(3)]
        rd = [threading.Thread(target=read) for _ in range(2)]
        with report.deadline(60):
            for t in ts + rd:
                t.start()
            for t in ts:
                t.join()
            over.set()
            for t in rd:
                t.join()
            ipcpool.settle(pool)
        meta, sl = pool.get_slice_with_flag(torch.empty(97, dtype=torch.uint8))
        log.append(dict(op="take", n=97, ok=sl is not None, lo=0, hi=97 if sl is not None else 0, id=-1, settled=True))
        pool.shutdown()
        logs.append(log)
    bad, st = tlc.validate("ShmPoolTrace", logs, invariants=["Disjoint"])
    ctx.cov["states"] += st["states"]
    for i, k in bad[:3]:
        ctx.violation(f"threads: chunk use breaks the contract at {logs[i][k] if k < len(logs[i]) else None}",
                      dict(trace=logs[i][max(0, k - 30):k + 1]))
    ctx.add_traces(len(logs) - len(bad))


def body(ctx):
    n, d = ctx.pick(40, 400), ctx.pick(60, 150)
    rnd = random.Random(ctx.seed)
    small = dict(N=7, Readers=1, Sizes={1, 2, 3, 5}, MaxLive=ctx.pick(3, 4))
    jobs = [(run, ("slices", small, lambda logs: Direct(logs, 7, 1), n, d), {}),
            (run, ("two readers", dict(small, Readers=2, N=6, Sizes={1, 2, 4}, MaxLive=3), lambda logs: Direct(logs, 6, 2), n, d), {}),
            (run, ("tensors", small, lambda logs: Queue(logs, 7, rnd), n, d), {}),
            (threads, (ctx.pick(10, 100),), {})]
    ctx.parallel(jobs)
    ctx.assumptions.append("CUDA calls (device memory, IPC handles) are stand-ins on CPU memory; GPU stream ordering is not covered")


if __name__ == "__main__":
    report.main("Q06", body)

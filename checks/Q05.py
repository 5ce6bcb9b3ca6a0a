"""Q05: shared-memory hand-over.  Specs: ShmTransport, ShmOrder."""
import multiprocessing as mp
import os
import queue
import random
import tempfile
import threading
import time

from multiprocessing import shared_memory

import torch


class Recorder(shared_memory.SharedMemory):
    """Shared memory whose creations are written down, in whichever process they happen."""
    book = None

    def __init__(self, name=None, create=False, size=0, **kw):
        super().__init__(name=name, create=create, size=size, **kw)
        if create and Recorder.book:
            with open(Recorder.book, "a") as f:
                f.write(self.name.lstrip("/") + "\n")

    @staticmethod
    def alive():
        with open(Recorder.book) as f:
            return {n for n in f.read().split() if os.path.exists("/dev/shm/" + n)}


shared_memory.SharedMemory = Recorder


def new_book():
    fd, Recorder.book = tempfile.mkstemp(prefix="q05-")
    os.close(fd)


from harness.py import serve  # noqa: E402
from lib import cover, report, tlc
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.orchestrator import scheduler_process as sp
from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager, TensorQueue


def payload(kind, i):
    """The request of a kind: metadata fields and multimodal inputs."""
    g = torch.Generator().manual_seed(i)
    meta = dict(input_text=f"t{i}", input_ids=[i, i + 1], sampling_params=dict(temperature=0.5, top_k=i), stream=bool(i % 2))
    mm = None
    if kind == "large":
        meta["input_ids"] = list(range(i, i + 30000))
        meta["input_text"] = "\u4f60\u597d \U0001f600 " * 2000
        mm = dict(image_inputs=dict(pixel_values=torch.randn(64, 333, generator=g), image_grid_thw=torch.tensor([[1, 2, i]])))
    elif kind == "shapes":
        mm = dict(a=torch.tensor(3.5 + i), b=torch.empty(0, 3), c=torch.arange(12 + i).view(3, -1).t() if i % 3 == 0 else torch.arange(20)[::2],
                  d=[torch.ones(2, 2, dtype=torch.bfloat16) * i, (torch.tensor([True, False]), "s", None, 7)], e=torch.arange(4, dtype=torch.uint8)[1:3],
                  f=dict(g=torch.zeros(1, 1, 1, 5, dtype=torch.int64) + i))
    elif kind == "empty":
        meta.update(input_text="", input_ids=[], sampling_params={})
        mm = {}
    elif kind == "session":
        meta.update(session_params=dict(id="s", n=[1, {"x": None}]), lora_path="p", return_logprob=True, logprob_start_len=3, top_logprobs_num=2)
    return meta, mm


def equal(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b


class Adapter:
    """TokenizerProcess -> TensorQueue -> SchedulerProcess, without the processes around them."""
    tokens = 0

    def __init__(self, limit, odd):
        self.q = TensorQueue(maxsize=limit)
        self.odd = odd                     # request ids as a user might choose them
        self.t = serve.make_tokenizer(self.q)
        self.s = sp.SchedulerProcess("", "", "", shared_queue=self.q, enable_shared_queue=True, tensor_transport_mode="default")
        self.names, self.want = {}, {}
        Adapter.tokens += 1
        self.tag = f"q5-{os.getpid()}x{Adapter.tokens}x"
        new_book()

    def mine(self):
        return Recorder.alive()

    def rid(self, i):
        if not self.odd:
            return f"{self.tag}r{i}"
        # neighbours differ in little
        t = self.tag
        return (f"a/b/../{t}", f"a.b/../{t}", "x" * 300 + t + "1", "x" * 300 + t + "2", f"\u4f60 {t}", f"\u597d {t}", f"{t}\n", f"{t}\t")[i % 8] + str(i // 8)

    def send(self, i, p):
        meta, mm = payload(p, i)
        req = TokenizedGenerateReqInput(rid=self.rid(i), mm_inputs=mm, **meta)
        now = self.mine()
        self.t._send_via_shared_queue(req)
        new = self.mine() - now
        self.names[i] = new.pop() if len(new) == 1 else None
        self.want[i] = (p, meta, payload(p, i)[1])

    def settled(self):
        return len(self.mine())

    def read(self, req):
        """The id of the request that arrived, with its kind when it is intact."""
        for i, (p, meta, mm) in self.want.items():
            if req.rid == self.rid(i):
                ok = all(equal(getattr(req, k), v) for k, v in meta.items()) and equal(req.mm_inputs, mm)
                return dict(id=i, p=p if ok else "damaged")
        return dict(id=0, p=f"unknown {req.rid!r}")

    def take(self):
        """One element, the way the scheduler reads it."""
        rid, name, mm = self.q.get(timeout=10)
        try:
            meta = SharedMemoryManager.read_metadata(name, unlink=True)
        except FileNotFoundError:
            return [], True
        meta.mm_inputs = mm
        if meta.rid != rid:
            return [dict(id=0, p="wrong id")], False
        return [self.read(meta)], False

    def takeall(self, n):
        out, end = [], time.time() + 10
        # the queue's feeder thread may still be at work, and a faulty element ends a round
        while True:
            self.s._recv_from_shared_queue()
            while self.s._waiting_queue:
                out.append(self.read(self.s._waiting_queue.popleft()))
            if self.q.empty() and self.q.qsize() == 0 or time.time() > end:
                break
        return out

    def step(self, op, args):
        if op == "send":
            self.send(args["id"], args["p"])
        elif op == "wait":
            th = threading.Thread(target=self.send, args=(args["id"], args["p"]), daemon=True)
            th.start()
            th.join(0.003)
            assert th.is_alive(), "a full queue took another request"
            got, err = self.take()
            th.join(10)
            assert not th.is_alive(), "the sender is still waiting"
            return dict(got=got, error=err, segs=self.settled())
        elif op == "take":
            got, err = self.take()
            return dict(got=got, error=err, segs=self.settled())
        elif op == "takeall":
            return dict(got=self.takeall(args["n"]), segs=self.settled())
        elif op == "vanish":
            name = self.names[args["id"]]
            assert name, "the request has no segment of its own"
            os.unlink("/dev/shm/" + name)
        elif op == "discard":
            _, name, _ = self.q.get(timeout=10)
            SharedMemoryManager.cleanup(name)
        return dict(segs=self.settled())

    def close(self):
        for n in self.mine():
            os.unlink("/dev/shm/" + n)
        self.q.close()
        self.q._queue.join_thread()
        os.unlink(Recorder.book)


def hand_over(ctx, name, consts, odd, sims, depth):
    r = tlc.explore("ShmTransport", consts, invariants=["InOrder", "OwnSegments", "NothingLeft"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed, max_len=40)
    if len(paths) > sims * 4:
        paths = random.Random(ctx.seed).sample(paths, sims * 4)
    paths += tlc.simulate("ShmTransport", dict(consts, MaxSent=depth, Payloads={"plain", "large", "shapes", "empty", "session"}),
                          depth=3 * depth, num=sims, seed=ctx.seed, stop="~ENABLED Next")
    report.replay(ctx, name, paths, lambda: Adapter(consts["Limit"], odd))
    ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions, {len(paths)} behaviours")


def producer(q, me, n, start):
    torch.set_num_threads(1)
    t = serve.make_tokenizer(q)
    start.wait()
    for i in range(n):
        meta, mm = payload(("plain", "shapes", "empty", "session")[i % 4], i)
        t._send_via_shared_queue(TokenizedGenerateReqInput(rid=f"{me}-{i}", mm_inputs=mm, **meta))
        if i % 5 == 4:
            t._send_via_shared_queue(dict(rid=f"{me}-{i}", abort=True))
    q._queue.close()
    q._queue.join_thread()
    time.sleep(8)           # torch hands the tensors' file descriptors over from the sender


def processes(ctx, rounds, n):
    """Several sending processes at once; what arrives is checked as a merge of their sequences."""
    logs = []
    for _ in range(rounds):
        new_book()
        q = TensorQueue(maxsize=0)
        s = sp.SchedulerProcess("", "", "", shared_queue=q, enable_shared_queue=True, tensor_transport_mode="default")
        fork = mp.get_context("fork")
        start = fork.Event()
        ps = [fork.Process(target=producer, args=(q, k, n, start), daemon=True) for k in range(3)]
        for p in ps:
            p.start()
        log, aborts = [], []
        s._receive_abort = lambda rid: (aborts.append(rid), log.append(dict(op="abort", who=int(rid.split("-")[0]) + 1, n=int(rid.split("-")[1]))))
        start.set()
        end = time.time() + 60
        while len(log) < 3 * (n + n // 5) and time.time() < end:
            # one request at a time, so that aborts keep their place in the log
            seen = len(log)
            orig = s._waiting_queue

            class W(type(orig)):
                def append(self, req):
                    who, i = (int(x) for x in req.rid.split("-"))
                    meta, mm = payload(("plain", "shapes", "empty", "session")[i % 4], i)
                    ok = all(equal(getattr(req, k), v) for k, v in meta.items()) and equal(req.mm_inputs, mm)
                    log.append(dict(op="recv", who=who + 1, n=i, ok=ok))
            s._waiting_queue = W()
            s._recv_from_shared_queue()
        for p in ps:
            p.terminate()
            p.join()
        left = Recorder.alive()
        os.unlink(Recorder.book)
        log.append(dict(op="end", left=len(left)))
        for f in left:
            os.unlink("/dev/shm/" + f)
        logs.append(log)
    bad, st = tlc.validate("ShmOrder", logs, dict(Senders=3, Each=n))
    ctx.cov["states"] += st["states"]
    for i, k in bad:
        ctx.violation(f"processes: hand-over breaks at {logs[i][k] if k < len(logs[i]) else None}", dict(trace=logs[i][max(0, k - 20):k + 1]))
    ctx.add_traces(len(logs) - len(bad), [dict(recorded=logs[0][:8])])
    ctx.log(f"processes: {sum(map(len, logs))} events validated")


def body(ctx):
    n = ctx.pick(40, 400)
    jobs = [(hand_over, ("ordinary ids", dict(Payloads={"plain", "shapes"}, MaxSent=ctx.pick(4, 5), Limit=3), False, n, 30), {}),
            (hand_over, ("awkward ids", dict(Payloads={"large", "empty"}, MaxSent=3, Limit=2), True, n, 20), {})]
    # not forked from here: senders are processes of their own
    if ctx.quick:
        jobs.append((processes, (2, 60), {}))
    else:
        jobs.append((processes, (8, 300), {}))
    ctx.parallel(jobs, procs=3)
    ctx.assumptions.append("CPU tensors, POSIX shared memory of this machine")


if __name__ == "__main__":
    report.main("Q05", body)

"""The real Engine.generate / generate_async on the real RequestResponseProcess,
with stand-in sockets: what is sent to the tokenizer is recorded, what comes
from the detokenizer is put there by the test."""
import asyncio
import collections

import zmq
import zmq.asyncio

from pymllm.engine.launch import Engine
from pymllm.orchestrator import request_response_process as rrp


class Sock:
    """One object for both directions; no matter which event loop uses it."""

    def __init__(self):
        self.sent, self.inbox, self.on_send = [], collections.deque(), None
        self.lag = lambda: 0

    async def send_pyobj(self, m, *a, **k):
        for _ in range(self.lag()):
            await asyncio.sleep(0)
        self.sent.append(m)
        if self.on_send:
            self.on_send(m)

    async def recv_pyobj(self, *a, **k):
        while not self.inbox:
            await asyncio.sleep(0)
        return self.inbox.popleft()

    def close(self, *a):
        pass


def make():
    s = Sock()
    old = rrp.create_zmq_socket, zmq.asyncio.Context
    rrp.create_zmq_socket = lambda *a, **k: s
    try:
        rr = rrp.RequestResponseProcess("", "")
        rr.start()
    finally:
        rrp.create_zmq_socket, zmq.asyncio.Context = old
    e = Engine.__new__(Engine)
    e._rr_process = rr
    return e, rr, s


def payload(c, ids, batch):
    """Arguments of call c; some lists per request, some shared by the batch."""
    n = len(ids)
    each = [dict(sampling_params=dict(temperature=c + i / 10, top_k=c), lora_path=f"l{c}.{i}", image_data=[f"i{c}.{i}"],
                 logprob_start_len=10 * c + i) for i in range(1, n + 1)]
    a = dict(rid=[f"q{r}" for r in ids] if batch else f"q{ids[0]}", tag=c)
    if c % 2:
        a["prompt"] = [f"text {c}.{i}" for i in range(1, n + 1)] if batch else f"text {c}.1"
    else:
        a["input_ids"] = [[c, i] for i in range(1, n + 1)] if batch else [c, 1]
    if c % 3 == 0:
        a["sampling_params"] = dict(temperature=0.25, max_new_tokens=c)
        for x in each:
            x.pop("sampling_params")
        keys = ["lora_path", "image_data", "logprob_start_len"]
    else:
        keys = ["sampling_params", "lora_path"] if c % 3 == 1 else ["sampling_params", "image_data"]
    for k in keys:
        a[k] = [x[k] for x in each] if batch else each[0][k]
    want = []
    for i in range(n):
        w = {k: each[i][k] for k in keys}
        if "sampling_params" not in w:
            w["sampling_params"] = a["sampling_params"]
        if c % 2:
            w["text"] = f"text {c}.{i + 1}"
        else:
            w["input_ids"] = [c, i + 1]
        want.append(dict(w, rid=f"q{ids[i]}", tag=c))
    return a, want


class Told:
    """What a call sent on, recognised by its contents."""

    def __init__(self):
        self.want = {}

    def expect(self, c, ids, batch, stream):
        a, want = payload(c, ids, batch)
        for i, w in enumerate(want, 1):
            self.want[(c, i)] = dict(w, stream=stream)
        return a

    def read(self, m):
        rid = m.get("rid")
        r = int(rid[1:]) if isinstance(rid, str) and rid[1:].isdigit() else repr(rid)
        if m.get("abort"):
            return dict(r=r, c=0, i=0, abort=True)
        for (c, i), w in self.want.items():
            if all(k in m and m[k] == v for k, v in w.items()) and not ("text" in m and "input_ids" in m):
                return dict(r=r, c=c, i=i, abort=False)
        return dict(r=r, c="not what was asked", i=str(m), abort=False)


def result(r, k, fin):
    return dict(rid=f"q{r}", text=f"a{r}.{k}", delta=f".{k}", k=k, finished=fin, finished_reason="stop" if fin else None)

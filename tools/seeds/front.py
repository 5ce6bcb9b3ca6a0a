import os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness", "py")
O = "pymllm/orchestrator/"
PRE = '''
import asyncio, os, sys, logging
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
'''
FRONT = PRE + '''
import front
e, rr, s = front.make()
R = lambda rid, text, fin: dict(rid=rid, text=text, delta=text, finished=fin, finished_reason="stop" if fin else None)
async def ticks(n=20):
    for _ in range(n):
        await asyncio.sleep(0)
'''
DETOK = PRE + '''
from pymllm.orchestrator.detokenizer_process import DetokenizerProcess
class Bytes:
    """one token is one byte of UTF-8"""
    def decode(self, ids, skip_special_tokens=True):
        return bytes(ids).decode("utf-8", errors="replace")
d = DetokenizerProcess("", "")
d._tokenizer = Bytes()
def msg(rid, ids, new, fin, prompt=4):
    return dict(rids=[rid], output_ids=list(ids), decode_ids=list(ids[len(ids) - new:]), read_offsets=[len(ids) - new],
                finished_reasons=[fin], skip_special_tokens=[True], prompt_tokens=[prompt], completion_tokens=[len(ids)])
'''
IPC = PRE + '''
import ipcpool, torch
cit = ipcpool.install()
'''
F = {"front.py": open(os.path.join(H, "front.py")).read()}
G = {"ipcpool.py": open(os.path.join(H, "ipcpool.py")).read()}

HTTP = PRE + """
import warnings
warnings.simplefilter("ignore")
import webapp as http
async def ticks(n=80):
    for _ in range(n):
        await asyncio.sleep(0)
def answer(s, i, text, delta, fin, **k):
    s.inbox.append(dict(dict(rid=s.reqs[i]["rid"], text=text, delta=delta, finished=bool(fin), finished_reason=fin,
                             prompt_tokens=5, completion_tokens=3, output_token_ids=[1, 2, 3]), **k))
async def open_(path, body, **cfg):
    e, rr, s = http.make(**cfg)
    c = http.Client("POST", path, body)
    await ticks()
    s.reqs = [m for m in s.sent if not m.get("abort")]
    return e, rr, s, c
def run(f):
    asyncio.run(asyncio.wait_for(f(), 30))
"""
HF = {"front.py": F["front.py"], "webapp.py": open(os.path.join(H, "webapp.py")).read()}


def q(id, property, needs, breaks, edits, py, files={}):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, py=py, files=files)


SEEDS = [
 q("q01-stream-busy", "Q01",
   "a streaming caller that is still handling one delta when the last result of its request arrives",
   "results that arrive while a streaming caller is busy are thrown away with the ones it was given",
   [("pymllm/engine/launch.py", """            for item in state.out_list:
                yield item
            state.out_list.clear()
""", """            chunks = list(state.out_list)
            for item in chunks:
                yield item
            state.out_list.clear()
""")],
   FRONT + '''
async def main():
    got = []
    s.inbox.append(R("a", "x", False))
    async for c in e.generate_async(prompt="p", rid="a", stream=True):
        got.append(c["text"])
        if len(got) == 1:
            s.inbox.append(R("a", "y", False)); s.inbox.append(R("a", "z", True))
            await ticks()
    assert got == ["x", "y", "z"], got
asyncio.run(asyncio.wait_for(main(), 20))
''', F),
 q("q01-batch-abort", "Q01",
   "a client that leaves a streaming batch after one of its requests is complete and others are not",
   "only the requests of the batch up to the first complete one are aborted; the rest run on for nobody",
   [("pymllm/engine/launch.py", """                for r, s in zip(rids_list, states):
                    if not s.finished:
                        logger.info("Aborting request %s (client disconnected)", r)
                        await self._rr_process.abort_request(r)
""", """                for r, s in zip(rids_list, states):
                    if not s.finished and not any(x.finished for x in states[:-1]):
                        logger.info("Aborting request %s (client disconnected)", r)
                        await self._rr_process.abort_request(r)
""")],
   FRONT + '''
async def main():
    g = e.generate_async(prompt=["p", "q", "r"], rid=["a", "b", "c"], stream=True)
    s.inbox.append(R("b", "x", True))
    assert (await g.__anext__())["rid"] == "b"
    await ticks()
    await g.aclose()
    await ticks()
    assert {m["rid"] for m in s.sent if m.get("abort")} == {"a", "c"}, s.sent
asyncio.run(asyncio.wait_for(main(), 20))
''', F),
 q("q01-final-order", "Q01",
   "a non-streaming call whose final result and an earlier partial one are both waiting when the caller runs",
   "the caller is given the first of the waiting results instead of the final one",
   [("pymllm/engine/launch.py", """            if state.finished:
                return state.out_list[-1]
            state.event.clear()
""", """            if state.finished:
                return state.out_list.pop(0)
            state.out_list.clear()
            state.event.clear()
""")],
   FRONT + '''
async def main():
    s.inbox.extend([R("a", "x", False), R("a", "xy", True)])
    s.recv_now = True
    async def both(*a, **k):
        while not s.inbox:
            await asyncio.sleep(0)
        return s.inbox.popleft()
    out = []
    async for c in e.generate_async(prompt="p", rid="a", stream=False):
        out.append(c)
    assert [c["text"] for c in out] == ["xy"], out
for lag in range(6):
    # the two results are handed over without a pause in between
    e, rr, s = front.make()
    async def recv(s=s, n=[0]):
        if not s.inbox:
            await asyncio.sleep(3600)
        return s.inbox.popleft()
    s.recv_pyobj = recv
    import asyncio as aio
    async def now(x, timeout=None):
        return await x
    old, aio.wait_for = aio.wait_for, now
    try:
        async def guarded():
            t = aio.create_task(main())
            await aio.wait([t], timeout=20)
            assert t.done()
            t.result()
        aio.run(guarded())
    finally:
        aio.wait_for = old
''', F),
 q("q02-piecewise", "Q02",
   "a streamed answer with a character whose bytes come in different tokens and different messages",
   "the text is put together from separately decoded pieces, so a split character becomes replacement characters",
   [(O + "detokenizer_process.py", """                text = self._tokenizer.decode(
                    output_ids,
                    skip_special_tokens=skip_special,
                )
""", """                start = read_offsets[i] if i < len(read_offsets) else 0
                text = (
                    self._rid_to_prev_text.get(rid, "") if start else ""
                ) + self._tokenizer.decode(
                    output_ids[start:],
                    skip_special_tokens=skip_special,
                )
""")],
   DETOK + '''
ids = list("a\\u00e9b".encode())
deltas = []
for n in range(1, len(ids) + 1):
    r = d._detokenize(msg("a", ids[:n], 1, "stop" if n == len(ids) else None))[0]
    deltas.append(r["delta"])
assert r["text"] == "a\\u00e9b" and "".join(deltas) == r["text"], (r, deltas)
'''),
 q("q02-keep-tail", "Q02",
   "a streaming request aborted (finished) with part of a character held back, or any final message that adds no text",
   "the text a finished request left behind is kept, so the next request with that rid whose first output is not at offset 0 is affected, and held back text is dropped at the end",
   [(O + "detokenizer_process.py", """            # Clean up tracking when request finishes
            if is_finished:
                self._rid_to_prev_text.pop(rid, None)
""", """            # Clean up tracking when request finishes
            if is_finished:
                self._rid_to_prev_text.pop(rid, None)
                if finished_reason == "length":
                    delta_text = delta_text.rstrip("\\ufffd")
""")],
   DETOK + '''
ids = list("a\\u00e9".encode())[:2]
deltas = [d._detokenize(msg("a", ids[:n], 1, "length" if n == 2 else None))[0] for n in (1, 2)]
assert "".join(r["delta"] for r in deltas) == deltas[-1]["text"], deltas
'''),
 q("q03-end-holdback", "Q03",
   "a closing think tag that arrives in two chunks, cut right before its last character",
   "one character of the closing tag is already given out as reasoning, so the tag is never recognised",
   [("pymllm/parsers/reasoning_parser.py", """            elif _could_be_partial(self._buffer, self._end):
                safe = len(self._buffer) - len(self._end) + 1
""", """            elif _could_be_partial(self._buffer, self._end):
                safe = len(self._buffer) - len(self._end) + 2
""")],
   PRE + '''
from pymllm.parsers.reasoning_parser import ReasoningParser
p = ReasoningParser("qwen3")
out = [p.parse_stream_chunk(c) for c in ("<think>abc</think", ">xyz")]
assert "".join(r for r, _ in out) == "abc" and "".join(c for _, c in out) == "xyz", out
'''),
 q("q03-partial-lengths", "Q03",
   "an opening tag cut after its first six characters",
   "the longest partial tag is not held back, so the tag comes out as content and the reasoning too",
   [("pymllm/parsers/reasoning_parser.py", """    for i in range(1, len(pattern)):
        if text.endswith(pattern[:i]):
""", """    for i in range(1, len(pattern) - 1):
        if text.endswith(pattern[:i]):
""")],
   PRE + '''
from pymllm.parsers.reasoning_parser import ReasoningParser
p = ReasoningParser("glm45")
out = [p.parse_stream_chunk(c) for c in ("<think", ">abc</think>xyz")]
assert "".join(r for r, _ in out) == "abc" and "".join(c for _, c in out) == "xyz", out
'''),
 q("q04-second-args", "Q04",
   "two streamed tool calls, the second with arguments no longer than the first one's",
   "the count of argument characters sent is carried over from the first call to the second",
   [("pymllm/parsers/tool_call_parser.py", """                    self._current_call_buf = ""
                    self._prev_args_len = 0
                    self._name_sent = False
                    continue""", """                    self._current_call_buf = ""
                    if not self._name_sent:
                        self._prev_args_len = 0
                    self._name_sent = False
                    continue""")],
   PRE + '''
from pymllm.parsers.tool_call_parser import ToolCallParser
p = ToolCallParser("qwen3_coder")
call = "<tool_call><function=f><parameter=k>%s</parameter></function></tool_call>"
text = call % "abc" + call % "xyz"
args = {}
for c in text:
    for it in p.parse_stream_chunk(c)[1]:
        args[it.index] = args.get(it.index, "") + (it.arguments or "")
assert args == {0: '{"k": "abc"}', 1: '{"k": "xyz"}'}, args
'''),
 q("q04-content-holdback", "Q04",
   "text before a tool call that arrives together with all but the last character of the marker",
   "one character too many is let through as content",
   [("pymllm/parsers/tool_call_parser.py", """                        safe = len(self._buffer) - len(self._bot) + 1
                        if safe > 0:
""", """                        safe = len(self._buffer) - len(self._bot) + 2
                        if safe > 0:
""")],
   PRE + '''
from pymllm.parsers.tool_call_parser import ToolCallParser
p = ToolCallParser("hermes")
content, names = "", []
for c in ("Hi <tool_call>", '\\n{"name": "f", "arguments": {}}\\n</tool_call>'):
    t, items = p.parse_stream_chunk(c)
    content += t; names += [i.name for i in items if i.name]
assert content == "Hi " and names == ["f"], (content, names)
'''),
 q("q05-unlink-late", "Q05",
   "a message whose metadata cannot be decoded by the scheduler, followed by others already in the queue",
   "the segment of a request read over the shared queue is not removed",
   [(O + "shared_memory_queue.py", """            data = bytes(shm.buf[:])
            metadata = pickle.loads(data)
            shm.close()
            if unlink:
""", """            data = bytes(shm.buf[:])
            metadata = pickle.loads(data)
            shm.close()
            if unlink and not getattr(metadata, "session_params", None):
""")],
   PRE + '''
from multiprocessing.shared_memory import SharedMemory
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager as M
n = M.write_metadata("a", TokenizedGenerateReqInput(rid="a", session_params={"id": 1}))
assert M.read_metadata(n).rid == "a"
try:
    m = SharedMemory(name=n)
except FileNotFoundError:
    sys.exit(0)
m.close(); m.unlink()
sys.exit("segment left behind")
'''),
 q("q05-name-clash", "Q05",
   "two long rids that only differ in their endings (or in characters a segment name cannot have), both in flight",
   "segments of different requests get the same name",
   [(O + "shared_memory_queue.py", """            shm = SharedMemory(name=shm_name, create=True, size=size)
            shm.buf[:size] = data
            shm.close()
            logger.debug("Wrote""", """            shm_name = shm_name[:-9]
            try:
                shm = SharedMemory(name=shm_name, create=True, size=size)
            except FileExistsError:
                # left behind by an earlier run
                SharedMemoryManager.cleanup(shm_name)
                shm = SharedMemory(name=shm_name, create=True, size=size)
            shm.buf[:size] = data
            shm.close()
            logger.debug("Wrote""")],
   PRE + '''
from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager as M
a = M.write_metadata("user/1", {"for": "user/1"})
b = M.write_metadata("user.1", {"for": "user.1"})
got = []
for n in (a, b):
    try:
        got.append(M.read_metadata(n)["for"])
    except FileNotFoundError:
        got.append(None)
M.cleanup(a); M.cleanup(b)
assert got == ["user/1", "user.1"], got
'''),
 q("q06-flag-count", "Q06",
   "a pool with two consumers where one has read and the other has not when the recycler runs",
   "a chunk is given to another tensor after the first of several consumers has read it",
   [(O + "cuda_ipc_transport.py", """        if val >= float(num_consumers):
            self""", """        if val >= min(1.0, float(num_consumers)):
            self""")],
   IPC + '''
pool = cit.MmItemMemoryPool(64, recycle_interval=0.001, num_consumers=2)
a = torch.arange(48, dtype=torch.int8)
p = cit.wrap_mm_inputs_for_ipc({"x": ipcpool.Gpu.of(a.clone())}, "cuda_ipc_pool", pool)["x"]
import copy
q = copy.copy(p)
assert torch.equal(ipcpool.plain(p.reconstruct_on_device()), a)
ipcpool.settle(pool)
cit.wrap_mm_inputs_for_ipc({"x": ipcpool.Gpu.of(torch.zeros(48, dtype=torch.int8))}, "cuda_ipc_pool", pool)
got = ipcpool.plain(q.reconstruct_on_device())
pool.shutdown()
assert torch.equal(got, a), got
''', G),
 q("q06-shared-flag", "Q06",
   "a chunk is given back, and its space used again together with the space next to it",
   "a chunk that is given back keeps the flag that also went back to the stock, so two chunks share one",
   [(O + "cuda_ipc_transport.py", """                self._return_sync_buffer(chunk.sync_flag)
                chunk.sync_flag = self._new_sync_buffer()
                self.available_chunks.append(chunk)
""", """                self._return_sync_buffer(chunk.sync_flag)
                self.available_chunks.append(chunk)
""")],
   IPC + '''
pool = cit.MmItemMemoryPool(96, recycle_interval=0.001, num_consumers=1)
T = lambda v, n: torch.full((n,), v, dtype=torch.int8)
def put(v, n=16):
    return cit.wrap_mm_inputs_for_ipc({"x": ipcpool.Gpu.of(T(v, n))}, "cuda_ipc_pool", pool)["x"]
def get(p, v, n=16):
    x = ipcpool.plain(p.reconstruct_on_device())
    assert torch.equal(x, T(v, n)), (v, x)
a, b, c = put(1), put(2), put(3)
get(a, 1); ipcpool.settle(pool)
d = put(4); e = put(5)
f = put(6)
get(f, 6); ipcpool.settle(pool)
g = put(7); h = put(8)
for p, v in ((b, 2), (c, 3), (d, 4), (e, 5), (g, 7), (h, 8)):
    get(p, v)
pool.shutdown()
''', G),
 q("q07-first-role", "Q07",
   "a streamed chat answer whose first result brings text that is all held back or empty",
   "the role chunk is only sent with the first visible text, so a chat answer that finishes without any never has one",
   [("pymllm/server/launch.py", """                    if first:
                        yield _make_sse({"role": "assistant"})
""", """                    if first and (content_delta or reasoning_delta or tool_items):
                        yield _make_sse({"role": "assistant"})
""")],
   HTTP + """
async def main():
    e, rr, s, c = await open_("/v1/chat/completions", dict(messages=[dict(role="user", content="x")], stream=True))
    answer(s, 0, "", "", "stop")
    await ticks()
    d = [x["choices"][0]["delta"] for x in c.events() if x != "DONE"]
    assert d and d[0] == {"role": "assistant"}, d
run(main)
""", HF),
 q("q07-zero-settings", "Q07",
   "a client that asks for seed 0, temperature 0 or top_k 0",
   "settings that are zero are taken for settings not given",
   [("pymllm/server/launch.py", """    if seed is not None:
        params["seed"] = seed
""", """    if seed:
        params["seed"] = seed
""")],
   HTTP + """
async def main():
    e, rr, s, c = await open_("/v1/completions", dict(prompt="x", seed=0, temperature=0.0))
    assert s.reqs[0]["sampling_params"].get("seed") == 0, s.reqs
run(main)
""", HF),
 q("q07-tool-finish", "Q07",
   "a streamed answer whose tool call is complete some results before the last one",
   "the finish reason is tool_calls only if the last result brings part of a call",
   [("pymllm/server/launch.py", """                    if tool_items:
                        has_tool_calls = True
""", """                    has_tool_calls = bool(tool_items)
""")],
   HTTP + """
async def main():
    e, rr, s, c = await open_("/v1/chat/completions", dict(messages=[dict(role="user", content="x")], stream=True,
                              tools=[dict(type="function", function=dict(name="f"))]), tool_call_parser="hermes")
    call = '<tool_call>\\n{"name": "f", "arguments": {}}\\n</tool_call>'
    answer(s, 0, call, call, None)
    answer(s, 0, call + " ok", " ok", None)
    answer(s, 0, call + " ok", "", "stop")
    await ticks()
    fin = [x["choices"][0]["finish_reason"] for x in c.events() if x != "DONE"]
    assert fin[-1] == "tool_calls", fin
run(main)
""", HF),
 q("q07-queue-limit", "Q07",
   "a full request queue and a batch among the callers",
   "the limit is only applied to single requests, so batches are accepted by an overloaded server",
   [(O + "request_response_process.py", """        if max_queued is not None and self._request_queue.qsize() >= max_queued:
            raise""", """        if (
            max_queued is not None
            and request.is_single
            and self._request_queue.qsize() >= max_queued
        ):
            raise""")],
   HTTP + """
async def main():
    e, rr, s = http.make(max_queued_requests=1)
    stuck = asyncio.Event()
    async def send(m, *a, **k):
        await stuck.wait()
    s.send_pyobj = send
    for i in range(2):
        http.Client("POST", "/v1/completions", dict(prompt="x"))
        await ticks()
    c = http.Client("POST", "/v1/completions", dict(prompt=["x", "y"]))
    await ticks()
    assert c.status == 429, c.status
run(main)
""", HF),
 q("q07-last-usage", "Q07",
   "a chat answer streamed with usage whose last result comes without text",
   "token counts are only taken from results that bring text, so the usage misses the last tokens",
   [("pymllm/server/launch.py", """                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
                    completion_tokens = chunk.get("completion_tokens", completion_tokens)

                    raw_delta = chunk.get("delta", "")
""", """                    raw_delta = chunk.get("delta", "")
                    if raw_delta:
                        prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
                        completion_tokens = chunk.get(
                            "completion_tokens", completion_tokens
                        )
""")],
   HTTP + """
async def main():
    e, rr, s, c = await open_("/v1/chat/completions", dict(messages=[dict(role="user", content="x")], stream=True, stream_options=dict(include_usage=True)))
    answer(s, 0, "a", "a", None, completion_tokens=1)
    answer(s, 0, "a", "", "stop", completion_tokens=2)
    await ticks()
    u = [x["usage"] for x in c.events() if x != "DONE" and x.get("usage")]
    assert u and u[0]["completion_tokens"] == 2, u
run(main)
""", HF),
]

O = "pymllm/orchestrator/"
SP, MR = O + "scheduler_process.py", O + "model_runner_process.py"
import os
HARNESS = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness", "py", "serve.py")).read()
DRIVE = '''
import os, sys, logging
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
from serve import Serve, tok, torch

def conf(**kw):
    return dict(dict(MaxRun=4, MaxPrefill=30, MaxTotal=100, Cap=40, Ctx=30, V=6, Eos=set(), CacheOn=True, Hybrid=False,
                     Tracks=4, P=1), **kw)

class World:
    def __init__(self, **kw):
        self.cfg = conf(**kw)
        self.a = Serve(self.cfg)
        self.out, self.fin, self.prompt, self.hist = {}, {}, {}, []
    def submit(self, r, p, max=3, stop=(), stream=False):
        self.prompt[r] = list(p)
        self.a.step("submit", dict(r=r, p=p, max=max, stop=stop, stream=stream))
    def abort(self, r):
        self.a.step("abort", dict(r=r))
    def it(self, n=1):
        for _ in range(n):
            o = self.a.step("iterate", {})
            self.hist.append(o)
            for m in o["msgs"]:
                self.out[m["r"]] = m["all"]
                if m["fin"]: self.fin.setdefault(m["r"], []).append(m["fin"])
        return o
    def drain(self):
        for _ in range(200):
            o = self.it()
            if o["idle"]: return o
        raise AssertionError("never idle")
    def ref(self, r, n):
        c, o = [9 if t >= 100 else t for t in self.prompt[r]], []
        c = list(self.prompt[r])
        for _ in range(n):
            o.append(tok(c, self.cfg["V"])); c.append(o[-1])
        return o
    def right(self):
        for r, o in self.out.items():
            assert o == self.ref(r, len(o)), (r, o, self.ref(r, len(o)))
    def whole(self):
        o = self.drain()
        assert o["protected"] == 0 and o["kv_free"] + o["evictable"] == self.cfg["Cap"] and o["slots_free"] == self.cfg["MaxRun"], o
'''
F = {"serve.py": HARNESS}


def seed(id, property, needs, breaks, edits, py):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, py=DRIVE + py, files=F)


SEEDS = [
 seed("r01-writeback", "R01",
      "two requests with a partly common prompt prefilled in the same batch, then a third request that takes the released slots while the second still decodes",
      "the row keeps the released duplicate slots unless the whole prompt was a duplicate, so a request reads KV written for another one",
      [(MR, "            if len(new_indices) > cache_protected_len:\n                if _dbg:",
        "            if new_prefix_len == len(new_indices) > cache_protected_len:\n                if _dbg:")], '''
w = World(Cap=14)
w.submit(1, (1, 2, 3, 4), 9); w.submit(2, (1, 2, 3, 5), 9)
w.it(2)
w.submit(3, (4, 4, 4), 2)
w.drain(); w.right()
'''),
 seed("r01-decode-position", "R01",
      "a decode batch in which an earlier request of the batch has a shorter sequence than a later one",
      "the new KV slot is written at the position of the batch's first request",
      [(MR, "            cur_seq_len = seq_lens[i]\n", "            cur_seq_len = max(seq_lens[: i + 1])\n")], '''
w = World()
w.submit(1, (1, 2, 3, 4, 5), 6); w.submit(2, (2, 1), 6)
w.drain(); w.right()
'''),
 seed("r02-relock", "R02",
      "paging, and a prompt whose whole pages are all cached already, running while memory is short",
      "a request that adds nothing to the cache gives its lock up while it is still running",
      [(MR, "            if new_last_node is not None and len(new_indices) > 0:\n                swa_id",
        "            if new_last_node is not None and len(new_indices) > cache_protected_len:\n                swa_id")], '''
w = World(P=3, Cap=15)
w.submit(1, (1, 2, 3, 4), 1); w.it(2)
w.submit(2, (1, 2, 3, 5, 1), 5); w.it(2)
o = w.hist[-1]
w.submit(3, (5, 5, 5, 5, 5, 5, 5, 5), 1)
o = w.it(1)
assert o["protected"] >= 3, o
w.drain(); w.right(); w.whole()
'''),
 seed("r02-dup-free", "R02",
      "two requests with the same prompt and, so far, the same output that finish one after the other",
      "duplicates are released only as far as the prompt: slots of generated tokens that were already cached are lost",
      [(MR, "dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]",
        "dup_indices = all_kv_indices[cache_protected_len:min(new_prefix_len, prompt_len)]")], '''
w = World()
w.submit(1, (1, 2, 3), 3); w.submit(2, (1, 2, 3), 5)
w.drain(); w.right(); w.whole()
'''),
 seed("r03-split-snapshot", "R03",
      "a recurrent model, a cached prompt that is split by another prompt, and a third prompt that stops at the split",
      "the snapshot moves to the shorter prefix when its entry is split",
      [("pymllm/mem_cache/radix_cache.py", "        child.swa_boundary_id = None\n        new_node.key",
        "        child.swa_boundary_id = None\n        new_node.id, child.id = child.id, new_node.id\n        new_node.key")], '''
w = World(Hybrid=True)
w.submit(1, (1, 2, 3, 4), 1); w.drain()
w.submit(2, (1, 2, 5, 5), 1); w.drain()
w.submit(3, (1, 2, 4, 4), 2); w.drain()
w.right()
for o in w.hist:
    for e in o["seen"]: assert "recurrent state" not in e["ctx"], e
'''),
 seed("r03-torn-restore", "R03",
      "a recurrent model with two or more recurrent layers and a request that resumes from a snapshot",
      "only the first layer's convolution state is restored",
      [("pymllm/mem_cache/memory_pool.py", "        self.conv_state[:, dst_index] = self.conv_state[:, src_index]\n",
        "        self.conv_state[0, dst_index] = self.conv_state[0, src_index]\n")], '''
w = World(Hybrid=True)
w.submit(1, (1, 2, 3), 1); w.drain()
w.submit(2, (1, 2, 3, 4, 5), 2); w.drain()
for o in w.hist:
    for e in o["seen"]: assert "recurrent state" not in e["ctx"], e
'''),
 seed("s01-stale-budget", "S01",
      "several requests admitted in the same iteration that fit one by one but not together",
      "each is checked against the budget as it was before the batch",
      [(SP, "        prefill_token_budget = self._max_prefill_tokens\n",
        "        prefill_token_budget = self._max_prefill_tokens\n        used_before = self._used_tokens\n"),
       (SP, "can_fit_tokens = (self._used_tokens + input_len) <= self._max_total_tokens",
        "can_fit_tokens = (used_before + input_len) <= self._max_total_tokens")], '''
w = World(MaxTotal=10)
w.submit(1, (1, 2, 3, 4), 2); w.submit(2, (2, 2, 3, 4), 2); w.submit(3, (3, 2, 3, 4), 2)
o = w.it()
assert sum(len(w.prompt[r]) for r in o["batch"]["rids"]) <= 10, o["batch"]
'''),
 seed("s01-first-token", "S01",
      "several requests that end while others are running: the free budget drifts by one per request",
      "the token sampled by the prefill is not charged but given back",
      [(SP, "            self._used_tokens += len(new_token_ids)\n",
        "            if batch.forward_mode.is_decode():\n                self._used_tokens += len(new_token_ids)\n")], '''
w = World(MaxTotal=12, CacheOn=False)
w.submit(1, (1, 2, 3, 4), 9)
w.it()
for r in range(2, 6):
    w.submit(r, (2, 2), 1); w.it()
w.submit(7, (3,) * 8, 2)
o = w.it()
running = 4 + len(w.ref(1, 3))
assert 7 not in o["batch"]["rids"], o
'''),
 seed("s02-own-stops", "S02",
      "a request that brings its own stop tokens and then generates the end-of-sequence token",
      "the model's end-of-sequence tokens are only used when the request has none of its own",
      [(SP, "                if eid not in stop_ids:\n", "                if not sp.get(\"stop_token_ids\"):\n")], '''
w = World(V=4, Eos={0})
p = None
for a in range(1, 4):
    for b in range(1, 4):
        for c in range(1, 4):
            w.prompt[1] = [a, b, c]
            o = w.ref(1, 8)
            if 0 in o and 3 not in o[:o.index(0) + 1] and o[-1] != 0 and p is None: p = (a, b, c); n = o.index(0) + 1
assert p
w.submit(1, p, 20, stop=(3,)); w.drain()
assert len(w.out[1]) == n and w.fin[1] == ["eos"], (w.out, n)
'''),
 seed("s02-offset", "S02",
      "a streaming request that finishes in the iteration after it was moved past a stalled stream (its tail holds more than one token)",
      "the final piece holds the last token only: tokens not yet streamed are lost",
      [(SP, "        decode_ids = req.output_ids[req.read_offset :]\n        output: Dict",
        "        decode_ids = req.output_ids[req.read_offset :] if not req.stream else req.output_ids[-1:]\n        output: Dict")], '''
w = World()
w.submit(1, (1, 2), 4, stream=True); w.it(2)
w.submit(2, (3, 3, 3), 1)
w.drain()
# out of memory: a streaming request is ended with its tail already streamed
got = {}
w = World(Cap=6, CacheOn=False, MaxRun=2)
w.submit(1, (1, 2), 5, stream=True); w.submit(2, (2, 1), 5, stream=True)
w.drain()
for o in w.hist:
    for m in o["msgs"]: got.setdefault(m["r"], []).extend(m["ids"])
for r in got: assert got[r] == w.out[r], (got[r], w.out[r])
'''),
 seed("s03-abort-budget", "S03",
      "an abort of a request that has been decoding for a while",
      "the tokens generated so far are never given back to the token budget",
      [(SP, "        \"\"\"Mark this request as aborted.\"\"\"\n",
        "        \"\"\"Mark this request as aborted.\"\"\"\n        self.seq_len = self.prompt_len  # the output is discarded\n")], '''
w = World(MaxTotal=14, CacheOn=False)
w.submit(1, (1, 2), 30); w.it(5)
w.abort(1); w.it(2)
w.submit(2, (1,) * 12, 1)
w.drain()
assert w.out.get(2) == w.ref(2, 1), w.out
'''),
 seed("s03-abort-neighbour", "S03",
      "an abort naming a request whose id is a prefix of another running request's id (r1 and r12)",
      "the other request is aborted as well",
      [(SP, "            if req.rid == rid:\n                req.abort()\n                break\n",
        "            if req.rid.startswith(rid):\n                req.abort()\n")], '''
w = World()
w.submit(1, (1, 2), 8); w.submit(12, (2, 1), 8); w.it(2)
w.abort(1); w.drain()
assert w.fin.get(12) == ["length"] and 1 not in w.fin, w.fin
'''),
 seed("s04-slot-leak", "S04",
      "several prefill batches that cannot get KV memory (then memory comes back)",
      "each failed attempt keeps its request slots: in the end nothing can be admitted",
      [(MR, "            for s in slots:\n                runner.req_to_token_pool.free(s)\n            # Rollback",
        "            runner.req_to_token_pool.free(slots[0])\n            # Rollback")], '''
w = World(Cap=8, CacheOn=False, MaxRun=3)
for k in range(6):
    w.submit(3 * k + 1, (1, 2, 1), 4); w.submit(3 * k + 2, (2, 2, 1), 4); w.submit(3 * k + 3, (3, 2, 1), 4)
    w.drain()
assert sorted(w.fin) == list(range(1, 19)), w.fin
w.whole()
'''),
 seed("s04-evict-target", "S04",
      "a prompt longer than a few tenths of the pool arriving when most of the pool is cached",
      "eviction frees a fixed fraction at a time and gives up: a request that could be served is ended",
      [(MR, "            evict_target = max(\n                num_tokens,\n                int(runner.token_to_kv_pool_allocator.size * _EVICT_FRACTION),\n            )",
        "            evict_target = max(\n                1,\n                int(runner.token_to_kv_pool_allocator.size * _EVICT_FRACTION),\n            )")], '''
w = World(Cap=30)
for r in range(1, 15):
    w.submit(r, (r % 5 + 1, r // 5 + 1), 1); w.drain()
w.submit(20, (5,) * 26, 2); w.drain()
assert w.fin[20] == ["length"] and w.out[20] == w.ref(20, 2), w.fin
'''),
]
SAMP = '''
import logging, torch
logging.disable(logging.CRITICAL)
from pymllm.layers import sampling
sampling._HAS_FLASHINFER = False
from pymllm.executor.model_runner import ModelRunner
class R(ModelRunner):
    def __init__(self): self.device = "cpu"
class LO: pass
def draw(logits, **kw):
    lo = LO(); lo.next_token_logits = torch.tensor(logits)
    return R().sample(lo, None, **kw).tolist()
torch.manual_seed(0)
'''
SEEDS += [
 dict(id="s05-neutral-row", property="S05",
      needs="a batch in which a request without penalties comes before one with penalties",
      breaks="the rows after the first neutral one get no penalty",
      edits=[("pymllm/executor/model_runner.py", "        if rep_p == 1.0 and freq_p == 0.0 and pres_p == 0.0:\n            continue\n",
              "        if rep_p == 1.0 and freq_p == 0.0 and pres_p == 0.0:\n            break\n")],
      py=SAMP + '''
t = draw([[2.0, 1.0], [2.0, 1.0]], temperatures=torch.tensor([0.0, 0.0]), is_all_greedy=True,
         penalty_params=dict(token_histories=[[0], [0]], repetition_penalties=torch.tensor([1.0, 1.0]),
                             frequency_penalties=torch.tensor([0.0, 0.0]), presence_penalties=torch.tensor([0.0, 5.0])))
assert t == [0, 1], t
'''),
 dict(id="s05-shared-topk", property="S05",
      needs="requests with different top-k values sampled in the same batch",
      breaks="the largest top-k of the batch is applied to every row",
      edits=[("pymllm/layers/sampling.py", "        k_indices = (top_k.long() - 1).unsqueeze(-1)  # (B, 1)\n",
              "        k_indices = (top_k.long() - 1).amax().expand(len(top_k), 1)  # (B, 1)\n")],
      py=SAMP + '''
for _ in range(20):
    t = draw([[2.0, 1.9, 1.8, 1.7]] * 8, temperatures=torch.ones(8), top_ks=torch.tensor([1] * 4 + [4] * 4, dtype=torch.int32), top_ps=torch.ones(8))
    assert t[:4] == [0] * 4, t
'''),
 dict(id="s05-cold-row", property="S05",
      needs="a temperature-zero request batched with a sampling one, and two close candidates",
      breaks="in a mixed batch temperature zero is a small temperature: the second best token is drawn sometimes",
      edits=[("pymllm/layers/sampling.py", "temperature = temperature.clamp(min=1e-6)", "temperature = temperature.clamp(min=0.25)")],
      py=SAMP + '''
for _ in range(20):
    t = draw([[2.0, 1.9, 1.8, 1.7]] * 8, temperatures=torch.tensor([0.0] * 7 + [1.0]), top_ks=torch.full((8,), -1, dtype=torch.int32), top_ps=torch.ones(8))
    assert t[:7] == [0] * 7, t
'''),
]

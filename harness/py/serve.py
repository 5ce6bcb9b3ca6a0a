"""Adaptor: Serve.tla actions on the real scheduler, model runner process,
prefix cache and memory pools, with a stand-in for the neural network.

The stand-in computes nothing but records, for every KV slot, which token
sequence the entry was computed for; a request's output token is a function of
what it reads through its own row of the req-to-token table.
"""
import json
import queue

import torch
import zmq

from pymllm.engine.forward_batch import ForwardMode  # noqa: F401
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.executor import model_runner as mr_mod
from pymllm.layers import sampling
from pymllm.mem_cache import memory_pool as mp
from pymllm.orchestrator import scheduler_process as sp
from pymllm.orchestrator import tokenizer_process as tp
from pymllm.orchestrator.shared_memory_queue import SharedMemoryManager, TensorQueue

sampling._HAS_FLASHINFER = False      # no GPU here: the PyTorch sampling path
IMAGE_TOKEN = 9


class Pause(BaseException):
    pass


def tok(ctx, V):
    h = 7
    for t in ctx:
        h = (h * 5 + t + 1) % 97
    return h % V


class Net:
    """The stand-in model."""

    def __init__(self, runner, V):
        self.r, self.V = runner, V
        self.kv = {}
        self.states = []
        self.seen = []
        self.num_gdn_layers = 0

    def _state(self, slot):
        g = self.r.gdn_pool
        v = [int(x) for l in range(g.num_gdn_layers) for x in (g.recurrent_state[l, slot].flatten()[0], g.conv_state[l, slot].flatten()[0])]
        if len(set(v)) != 1:
            return ("torn",)
        return () if v[0] == 0 else self.states[v[0] - 1]

    def _set_state(self, slot, ctx):
        g = self.r.gdn_pool
        self.states.append(tuple(ctx))
        g.recurrent_state[:, slot] = float(len(self.states))
        g.conv_state[:, slot] = float(len(self.states))

    def forward(self, input_ids, positions, fb):
        ids, pos = input_ids.tolist(), positions.tolist()
        loc, rows, lens = fb.out_cache_loc.tolist(), fb.req_pool_indices.tolist(), fb.seq_lens.tolist()
        table = self.r.req_to_token_pool.req_to_token
        ext = fb.forward_mode.is_extend()
        n_new = fb.extend_seq_lens.tolist() if ext else [1] * len(rows)
        pre = fb.extend_prefix_lens.tolist() if ext else [n - 1 for n in lens]
        pix = []
        if getattr(fb, "pixel_values", None) is not None:
            pix = [int(x) for x in fb.pixel_values.flatten()]
        want = sum(1 for t in ids if t == IMAGE_TOKEN)
        if want != len(pix):
            raise ValueError(f"{want} image tokens but {len(pix)} image features")
        if len(ids) != sum(n_new) or len(loc) != len(ids):
            raise ValueError("batch layout")
        out = torch.zeros(len(ids) if ext else len(rows), self.V)
        k, self.seen = 0, []
        for i, row in enumerate(rows):
            line = table[row, :lens[i]].tolist()
            if ext and self.r.gdn_pool is not None:
                st = self._state(row)
                if pre[i] == 0 and st != () or pre[i] > 0 and len(st) != pre[i]:
                    st = ("state of another prefix",) + st
            for j in range(n_new[i]):
                if n_new[i] == 0:
                    break
                t = ids[k]
                if t == IMAGE_TOKEN:
                    t = 100 + pix.pop(0)
                before = [self.kv.get(x, (-9,))[-1] for x in line[:pre[i] + j]]
                if pos[k] != pre[i] + j:
                    before = [-1] + before
                self.kv[loc[k]] = tuple(before + [t])
                k += 1
            ctx = [self.kv.get(x, (-9,)) for x in line]
            own = [c[-1] for c in ctx]
            if self.r.gdn_pool is not None:
                st = self._state(row)
                if st != tuple(own[:pre[i]]):
                    ctx = ["recurrent state", st]
                    own = [-5]
                else:
                    self._set_state(row, own)
            self.seen.append(ctx)
            out[k - 1 if ext else i, tok(own, self.V)] = 1000.0
        return out


class Attn:
    def init_forward_metadata(self, fb):
        pass


def runner_class(cfg, box, window=None):
    class Runner(mr_mod.ModelRunner):
        sliding_window_size = window

        def __init__(self, server_config=None, model_config=None, gpu_id=0):
            self.server_config, self.model_config, self.gpu_id = server_config, model_config, gpu_id
            self.device, self.dtype = "cpu", torch.float32
            box.append(self)

        def initialize(self):
            V = cfg["V"]
            self.vocab_size, self.context_len = V, cfg["Ctx"]
            self.max_running_requests = cfg["MaxRun"]
            self.max_total_num_tokens = cfg["Cap"]
            self.kv_cache_dtype = self.dtype
            self.forward_pass_id = 0
            self.graph_runner = None
            self.attn_backend = Attn()
            self.req_to_token_pool = mp.make_req_to_token_pool(cfg["MaxRun"], cfg["Ctx"], "cpu")
            self.token_to_kv_pool, self.token_to_kv_pool_allocator = mp.make_full_attention_net_mem_pool(
                cfg["Cap"], 1, 1, 1, 1, 1, device="cpu", dtype=torch.float32, pin_memory=False)
            self.gdn_pool, self.num_gdn_layers = None, 0
            self.full_attn_layer_ids = set()
            if cfg["Hybrid"]:
                self.num_gdn_layers = 2
                self.gdn_pool = mp.GDNPool(cfg["MaxRun"], 2, 1, 1, 1, 1, 2, device="cpu", dtype=torch.float32,
                                           max_track_slots=cfg["Tracks"])
            self.model = Net(self, V)

        def sample(self, logits_output, forward_batch, **kw):
            self.params = dict(top_k=kw["top_ks"].tolist(), top_p=kw["top_ps"].tolist(), temp=kw["temperatures"].tolist(),
                               pen=kw.get("penalty_params"))
            return super().sample(logits_output, forward_batch, **kw)
    return Runner


class Conf:
    pass


class FakeTokenizer:
    """Text is a JSON list of token ids."""
    padding_side = "left"

    @classmethod
    def from_pretrained(cls, *a, **k):
        return cls()

    def __call__(self, text, truncation=False, max_length=None, **k):
        ids = [IMAGE_TOKEN if t >= 100 else t for t in json.loads(text)]
        return {"input_ids": ids[:max_length] if truncation and max_length else ids}


class FakeProcessor(FakeTokenizer):
    def __call__(self, images=None, text=None, return_tensors=None):
        ids = [IMAGE_TOKEN if t >= 100 else t for t in json.loads(text)]
        return {"input_ids": torch.tensor([ids]), "pixel_values": torch.tensor([[float(i)] for i in images])}


def make_tokenizer(shared_queue=None, ctx=None):
    old = tp.AutoTokenizer, tp.AutoProcessor
    tp.AutoTokenizer, tp.AutoProcessor = FakeTokenizer, FakeProcessor
    try:
        return tp.TokenizerProcess("", "", dict(tokenizer_path="", context_length=ctx,
                                                enable_shared_queue=shared_queue is not None), shared_queue)
    finally:
        tp.AutoTokenizer, tp.AutoProcessor = old


class LocalQueue(queue.Queue):
    """Stands in for multiprocessing.Queue: same order, no feeder thread."""

    def get(self, block=True, timeout=None):
        if self.more():
            return super().get(False)
        raise queue.Empty

    def more(self):
        return not self.empty()

    def close(self):
        pass


class Serve:
    """cfg: the specification's constants (Python values)."""

    def __init__(self, cfg, shared=False, window=None, mamba=False):
        self.cfg = cfg
        sc, mc = Conf(), Conf()
        sc.disable_radix_cache = not cfg["CacheOn"]
        sc.radix_cache_page_size = cfg["P"]
        sc.enable_mamba_cache = mamba
        sc.decode_log_interval = 3
        sc.max_running_requests = cfg["MaxRun"]
        sc.dtype = "auto"
        mc.hf_config = None
        box = []
        self.queue = None
        if shared:
            self.queue = TensorQueue(maxsize=0)
            self.queue.close()
            self.queue._queue = LocalQueue()
            self.queue._queue.more = self.more
        old = mr_mod.ModelRunner
        mr_mod.ModelRunner = runner_class(cfg, box, window)
        try:
            self.s = sp.SchedulerProcess(
                "", "", server_config=sc, model_config=mc, shared_queue=self.queue, enable_shared_queue=shared,
                max_running_requests=cfg["MaxRun"], max_prefill_tokens=cfg["MaxPrefill"],
                max_total_tokens=cfg["MaxTotal"], eos_token_ids=sorted(cfg["Eos"]), default_max_new_tokens=50)
            self.s.init_model()
        finally:
            mr_mod.ModelRunner = old
        self.runner = box[0]
        self.raw = []
        self.inbox, self.sent, self.idle, self.ran = [], [], False, None
        s, me = self.s, self

        class Sock:
            def recv_pyobj(self, *a, **k):
                if me.inbox or me.more():
                    return me.inbox.pop(0)
                raise zmq.Again

            def send_pyobj(self, m, *a, **k):
                me.sent.append(m)

        class Poller:
            def poll(self, timeout=None):
                return [(sock, 1)] if me.more() else []

        class Sleeper:
            def sleep(self):
                me.idle = True
        sock = Sock()

        class Front:
            def recv_pyobj(self, *a, **k):
                if not me.raw:
                    raise Pause
                return me.raw.pop(0)

            def send_pyobj(self, m, *a, **k):
                me.inbox.append(m)
        self.tokenizer = make_tokenizer(self.queue)
        self.tokenizer._recv_from_rr = self.tokenizer._send_to_scheduler = Front()
        s._recv_from_tokenizer = sock
        s._send_to_detokenizer = sock
        s._poller = Poller()
        s._idle_sleeper = Sleeper()
        real = s.run_batch

        def run_batch(batch):
            me.ran = None
            r = real(batch)
            me.ran = ("extend" if batch.forward_mode.is_extend() else "decode", [self.num(q.rid) for q in batch.reqs])
            me.seen = [dict(r=r_, ctx=c) for r_, c in zip(me.ran[1], me.runner.model.seen)]
            me.pars = me.runner.params
            me.hits = [o.get("prefix_len", 0) for o in r["outputs"]] if me.ran[0] == "extend" else []
            return r
        s.run_batch = run_batch

    def more(self):
        """Is there another message?  Asking again after a no starts the next iteration."""
        n = len(self.inbox) if self.queue is None else self.queue._queue.qsize()
        if n == 0:
            if self.drained:
                raise Pause
            self.drained = True
        return n > 0

    @staticmethod
    def num(rid):
        return int(rid[1:])

    @staticmethod
    def params(r):
        return dict(top_k=r + 2, top_p=1 - r / 1000.0, temperature=float(r % 2), presence_penalty=r / 1000.0)

    def submit(self, a):
        p, r = list(a["p"]), a["r"]
        raw = dict(rid=f"r{r}", stream=a["stream"],
                   sampling_params=dict(self.params(r), max_new_tokens=a["max"], stop_token_ids=sorted(a["stop"])))
        img = [t - 100 for t in p if t >= 100]
        if img:
            raw["image_data"] = img
        if img or r % 2:
            raw["text"] = json.dumps(p) if p else "nothing the tokenizer can read"
        else:
            raw["input_ids"] = p
        self.raw.append(raw)

    def tokenize(self):
        try:
            self.tokenizer.event_loop()
        except Pause:
            pass

    def iterate(self):
        self.sent, self.idle, self.ran, self.drained = [], False, None, False
        self.seen, self.hits = [], []
        self.tokenize()
        try:
            self.s.event_loop()
        except Pause:
            pass
        msgs = []
        for m in self.sent:
            assert len(m["rids"]) == 1
            msgs.append(dict(r=self.num(m["rids"][0]), fin=m["finished_reasons"][0] or "", off=m["read_offsets"][0],
                             ids=list(m["decode_ids"]), all=list(m["output_ids"]), prompt=m["prompt_tokens"][0],
                             completion=m["completion_tokens"][0]))
        seen = self.seen
        if self.ran:
            P = self.pars
            for i, e in enumerate(seen):
                w = self.params(e["r"])
                ok = (P["top_k"][i] == w["top_k"] and abs(P["top_p"][i] - w["top_p"]) < 1e-6 and P["temp"][i] == w["temperature"])
                pen = P["pen"]
                ok = ok and pen is not None and abs(float(pen["presence_penalties"][i]) - w["presence_penalty"]) < 1e-6
                e["par"] = e["r"] if ok else -1
                e["hist"] = list(pen["token_histories"][i]) if pen else []
        mode, rids = self.ran or ("none", [])
        mr = self.s._model_runner
        c = mr._radix_cache
        cached = hasattr(c, "root_node")
        r = dict(msgs=msgs, batch=dict(mode=mode, rids=rids), seen=seen, hits=self.hits, idle=self.idle,
                 kv_free=self.runner.token_to_kv_pool_allocator.available_size(),
                 evictable=c.evictable_size() if cached else 0, protected=c.protected_size() if cached else 0,
                 slots_free=self.runner.req_to_token_pool.available_size(), snaps=0,
                 used=getattr(self.s, "_used_tokens", None))
        if self.runner.gdn_pool is not None and cached:
            r["snaps"] = self.cfg["Tracks"] - len(self.runner.gdn_pool._free_track_slots)
        return r

    def step(self, op, a):
        if op == "submit":
            self.submit(a)
        elif op == "abort":
            self.raw.append({"rid": f"r{a['r']}", "abort": True})
        elif op == "iterate":
            return self.iterate()
        return dict(n=0)

"""Q07: HTTP answers carry the engine's results for their own prompts.  Spec: Http."""
import asyncio
import json
import logging
import random
import warnings

warnings.simplefilter("ignore")
from harness.py import webapp as http  # noqa: E402
from lib import cover, report, tlc  # noqa: E402


class Tok:
    """Renders what the handler passes to the chat template."""

    def apply_chat_template(self, msgs, tokenize=True, add_generation_prompt=False, **kw):
        assert not tokenize and add_generation_prompt
        return json.dumps([msgs, kw])


SP = ("temperature", "top_p", "top_k", "max_new_tokens", "stop", "frequency_penalty", "presence_penalty", "repetition_penalty", "seed")


def settings(c):
    """Some settings per call; zeros are settings too."""
    a = dict(temperature=[0, 0.5, 1][c % 3], seed=c - 1)
    if c % 2:
        a.update(top_k=c % 3, top_p=0.25, max_tokens=c, presence_penalty=0.0)
    if c % 3 == 0:
        a.update(stop="END", frequency_penalty=0.5, repetition_penalty=1.5)
    elif c % 3 == 1:
        a.update(stop=["x", "y"])
    want = dict(a)
    if "max_tokens" in want:
        want["max_new_tokens"] = want.pop("max_tokens")
    if isinstance(want.get("stop"), str):
        want["stop"] = [want["stop"]]
    return a, want


class Order:
    """Messages and events whose order matters only among those of one request."""

    def __init__(self, evs):
        self.evs = evs

    def key(self, evs):
        d = {}
        for e in evs:
            d.setdefault((str(e["c"]), str(e.get("i"))), []).append(e)
        return d

    def __eq__(self, want):
        return self.key(self.evs) == self.key(want)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.evs)


class Adapter:
    def __init__(self, cfg):
        self.cfg = cfg
        self.loop = asyncio.new_event_loop()
        self.loop.run_until_complete(self.start())
        self.calls, self.rids, self.wants = {}, {}, {}
        self.extra, self.sent, self.named = [], set(), set()

    async def start(self):
        self.e, self.rr, self.s = http.make(api_key="right" if self.cfg["Key"] else None, admin_api_key="admin" if self.cfg["Key"] else None,
                                            max_queued_requests=self.cfg["MaxQ"] or None,
                                            reasoning_parser="qwen3" if self.cfg["Scripts"] else None,
                                            tool_call_parser="hermes" if self.cfg["Scripts"] else None)
        http.srv._tokenizer = Tok()
        self.gate = asyncio.Event()
        self.gate.set()
        put = self.s.send_pyobj

        async def send(m, *a, **k):
            while not self.gate.is_set():
                await self.gate.wait()
            await put(m)
        self.s.send_pyobj = send

    async def ticks(self, n=80):
        for _ in range(n):
            await asyncio.sleep(0)

    async def settle(self, done):
        """Until done; longer when something is expected to happen and has not."""
        await self.ticks()
        end = self.loop.time() + 0.5
        while not done() and self.loop.time() < end:
            await asyncio.sleep(0.005)
        await self.ticks(20)

    def call(self, c, t):
        n, kind, st = t["n"], t["kind"], t["stream"]
        texts = [f"prompt {c}.{i}" for i in range(1, n + 1)]
        head = [("authorization", "Bearer " + t["key"])] if t["key"] != "none" else []
        a, want = settings(c)
        if kind == "gen":
            body = dict(stream=st, rid=[f"q{c}.{i}" for i in range(1, n + 1)], tag=c)
            path = "/generate"
            if c % 4 == 3:
                # no ids given: the server makes some up
                body.pop("rid")
            else:
                self.named |= {(c, i) for i in range(1, n + 1)}
                self.rids.update({f"q{c}.{i}": (c, i) for i in range(1, n + 1)})
            if c % 2:
                body["text"] = texts
                body["sampling_params"] = [dict(want, top_k=i) for i in range(n)]
            else:
                body["input_ids"] = [[c, i] for i in range(1, n + 1)]
                body["sampling_params"] = want
            wants = []
            for i in range(1, n + 1):
                w = dict(stream=st, tag=c, sampling_params=dict(want, top_k=i - 1) if c % 2 else want)
                w.update(dict(text=texts[i - 1]) if c % 2 else dict(input_ids=[c, i]))
                wants.append(w)
            if n == 1 and not t["listed"]:
                for k in ("rid", "text", "input_ids"):
                    if k in body:
                        body[k] = body[k][0]
                if isinstance(body["sampling_params"], list):
                    body["sampling_params"] = body["sampling_params"][0]
            if t["bad"] == "noinput":
                body.pop("text", None)
                body.pop("input_ids", None)
        elif kind == "cmpl":
            path = "/v1/completions"
            body = dict(a, prompt=texts if n > 1 or t["listed"] else texts[0], stream=st, model=f"model {c}")
            wants = [dict(stream=st, text=x, sampling_params=want) for x in texts]
        else:
            path = "/v1/chat/completions"
            msgs = [dict(role="system", content="s"), dict(role="user", content=[dict(type="text", text=texts[0])])]
            sent = [dict(role="system", content="s"), dict(role="user", content=[dict(type="text", text=texts[0])])]
            kw = dict(enable_thinking=True) if self.cfg["Scripts"] else {}
            body = dict(a, messages=msgs, stream=st, model=f"model {c}", separate_reasoning=t["sep"], stream_reasoning=c % 2 == 0)
            if t["tools"]:
                body["tools"] = [dict(type="function", function=dict(name="f"))]
            if c % 3 == 0:
                body["chat_template_kwargs"] = dict(x=1, enable_thinking=False)
                kw = dict(x=1, enable_thinking=False)
            if c % 4 == 0 and "max_tokens" in body:
                body["max_completion_tokens"] = 77
                want = dict(want, max_new_tokens=77)
            w = dict(stream=st, sampling_params=want)
            if c % 2:
                msgs[1]["content"].append(dict(type="image_url", image_url=dict(url=f"http://{c}")))
                sent[1]["content"].append(dict(type="image_url", image_url=dict(url=f"http://{c}")))
                w["image_data"] = [f"http://{c}"]
            w["text"] = json.dumps([sent, kw])
            wants = [w]
        if t["usage"]:
            body["stream_options"] = dict(include_usage=True)
        if t["bad"] == "n":
            body["n"] = 2
        elif t["bad"] == "echo":
            body["echo"] = True
        elif t["bad"] == "logprobs":
            body["logprobs"] = True if kind == "chat" else 2
        for i, w in enumerate(wants, 1):
            self.wants[(c, i)] = w
        x = dict(t=t, cl=http.Client("POST", path, body, head), role=False, usage=None, done=False, sum=dict(r="", c="", calls=[]), err=False, why="")
        self.calls[c] = x

    def read(self, m):
        """A message sent to the tokenizer, recognised by its contents."""
        if m.get("abort"):
            c, i = self.rids.get(m.get("rid"), ("unknown id", 0))
            return dict(c=c, i=i, abort=True)
        for (c, i), w in self.wants.items():
            ok = all(m.get(k) == v for k, v in w.items() if k != "sampling_params")
            sp = m.get("sampling_params") or {}
            if ok and all(sp.get(k) == w["sampling_params"].get(k) for k in SP) and ("image_data" in w or "image_data" not in m):
                if self.rids.get(m["rid"], (c, i)) != (c, i) or m["rid"] in self.sent or (c, i) in self.named and m["rid"] != f"q{c}.{i}":
                    return dict(c="wrong id", i=m["rid"], abort=False)
                self.rids[m["rid"]] = (c, i)
                self.sent.add(m["rid"])
                return dict(c=c, i=i, abort=False)
        return dict(c="not what was asked", i=str(m), abort=False)

    def rid(self, c, i):
        return next((r for r, x in self.rids.items() if x == (c, i)), f"q{c}.{i}")

    def put(self, c, i, k, text, delta, last, why):
        self.s.inbox.append(dict(rid=self.rid(c, i), text=text, delta=delta, finished=last, finished_reason=why if last else None,
                                 prompt_tokens=10 * c + i, completion_tokens=k, output_token_ids=list(range(k))))

    def piece(self, c, i, k):
        return "" if (c + k) % 3 == 2 else f"<{c}.{i}.{k}>"

    def k_of(self, c, i, text):
        """Which piece of this request a text is: its number, or what is wrong."""
        if not text:
            return 0
        k = text.strip("<>").split(".")
        return int(k[2]) if len(k) == 3 and text == self.piece(c, i, int(k[2])) else f"strange text {text!r}"

    def stream_items(self, c, x):
        out = []
        kind = x["t"]["kind"]
        for ev in x["cl"].events():
            if x["done"]:
                out.append(dict(c=c, i="after the end", k=str(ev), why=""))
            elif ev == "DONE":
                x["done"] = True
            elif "error" in ev and "rid" not in ev:
                x["err"] = True
            elif kind == "gen":
                rc, i = self.rids.get(ev["rid"], ("unknown id", 0))
                if ev.get("error"):
                    out.append(dict(c=rc, i=i, k=0, why=ev["error"]))
                else:
                    out.append(dict(c=rc, i=i, k=self.k_of(c, i, ev["delta"]), why=ev["finished_reason"] or ""))
                    if ev["output_token_ids"] != list(range(ev["completion_tokens"])):
                        out.append(dict(c=c, i=i, k="changed", why=str(ev)))
            else:
                assert ev["model"] == f"model {c}", ev
                if not ev["choices"]:
                    u = ev["usage"]
                    assert u["total_tokens"] == u["prompt_tokens"] + u["completion_tokens"] and x["usage"] is None, u
                    x["usage"] = dict(p=u["prompt_tokens"], c=u["completion_tokens"])
                    continue
                assert x["usage"] is None and len(ev["choices"]) == 1, ev
                ch = ev["choices"][0]
                if kind == "cmpl":
                    i = ch["index"] + 1
                    out.append(dict(c=c, i=i, k=self.k_of(c, i, ch["text"]), why=ch["finish_reason"] or ""))
                    continue
                d = ch["delta"]
                if not x["role"]:
                    assert d == dict(role="assistant") and not ch["finish_reason"], ev
                    x["role"] = True
                    continue
                assert not x["why"], ("after the finish", ev)
                x["why"] = ch["finish_reason"] or ""
                x["sum"]["r"] += d.get("reasoning_content") or ""
                x["sum"]["c"] += d.get("content") or ""
                for tc in d.get("tool_calls", []):
                    calls = x["sum"]["calls"]
                    if tc["function"].get("name"):
                        assert tc["index"] == len(calls), ev
                        calls.append(dict(name=tc["function"]["name"], args=""))
                    calls[tc["index"]]["args"] += tc["function"]["arguments"]
                if not self.cfg["Scripts"]:
                    out.append(dict(c=c, i=1, k=self.k_of(c, 1, d.get("content") or ""), why=x["why"]))
        return out

    def ending(self, c, x, t):
        """What a call that is over was told."""
        cl = x["cl"]
        none = dict(r="", c="", calls=[])
        zero = dict(p=0, c=0)
        e = dict(c=c, status=cl.status, usage=zero, answers=[], msg=none)
        if cl.status != 200:
            return e
        if t["stream"]:
            if not x["done"]:
                return dict(e, status="no end mark")
            if x["err"]:
                return dict(e, status=500)
            parsed = self.cfg["Scripts"] and t["kind"] == "chat"
            if parsed:
                fin = x["why"]
                if fin != x["want_why"]:
                    return dict(e, status=f"finish {fin}")
            return dict(e, usage=x["usage"] or zero, msg=x["sum"] if parsed else none)
        b = cl.answer()
        if t["kind"] == "gen":
            rs = b if isinstance(b, list) else [b]
            for r in rs:
                rc, i = self.rids.get(r["rid"], (0, 0))
                if r.get("error"):
                    e["answers"].append(dict(k=0, why=r["error"]))
                else:
                    k = r["completion_tokens"]
                    e["answers"].append(dict(k=k if r["text"] == f"all {c}.{len(e['answers']) + 1}.{k}" else r["text"], why=r["finished_reason"]))
            return e
        u = b["usage"]
        assert u["total_tokens"] == u["prompt_tokens"] + u["completion_tokens"] and b["model"] == f"model {c}", b
        e["usage"] = dict(p=u["prompt_tokens"], c=u["completion_tokens"])
        for j, ch in enumerate(b["choices"]):
            assert ch["index"] == j, b
            text = ch["text"] if t["kind"] == "cmpl" else ch["message"]["content"]
            if t["kind"] == "chat" and self.cfg["Scripts"]:
                m = ch["message"]
                e["msg"] = dict(r=m.get("reasoning_content") or "", c=text or "",
                                calls=[dict(name=q["function"]["name"], args=q["function"]["arguments"]) for q in m.get("tool_calls") or []])
                e["answers"].append(dict(k=u["completion_tokens"], why=ch["finish_reason"]))
                continue
            p = (text or "").split(".")
            k = int(p[-1]) if p[-1].isdigit() else p
            e["answers"].append(dict(k=k if text == f"all {c}.{j + 1}.{k}" else repr(text), why=ch["finish_reason"]))
        return e

    async def do(self, op, a):
        done = lambda: True  # noqa: E731
        if op == "open":
            self.call(a["c"], a["t"])
        elif op == "result":
            for k in range(a["k"] + 1, a["k"] + a["m"] + 1):
                last = a["last"] and k == a["k"] + a["m"]
                self.put(a["c"], a["i"], k, f"all {a['c']}.{a['i']}.{k}", self.piece(a["c"], a["i"], k), last, a["why"])
        elif op == "say":
            self.put(a["c"], 1, a["k"], a["text"], a["new"], a["last"], a["why"])
            x = self.calls[a["c"]]
            s = self.cfg["Scripts"][a["c"] % len(self.cfg["Scripts"])]
            x["want_why"] = "tool_calls" if x["t"]["tools"] and s["calls"] else "length" if a["why"] == "length" else "stop"
        elif op == "leave":
            n = len(self.s.sent)
            mine = [r for r, k in self.rids.items() if k[0] == a["c"]]
            x = self.calls.pop(a["c"])
            x["cl"].leave()
            done = lambda: len(self.s.sent) > n or not self.gate.is_set()  # noqa: E731
        elif op == "abort":
            cl = http.Client("POST", "/abort_request", dict(rid=self.rid(a["c"], a["i"])), [("authorization", "Bearer right")])
            await self.ticks()
            assert cl.status == 200, cl.status
        elif op == "again":
            cl = http.Client("POST", "/generate", dict(rid=self.rid(a["c"], a["i"]), text="other"), [("authorization", "Bearer right")])
            await self.ticks()
            self.extra.append(dict(c=0, status=cl.status, usage=dict(p=0, c=0), answers=[], msg=dict(r="", c="", calls=[])))
        elif op == "jam":
            self.gate.clear()
        elif op == "unjam":
            self.gate.set()
        await self.settle(done)
        if op == "leave":
            # stalled, nothing shows that the aborts are queued
            for _ in range(0 if self.gate.is_set() else 100):
                await asyncio.sleep(0.003)
                live = getattr(self.rr, "_rid_to_state", None)
                if live is not None and not any(r in live for r in mine):
                    break
            await self.ticks(20)

    def step(self, op, args):
        self.s.sent.clear()
        self.extra.clear()
        self.loop.run_until_complete(self.do(op, args))
        out, ended = [], list(self.extra)
        fwd = [self.read(m) for m in self.s.sent]
        for c, x in list(self.calls.items()):
            if x["t"]["stream"] and x["cl"].status == 200:
                out += self.stream_items(c, x)
            if x["cl"].over:
                assert x["cl"].task.done(), "answered but still running"
                ended.append(self.ending(c, x, x["t"]))
                x["cl"].task.result()
                del self.calls[c]
        return dict(fwd=Order(fwd), out=Order(out), ended=Order(ended))

    def close(self):
        async def stop():
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
            await self.ticks(10)
        self.loop.run_until_complete(stop())
        self.loop.close()


def T(kind="gen", n=1, stream=False, usage=False, key="right", bad="", sep=True, tools=False, listed=False):
    return dict(kind=kind, n=n, stream=stream, usage=usage, key=key, bad=bad, sep=sep, tools=tools, listed=listed)


def graph(ctx, name, consts, cap, sims, big):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    inv = ["AbortLast", "Answered", "QueueOnlyJammed"]
    consts = dict(dict(MaxQ=0, Key=False, Scripts=[], Cuts={1}, Jams=False), **consts)
    paths = []
    if cap:
        r = tlc.explore("Http", consts, invariants=inv, workers=4)
        ctx.add_model(r)
        paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed, max_len=30)
        if len(paths) > cap:
            paths = random.Random(ctx.seed).sample(paths, cap)
        ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions")
        report.replay(ctx, name, paths, lambda: Adapter(consts))
    depth = big.pop("depth", 30)
    bigger = dict(consts, **big)
    sim = tlc.simulate("Http", bigger, depth=depth, num=sims, seed=ctx.seed, stop="~ENABLED Next")
    report.replay(ctx, name, sim, lambda: Adapter(bigger))
    paths += sim
    ctx.log(f"{name}: {len(paths)} behaviours")


SCRIPTS = [dict(r="why not", c="Yes.\nNo", calls=[]), dict(r="", c="1 < 2 <tool", calls=[]),
           dict(r="a<b", c="calling", calls=[dict(name="f", args='{"x": 1}'), dict(name="g", args='{"y": "<z>"}')]),
           dict(r="no end", c="", calls=[dict(name="f", args='{}')])]


def body(ctx):
    n = ctx.pick(30, 400)
    cap = ctx.pick(120, 1500)
    every = [T(k, stream=s, usage=u) for k in ("gen", "cmpl", "chat") for s in (False, True) for u in (False, True) if not (u and (k == "gen" or not s))]
    batch = [T(k, n=m, stream=s, usage=s and k == "cmpl", listed=True) for k in ("gen", "cmpl") for m in (1, 2, 3) for s in (False, True)]
    odd = [T("gen", bad="noinput"), T("gen", bad="noinput", stream=True), T("cmpl", bad="n"), T("cmpl", bad="echo", stream=True), T("cmpl", bad="logprobs"),
           T("chat", bad="n", stream=True), T("chat", bad="logprobs")]
    keys = [T(k, key=x, stream=s) for k in ("gen", "cmpl", "chat") for x in ("none", "right", "admin", "wrong") for s in (False, True)]
    parse = [T("chat", stream=s, usage=s, sep=p, tools=t) for s in (False, True) for p in (False, True) for t in (False, True)]
    S = lambda ts: {tlc.Rec(t) for t in ts}  # noqa: E731
    ctx.parallel([
        (graph, ("single prompts", dict(Templates=S(every), MaxCalls=2, MaxRes=2), cap, n, dict(MaxCalls=8, MaxRes=6)), {}),
        (graph, ("batches", dict(Templates=S(batch[2:]), MaxCalls=1, MaxRes=2), cap, n, dict(Templates=S(batch + every), MaxCalls=6, MaxRes=6, depth=40)), {}),
        (graph, ("stalls", dict(Templates=S([every[0], every[1], T("cmpl", n=3, stream=True)] + odd[:2]), MaxCalls=2, MaxRes=1, MaxQ=1, Jams=True), cap, n,
                 dict(Templates=S(batch + every + odd), MaxCalls=8, MaxRes=5, MaxQ=2, depth=40)), {}),
        (graph, ("keys", dict(Templates=S(keys + odd), MaxCalls=1, MaxRes=1, Key=True), cap, n // 2, dict(MaxCalls=9, MaxRes=4)), {}),
        (graph, ("reasoning and tools", dict(Templates=S(parse), MaxCalls=8, MaxRes=99, Scripts=SCRIPTS, Cuts={1, 2, 3, 9, 40}), 0, 2 * n, dict(depth=120)), {}),
    ], procs=5)
    ctx.assumptions.append("the application is called through ASGI; ids are chosen by the client only for /generate")


if __name__ == "__main__":
    report.main("Q07", body)

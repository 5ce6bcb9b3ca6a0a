"""Q02: streamed text adds up to the decoding of the generated tokens.  Spec: Detok."""
import os
import random
import shutil
import tempfile

from tokenizers import AddedToken, Tokenizer, decoders, models
from transformers import PreTrainedTokenizerFast

from lib import cover, report, tlc
from pymllm.orchestrator.detokenizer_process import DetokenizerProcess

WHY = dict(stop="eos_token", length="length")


def gpt2_alphabet():
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    m, k = {b: chr(b) for b in bs}, 0
    for b in range(256):
        if b not in m:
            m[b] = chr(256 + k)
            k += 1
    return m


def byte_level(vocab, path):
    """A byte-level BPE tokenizer, as Qwen and Llama 3 use, with the model's vocabulary."""
    alpha = gpt2_alphabet()
    words = {}
    for i, bs in enumerate(vocab):
        words["".join(alpha[b] for b in bs) if bs else f"<|special{i}|>"] = i
    t = Tokenizer(models.BPE(vocab=dict(words), merges=[]))
    t.decoder = decoders.ByteLevel()
    t.add_special_tokens([AddedToken(w, special=True) for w, i in words.items() if not vocab[i]])
    PreTrainedTokenizerFast(tokenizer_object=t, clean_up_tokenization_spaces=False).save_pretrained(path)


def byte_fallback(vocab, path):
    """A tokenizer with byte fallback, as SentencePiece models use; single bytes only where not ASCII."""
    words = {}
    for i, bs in enumerate(vocab):
        if not bs:
            w = f"<s{i}>"
        elif all(b < 128 for b in bs):
            w = bytes(bs).decode().replace(" ", "\u2581")
        else:
            assert len(bs) == 1
            w = f"<0x{bs[0]:02X}>"
        words[w] = i
    t = Tokenizer(models.BPE(vocab=words, merges=[], byte_fallback=True))
    t.decoder = decoders.Sequence([decoders.Replace("\u2581", " "), decoders.ByteFallback(), decoders.Fuse()])
    t.add_special_tokens([AddedToken(w, special=True) for w, i in words.items() if not vocab[i]])
    PreTrainedTokenizerFast(tokenizer_object=t, clean_up_tokenization_spaces=False).save_pretrained(path)


class Over(BaseException):
    pass


class Wire:
    def __init__(self):
        self.inbox, self.sent = [], []

    def recv_pyobj(self):
        if not self.inbox:
            raise Over
        return self.inbox.pop(0)

    def send_pyobj(self, m):
        self.sent.append(m)

    def close(self):
        pass


class One:
    """What arrived for one message; equal to what the specification allows."""

    def __init__(self, results, facts, shown):
        self.results, self.facts, self.shown = results, facts, shown
        self.why = None

    def __eq__(self, want):
        self.why = self.compare(want)
        return self.why is None

    def compare(self, want):
        if len(self.results) != 1:
            return f"{len(self.results)} results"
        x, f = self.results[0], self.facts
        fin = want["fin"] != "none"
        if x.get("rid") != f["rid"]:
            return f"id {x.get('rid')}"
        if x.get("output_token_ids") != [t - 1 for t in want["ids"]]:
            return f"ids {x.get('output_token_ids')}"
        if bool(x.get("finished")) != fin or x.get("finished_reason") != (WHY[want["fin"]] if fin else None):
            return f"finished {x.get('finished')} {x.get('finished_reason')}"
        for k in ("prompt_tokens", "completion_tokens", "vit_prefill_ms", "vit_prefill_tokens", "llm_prefill_ms", "llm_decode_ms"):
            if x.get(k) != f[k]:
                return f"{k} {x.get(k)} not {f[k]}"
        if fin and [ord(c) for c in x["text"]] != want["text"]:
            return f"final text {x['text']!r}"
        got = [ord(c) for c in self.shown]
        if got != want["text"] if fin else got != want["firm"][:len(got)]:
            return f"streamed so far {self.shown!r}"
        return None

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return f"{self.why}: {self.results}"


class Adapter:
    def __init__(self, path):
        self.d = DetokenizerProcess("", "", dict(tokenizer_path=path))
        self.d.init_tokenizer()
        self.restart()

    def restart(self):
        self.w = Wire()
        self.d._recv_from_scheduler = self.d._send_to_rr = self.w
        self.d._rid_to_prev_text.clear()
        self.shown, self.no = {}, {}
        return self

    def send(self, a, why):
        r, old = a["r"], [t - 1 for t in a["old"]]
        ids = old + [t - 1 for t in a["x"]]
        no = self.no[r]
        f = dict(rid=f"q{r}", prompt_tokens=10 * no + r, completion_tokens=len(ids), vit_prefill_ms=None, vit_prefill_tokens=None,
                 llm_prefill_ms=no + 0.5, llm_decode_ms=len(ids) * 0.25)
        if no % 2:
            f.update(vit_prefill_ms=no * 1.5, vit_prefill_tokens=no + 7)
        # as SchedulerProcess.stream_output and _collect_finished_output write it
        self.w.inbox.append(dict(
            rids=[f["rid"]], finished_reasons=[WHY[why] if why else None], decode_ids=ids[len(old):], read_offsets=[len(old)],
            output_ids=ids, skip_special_tokens=[True], **{k: [f[k]] for k in f if k != "rid"}))
        self.w.sent.clear()
        try:
            self.d.event_loop()
        except Over:
            pass
        for m in self.w.sent:
            self.shown[r] += m.get("delta", "")
        return One(list(self.w.sent), f, self.shown[r])

    def step(self, op, args):
        if op == "start":
            self.shown[args["r"]], self.no[args["r"]] = "", args["n"]
            return dict(n=0)
        if op == "drop":
            return dict(n=0)
        if op == "emit":
            return dict(one=self.send(args, None))
        one = self.send(args, args["why"])
        return dict(one=one, left=Left(self.d, f"q{args['r']}"))


class Left:
    """No state of the finished request is left (state of aborted ones may be)."""

    def __init__(self, d, rid):
        self.bad = [k for k, v in vars(d).items() if isinstance(v, (dict, set)) and rid in v]

    def __eq__(self, want):
        return not self.bad

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return f"state left in {self.bad}"


#            a     E4       BD A0        E4 BD        A0       special  F0 9F 98    80     " b"     FF      U+FFFD
WORDS = [[97], [0xE4], [0xBD, 0xA0], [0xE4, 0xBD], [0xA0], [], [0xF0, 0x9F, 0x98], [0x80], [32, 98], [0xFF], [0xEF, 0xBF, 0xBD],
         [98, 0xC3], [0xA9], [0xF0, 0x9F], [0xED, 0xA0], [10]]
SINGLE = [[97], [0xE4], [0xBD], [0xA0], [32, 98], [], [0xF0], [0x9F], [0x98], [0x80], [0xC3], [0xA9], [98, 99]]


def check(ctx, name, kind, vocab, rids, step, most, reqs, sims, long, cap=None):
    # byte fallback replaces a whole run of byte tokens unless all of it is well formed
    consts = dict(Vocab=vocab, Rids=set(rids), Step=step, MaxToks=most, MaxReqs=reqs, Whole=kind is byte_fallback)
    r = tlc.explore("Detok", consts, invariants=["ShownIsPart"], properties=["Grows"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed)
    if cap and len(paths) > cap:
        paths = random.Random(ctx.seed).sample(paths, cap)
    if sims:
        paths += tlc.simulate("Detok", dict(consts, **long), depth=40, num=sims, seed=ctx.seed, stop="~ENABLED Next")
    d = tempfile.mkdtemp(prefix="q02-")
    try:
        kind(long["Vocab"] if len(long["Vocab"]) > len(vocab) else vocab, d)
        ad = Adapter(d)
        report.replay(ctx, name, paths, ad.restart)
    finally:
        shutil.rmtree(os.path.abspath(d))
    ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions, {len(paths)} behaviours")


def body(ctx):
    n = ctx.pick(400, 6000)
    long = dict(Vocab=WORDS, Rids={1, 2, 3}, Step=1, MaxToks=9, MaxReqs=6)
    fall = dict(Vocab=SINGLE, Rids={1, 2}, Step=1, MaxToks=14, MaxReqs=3)
    jobs = [(check, ("byte fallback", byte_fallback, SINGLE[:6], [1], 1, ctx.pick(5, 6), 1, n, fall), {}),
            (check, ("one request", byte_level, WORDS[:8], [1], 1, ctx.pick(3, 4), 1, n, long), {}),
            (check, ("several tokens per message", byte_level, WORDS[:4], [1], 2, 4, 1, 0, long), {}),
            (check, ("id used again", byte_level, WORDS[:3], [1], 1, 2, 2, 0, long), {}),
            (check, ("interleaved", byte_level, WORDS[:2] + [[0xBD, 0xA0]], [1, 2], 1, 2, 2, 0, long), {})]
    ctx.parallel(jobs)
    ctx.assumptions.append("Tokenizers whose decoding of a longer sequence extends that of a shorter one, incomplete characters aside "
                           "(no clean-up of spaces)")


if __name__ == "__main__":
    report.main("Q02", body)

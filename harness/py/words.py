"""Word patterns, and the tokenizers that state them."""
import json
import os
import shutil
import tempfile

from harness.py import tokens
from lib import cxx

GPT2 = r"'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)"
LLAMA3 = (r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}{1,3}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+",
          r"(?:'[sS]|'[tT]|'[rR][eE]|'[vV][eE]|'[mM]|'[lL][lL]|'[dD])|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}{1,3}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+")
# what each tokenizer states, and patterns given to the splitter itself
STATES = dict(qwen3="qwen", qwen3_moe="qwen", qwen2vl="qwen", minicpmo="qwen", qwen_ascend="qwen", qwen_npu="npu", smollm3="gpt2", deepseek_ocr="gpt2")
DIRECT = {"split by a pattern of digits": ("digits", r"\p{N}{1,3}"), "split by the GPT-2 pattern": ("gpt2", GPT2), "split by the GPT-2 pattern, whole": ("gpt2", GPT2 + r"|\s+"),
          "split by the Llama-3 pattern": ("llama3", LLAMA3[0]), "split by the Llama-3 pattern, other form": ("llama3", LLAMA3[1])}


def build(more=True):
    """The tokenizers that come with images or sound are built with stand-ins for those."""
    try:
        return cxx.build("words", ["words.cpp", "tensor_stub.cpp"], tokens.SOURCES, san=False,
                         flags=["-O2", f"-I{cxx.VERIF}/harness/cpp/stubs"] + (["-DMORE"] if more else []))
    except cxx.BuildError:
        if not more:
            raise
        return build(False)


def mapped(w):
    return "".join(tokens.BYTE[b] for b in w.encode())


class Words:
    """texts: [(text, {pattern: [words]})]; a vocabulary is made in which every word there is one token."""

    def __init__(self, exe):
        self.d = cxx.Driver(exe, timeout=60)
        self.dir = tempfile.mkdtemp(prefix="words")

    def stop(self):
        self.d.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def vocabulary(self, texts):
        """Whatever is next to each other within a word merges; so do two neighbouring words, should they be taken as one."""
        pairs, seen = {}, set()
        for _, cuts in texts:
            for words in (w for p, w in cuts.items() if p in (*STATES.values(), "none")):
                for w in words:
                    if w in seen:
                        continue
                    seen.add(w)
                    for i in range(len(w)):
                        for k in range(i + 2, len(w) + 1):
                            for j in range(i + 1, k):
                                pairs[mapped(w[i:j]), mapped(w[j:k])] = None
                for a, b in zip(words, words[1:]):
                    pairs[mapped(a), mapped(b)] = None
        parts = {}                 # first of all the bytes of a character
        for c in {c for text, _ in texts for c in text}:
            m = mapped(c)
            for i in range(1, len(m)):
                parts[m[:i], m[i]] = None
        pairs = {**dict(sorted(parts.items(), key=lambda p: len(p[0][0]))), **pairs}
        vocab = {}
        for w in list(tokens.BYTE.values()) + [a + b for a, b in pairs]:
            vocab.setdefault(w, len(vocab))
        f, m = os.path.join(self.dir, "v.json"), os.path.join(self.dir, "merges.txt")
        with open(f, "w") as h:
            json.dump(dict(version="1.0", added_tokens=[], model=dict(type="BPE", vocab=vocab, merges=[list(p) for p in pairs])), h)
        with open(m, "w") as h:
            h.write("#version\n" + "".join(f"{a} {b}\n" for a, b in pairs))
        return self.d.ask(json.dumps(dict(op="open", file=f, merges=m)))["models"]

    def tokens(self, text):
        models = self.vocabulary([("ab", {"none": ["ab"]})])
        got = self.d.ask(json.dumps(dict(op="text", text=text, patterns={})))
        return [(m, got[m]) for m in models]

    def check(self, texts):
        """Yields (text, what is wrong)."""
        models = self.vocabulary(texts)
        for text, cuts in texts:
            got = self.d.ask(json.dumps(dict(op="text", text=text, patterns={k: v[1] for k, v in DIRECT.items()})))
            for who, p in [(m, STATES[m]) for m in models] + [(k, v[0]) for k, v in DIRECT.items()]:
                want = [mapped(w) for w in cuts[p]]
                if got[who] != want:
                    inv = {v: k for k, v in tokens.BYTE.items()}
                    g = [bytes(inv.get(c, 63) for c in w).decode(errors="replace") for w in got[who]]
                    yield text, f"{who}: {text!r} is cut into {g}, expected {cuts[p]}"

"""The tokenizers, and what the specification's characters stand for."""
import json
import os
import random
import shutil
import tempfile

from lib import cxx

SOURCES = ["mllm/preprocessor/tokenizers/AutoTokenizer.cpp", "mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/BPEUTF8.cpp",
           "mllm/preprocessor/tokenizers/Unicode.cpp", "mllm/utils/Log.cpp", "mllm/core/DataTypes.cpp", "mllm/core/TensorViewImpl.cpp",
           "mllm/core/SlicePrimitives.cpp", "mllm/core/DeviceTypes.cpp",
           "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode-data.cpp"] + cxx.XXH


def build():
    return cxx.build("tokens", ["tokens.cpp", "tensor_stub.cpp"], SOURCES, flags=[f"-I{cxx.VERIF}/harness/cpp/stubs"])


def byte_map():
    """The table GPT-2 byte-level vocabularies are written in."""
    keep = [*range(33, 127), *range(161, 173), *range(174, 256)]
    out = {b: chr(b) for b in keep}
    rest = [b for b in range(256) if b not in out]
    out.update({b: chr(256 + i) for i, b in enumerate(rest)})
    return out


BYTE = byte_map()


class Tokens:
    """configs: [dict(specials=[words], merges=[(word, word)], models=[...])]; chars: symbol -> text; bytes: whether units are bytes."""

    def __init__(self, exe, configs, chars, units, seed, models=()):
        self.exe, self.configs, self.chars, self.units, self.rnd, self.models = exe, configs, chars, units, random.Random(seed), list(models)
        self.dir = tempfile.mkdtemp(prefix="tokens")
        self.d = None

    def stop(self):
        if self.d:
            self.d.stop()
        self.d = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def text(self, w):
        return "".join(self.chars[c] for c in w)

    def word(self, w):
        return "".join(self.units[u] for u in w)

    def open(self, i):
        c = self.configs[i - 1]
        words = sorted({self.word(w) for w in [(u,) for u in self.units] + [a + b for a, b in c["merges"]]})
        specials = sorted(self.text(w) for w in c["specials"])
        ids = self.rnd.sample(range(1, 100000), len(words) + len(specials))
        self.ids = dict(zip(words + ["special " + s for s in specials], ids))
        pairs = [(self.word(a), self.word(b)) for a, b in c["merges"]]
        model = dict(type="BPE", vocab={w: self.ids[w] for w in words}, merges=[f"{a} {b}" for a, b in pairs] if i % 2 else [list(p) for p in pairs])
        added = [dict(id=self.ids["special " + s], content=s, special=True) for s in specials]
        self.rnd.shuffle(added)
        f = os.path.join(self.dir, f"{i}.json")
        with open(f, "w") as h:
            json.dump(dict(version="1.0", added_tokens=added, model=model), h, ensure_ascii=bool(i % 3))
        if self.d is None:
            self.d = cxx.Driver(self.exe, timeout=20)
        self.rnd.shuffle(specials)
        return self.d.ask(json.dumps(dict(op="open", file=f, specials=specials, one=bool(i % 2), models=bool(self.models))))

    def expected(self, res):
        parts = [[p["special"], self.text(p["chars"])] for p in res["parts"]]
        word = [self.word(w) for w in res["word"]]
        toks = [self.text(t["word"]) if t["special"] else self.word(t["word"]) for t in res["tokens"]]
        ids = [self.ids["special " + x if t["special"] else x] for t, x in zip(res["tokens"], toks)]
        return parts, word, [self.ids[w] for w in word], toks, ids

    def check(self, args, res):
        """None, or what is wrong."""
        text = self.text(args["text"])
        parts, word, wids, toks, ids = self.expected(res)
        got = self.d.ask(json.dumps(dict(op="text", text=text, units=self.word(res["units"]), models=self.models)))
        for what, want, g in [("split", parts, got["parts"]), ("split (utf-8)", parts, got["parts8"]), ("merges", word, got["words"]), ("merges (utf-8)", word, got["words8"]),
                              ("ids", wids, got["ids"]), ("ids (utf-8)", wids, got["ids8"]), ("words of ids", word, got["back"]), ("words of ids (utf-8)", word, got["back8"])]:
            if want != g:
                return f"{text!r}: {what}: {g}, expected {want}"
        for m in self.models:
            g = got[m]
            if g["tokens"] != toks:
                return f"{m} {text!r}: tokens {g['tokens']}, expected {toks}"
            if g["ids"] != ids:
                return f"{m} {text!r}: ids {g['ids']}, expected {ids}"
            back = "".join(g["text"])
            if len(g["text"]) > 1 or (len(toks) == 1 and m.startswith("qwen")):      # a token at a time: whole characters only
                inv = {v: k for k, v in BYTE.items()}
                try:
                    each = [t if x["special"] else bytes(inv[c] for c in t).decode() for t, x in zip(toks, res["tokens"])]
                except UnicodeDecodeError:
                    continue
                if each != g["text"]:
                    return f"{m} {text!r}: pieces {g['text']}, expected {each}"
            elif back != text:
                return f"{m} {text!r}: decoded as {back!r}"
        return None

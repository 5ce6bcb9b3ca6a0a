"""Q03: streaming reasoning separation equals parsing the whole text at once.  Spec: Reasoning."""
import random

from lib import cover, report, tlc
from pymllm.parsers.reasoning_parser import ReasoningParser

KINDS = dict(forced=("deepseek-r1", "qwen3-thinking"), free=("qwen3", "glm45"), kimi=("kimi",))
THINK = ("<think>", "</think>")
KIMI = ("\u25c1think\u25b7", "\u25c1/think\u25b7")


def one(p, pieces):
    r = c = ""
    for x in pieces:
        a, b = p.parse_stream_chunk(x)
        r, c = r + a, c + b
    a, b = p.flush()
    return r + a, c + b


class Adapter:
    def __init__(self, kind, marks, rnd):
        self.kind, self.marks, self.rnd = kind, marks, rnd
        self.p = ReasoningParser(kind)
        self.late = ReasoningParser(kind, stream_reasoning=False)
        self.r = self.c = self.lr = self.lc = ""

    def enc(self, s):
        # the specification writes the markers of every model family in ASCII
        if self.marks is KIMI:
            return s.replace("<", "\u25c1").replace(">", "\u25b7")
        return s

    def dec(self, s):
        return s.replace("\u25c1", "<").replace("\u25b7", ">") if self.marks is KIMI else s

    def step(self, op, args):
        if op == "feed":
            a, b = self.p.parse_stream_chunk(self.enc(args["p"]))
            self.r, self.c = self.r + self.dec(a), self.c + self.dec(b)
            a, b = self.late.parse_stream_chunk(self.enc(args["p"]))
            self.lr, self.lc = self.lr + self.dec(a), self.lc + self.dec(b)
            return dict(prefix=Within(self.r, self.c))
        text = args["text"]
        a, b = self.p.flush()
        got = [("streamed", self.r + self.dec(a), self.c + self.dec(b), False)]
        a, b = self.late.flush()
        got.append(("reasoning kept back", self.lr + self.dec(a), self.lc + self.dec(b), False))
        a, b = ReasoningParser(self.kind).parse_non_stream(self.enc(text))
        got.append(("at once", self.dec(a or ""), self.dec(b), True))
        for how in ("whole", "chars", "random", "random"):
            if how == "whole":
                ps = [text]
            elif how == "chars":
                ps = list(text)
            else:
                ps, i = [], 0
                while i < len(text):
                    j = i + self.rnd.randint(1, 5)
                    ps.append(text[i:j])
                    i = j
            a, b = one(ReasoningParser(self.kind), [self.enc(x) for x in ps])
            got.append((f"cut as {ps}", self.dec(a), self.dec(b), False))
        return dict(whole=Same(got))


class Same:
    """Compares equal to the expected split when every way of parsing gave it."""

    def __init__(self, got):
        self.got = got
        self.bad = None

    def __eq__(self, want):
        for how, r, c, trimmed in self.got:
            w = (want["r"], want["c"])
            if trimmed:  # surrounding white space is immaterial there
                w, r, c = (w[0].strip(), w[1].strip()), r.strip(), c.strip()
            if (r, c) != w:
                self.bad = (how, r, c)
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.bad or self.got)


class Within:
    def __init__(self, r, c):
        self.rc = (r, c)

    def __eq__(self, want):
        return want["r"].startswith(self.rc[0]) and want["c"].startswith(self.rc[1])

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.rc)


def check(ctx, name, forced, pieces, depth, kinds, marks=THINK, sims=0, long=12):
    consts = dict(Start="<think>", End="</think>", Forced=forced, Pieces=set(pieces), MaxPieces=depth)
    r = tlc.explore("Reasoning", consts, invariants=["Complete", "NoMarker", "ShownIsPart"], properties=["Grows"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed)
    if sims:
        paths += tlc.simulate("Reasoning", dict(consts, MaxPieces=long), depth=long + 1, num=sims, seed=ctx.seed,
                              stop="over")
    rnd = random.Random(ctx.seed)
    for k in kinds:
        report.replay(ctx, f"{name}/{k}", paths, lambda: Adapter(k, marks, rnd))
    ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions, {len(paths)} behaviours")


def body(ctx):
    d = ctx.pick(3, 4)
    n = ctx.pick(300, 4000)
    both = [("free", False, ("qwen3", "glm45")), ("forced", True, ("deepseek-r1", "qwen3-thinking")),
            ("other markers", False, ("kimi",))]
    jobs = []
    for nm, forced, kinds in both:
        m = KIMI if "kimi" in kinds else THINK
        jobs.append((check, (nm + ", whole markers", forced, ["<think>", "</think>", "a", " b", "\n", "<", "</", "<thi"], d + (1 if m is THINK else 0),
                             kinds, m), dict(sims=n)))
        jobs.append((check, (nm + ", cut markers", forced, ["<", "th", "<t", "hink>", "/think>", "</thi", "nk>", "x", "</think", ">"],
                             d, kinds, m), dict(sims=n)))
    ctx.parallel(jobs)
    ctx.assumptions.append("One-shot parsing trims surrounding white space of both parts; streaming does not")


if __name__ == "__main__":
    report.main("Q03", body)

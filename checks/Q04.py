"""Q04: streaming tool-call extraction equals parsing the whole text at once.  Spec: ToolCalls."""
import json
import random

from lib import cover, report, tlc
from pymllm.parsers.tool_call_parser import ToolCallParser


def value(a):
    try:
        return json.loads(a)
    except (ValueError, TypeError):
        return a


class Assembled:
    """What a client puts together from the streamed deltas."""

    def __init__(self):
        self.c, self.calls, self.bad = "", [], None

    def take(self, content, items):
        self.c += content
        for it in items:
            if it.name is not None:
                if it.index != len(self.calls):
                    self.bad = f"call number {it.index} after {len(self.calls)} calls"
                if not it.tool_call_id:
                    self.bad = "call without id"
                self.calls.append([it.name, ""])
            if not self.calls or it.index != len(self.calls) - 1:
                self.bad = f"arguments for call {it.index} of {len(self.calls)}"
            else:
                self.calls[-1][1] += it.arguments
        return self

    def end(self, p):
        self.take("", p.flush())
        self.c += p.flush_content()
        return self


def wide(v):
    """The specification is in ASCII: ~ stands for a character outside it."""
    if isinstance(v, dict):
        return {k: wide(x) for k, x in v.items()}
    return [wide(x) for x in v] if isinstance(v, list) else v.replace("~", "\u00e9")


def same(got, calls, n):
    return all(g[0] == w["name"] and value(g[1]) == value(w["args"]) for g, w in zip(got[:n], calls[:n]))


class SoFar:
    def __init__(self, a):
        self.a = a

    def __eq__(self, want):
        want = wide(want)
        a, calls = self.a, want["calls"]
        done = max(len(a.calls) - 1, 0)
        return (a.bad is None and want["c"].startswith(a.c) and len(a.calls) <= len(calls)
                and same(a.calls, calls, done)
                and all(g[0] == w["name"] for g, w in zip(a.calls, calls)))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr((self.a.c, self.a.calls, self.a.bad))


class Whole:
    def __init__(self, got):
        self.got, self.bad = got, None

    def __eq__(self, want):
        want = wide(want)
        for how, c, calls, err, trimmed in self.got:
            w = want["c"]
            if trimmed:
                w, c = w.strip(), c.strip()
            if err or c != w or len(calls) != len(want["calls"]) or not same(calls, want["calls"], len(calls)):
                self.bad = (how, c, calls, err)
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.bad or self.got)


class Adapter:
    def __init__(self, kind, rnd):
        self.kind, self.rnd = kind, rnd
        self.p = ToolCallParser(kind, tools=[])
        self.a = Assembled()

    def step(self, op, args):
        args = wide(args)
        if op == "feed":
            self.a.take(*self.p.parse_stream_chunk(args["p"]))
            return dict(soFar=SoFar(self.a))
        text = args["text"]
        got = []

        def add(how, a):
            got.append((how, a.c, a.calls, a.bad, False))
        add("streamed", self.a.end(self.p))
        c, calls = ToolCallParser(self.kind, tools=[]).parse_non_stream(text)
        err = None
        if [x.index for x in calls] != list(range(len(calls))) or len({x.tool_call_id for x in calls}) != len(calls):
            err = "numbering"
        got.append(("at once", c, [[x.name, x.arguments] for x in calls], err, True))
        for how in ("whole", self.rnd.choice(("chars", "random", "random")), "random"):
            if how == "whole":
                ps = [text]
            elif how == "chars":
                ps = list(text)
            else:
                ps, i, top = [], 0, self.rnd.choice((3, 8, 25))
                while i < len(text):
                    j = i + self.rnd.randint(1, top)
                    ps.append(text[i:j])
                    i = j
            p, a = ToolCallParser(self.kind, tools=[]), Assembled()
            for x in ps:
                a.take(*p.parse_stream_chunk(x))
            add(f"cut as {ps}", a.end(p))
        return dict(whole=Whole(got))


def body(*frags, name="", args=None):
    return dict(frags=list(frags), call=dict(name=name, args=json.dumps({} if args is None else args)))


JSON = [
    body('{"name": "f", "argu', 'ments": {"a": 1, "b"', ': [1, {"c": "}"}]}}', name="f", args=dict(a=1, b=[1, dict(c="}")])),
    body('{"na', 'me":"g","arguments":{"s":"a\\"b\\\\ {', '<x> 1"} }', name="g", args=dict(s='a"b\\ {<x> 1')),
    body('{"arguments": {"name": "inner"', '}, "name": "h"}', name="h", args=dict(name="inner")),
    body('{"name": "k", "arguments": {}', "}", name="k"),
    body('{"name": "u", "parameters": {"x":', ' "~\\u0041\\n"}}', name="u", args=dict(x="~A\n")),
    body('{"name": "m"}', name="m"),
    body('{ "name" : "w" , "arguments" : { "a" : "', ' sp  " , "n":null}', '  }\n', name="w", args=dict(a=" sp  ", n=None)),
    body("not a", " call"),
]
XML = [
    body("<function=f>\n<param", "eter=a>\n1\n</parameter>\n<parameter=", "b>x y</parameter>\n</function>", name="f", args=dict(a=1, b="x y")),
    body("<function=", "g></function>", name="g"),
    body("<function=h><parameter=p>[1, 2]<parameter=q>t</", "parameter></function>", name="h", args=dict(p=[1, 2], q="t")),
    body("\n<function=k><parameter=z>", '{"d": 1}', "</function>", name="k", args=dict(z=dict(d=1))),
    body("no function"),
]


def check(ctx, kind, bot, end, bodies, ends, content, depth, sims, long):
    consts = dict(Bot=bot, End=end, Bodies=bodies, Ends=ends, Content=set(content), MaxPieces=depth)
    r = tlc.explore("ToolCalls", consts, invariants=["ShownIsPart", "NoMarkerShown"], properties=["Grows", "CallsGrow"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed)
    paths += tlc.simulate("ToolCalls", dict(consts, MaxPieces=long), depth=long + 1, num=sims, seed=ctx.seed, stop="over")
    rnd = random.Random(ctx.seed)
    report.replay(ctx, kind, paths, lambda: Adapter(kind, rnd))
    ctx.log(f"{kind}: {r['states']} states, {r['transitions']} transitions, {len(paths)} behaviours")


def main(ctx):
    d, n, long = ctx.pick(5, 6), ctx.pick(300, 5000), ctx.pick(22, 40)
    nl = ["\n</tool_call>"]
    ends = [nl, ["\n</", "tool_call>"], ["\n", "</tool_call", ">"]]
    cont = ["hi ", "<tool", "_call>\n", "</tool_call>", "\n"]
    jobs = [(check, (k, "<tool_call>\n", "\n</tool_call>", JSON, ends, cont, d - dd, n, long), {})
            for k, dd in (("qwen25", 0), ("hermes", 1))]
    jobs.append((check, ("qwen3_coder", "<tool_call>", "</tool_call>", XML, [["</tool_call>"], ["<", "/tool_call>"], ["</tool_", "call", ">"]],
                         ["hi ", "<tool", "_call>", "\n", "</tool_call>"], d, n, long), {}))
    jobs.append((check, ("llama3", "<|python_tag|>", "", JSON[:-1], [["x"]], ["hi ", "<|py", "thon_tag|>", "|", "\n"], d, n, long), {}))
    ctx.parallel(jobs)
    ctx.assumptions.append("Calls are well formed, or not JSON/XML at all; arguments are compared as JSON values")


if __name__ == "__main__":
    report.main("Q04", main)

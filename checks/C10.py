"""C10: cutting text into words.  Spec: Pattern."""
from harness.py import words
from lib import cxx, report, tlc

# characters of the specification: what each may be written as
LETTERS = dict(s="stmd", S="STMD", r="rv", R="RV", e="ee", E="EE", l="ll", L="LL", x="qbZ\u00e9\u4e2d\u0436\u00aa\u05d0\u1e9e\U00020000")
DIGITS = dict(n="7309\u00b2\u2167\u0663\u00bd\u0967\u2460")
SPACES = dict(b="\t\v\f\u00a0\u3000\u2028\u0085\u202f\u1680\u205f", w=" ")
LINES = dict(N="\n", C="\r")
MARKS = dict(p="!.<_\u2026\U0001f642\u0301\u20ac\x01\u200b", q="'")
CLASSES = dict(L=set(LETTERS), N=set(DIGITS), s=set(SPACES) | set(LINES))
ALL = LETTERS | DIGITS | SPACES | LINES | MARKS


def item(of, lo=1, hi=1):
    return tlc.Rec(dict(of=frozenset(of), lo=lo, hi=hi))


def alt(*items, ahead=()):
    return tlc.Rec(dict(items=tuple(items), ahead=frozenset(ahead)))


def patterns():
    L, N, sp, every = CLASSES["L"], CLASSES["N"], CLASSES["s"], set(ALL)
    line, mark, many = set(LINES), set(ALL) - CLASSES["L"] - CLASSES["N"] - CLASSES["s"], 99
    blanks = [alt(item(sp, 1, many), ahead=every - sp), alt(item(sp, 1, many))]
    either = [alt(item("q"), item("sS")), alt(item("q"), item("rR"), item("eE")), alt(item("q"), item("lL"), item("lL"))]
    lower = [alt(item("q"), item("s")), alt(item("q"), item("r"), item("e")), alt(item("q"), item("l"), item("l"))]

    def qwen(digits, space):
        return tuple(either + [alt(item(every - line - L - N, 0, 1), item(L, 1, many)), alt(item(N, 1, digits)),
                               alt(*([item("w", 0, 1)] if space else []), item(mark, 1, many), item(line, 0, many)),
                               alt(item(sp, 0, many), item(line, 1, many))] + blanks)
    return dict(digits=(alt(item(N, 1, 3)), alt(item(every - N, 1, many))), qwen=qwen(1, True), npu=qwen(1, False), llama3=qwen(3, True),
                gpt2=tuple(lower + [alt(item("w", 0, 1), item(c, 1, many)) for c in (L, N, mark)] + blanks))


def run(ctx, name, exe, alphabet, length, ways, sim=0, depth=0):
    bits = {tuple(x) for x in ("qs", "qre", "qLL", "qrx", "ww", "wwx", "wN", "Nb", "NN", "CN", "nnnn", "xx", "wx", "wp", "pN", "bb", "wn", "pp", "wq", "bx")}
    c = dict(Patterns=tlc.Rec(patterns()), Alphabet=set(alphabet), MaxLen=length, Bits={b for b in bits if set(b) <= set(alphabet)})
    if sim:
        tr = tlc.simulate("Pattern", c, depth=depth, num=sim, seed=ctx.seed, invariants=["Complete"], next_="SimNext", stop="~ENABLED Next", procs=2)
        acts = [a for t in tr for a in t if a["op"] == "text"]
        ctx.count("random_texts", len(acts))
    else:
        r = tlc.explore("Pattern", c, invariants=["Complete", "Rest"], workers=4)
        ctx.add_model(r)
        acts = [a for _, _, a in r["edges"] if a["op"] == "text"]
        ctx.count("transitions_replayed", len(acts))
    bad = n = 0
    w = words.Words(exe)
    try:
        for way in range(ways):
            texts = []
            for k, a in enumerate(acts):
                t = [ALL[c][(way + (k if way else 0)) % len(ALL[c])] for c in a["args"]["text"]]
                cuts = {}
                for p, sizes in a["res"]["cuts"].items():
                    at, cuts[p] = 0, []
                    for z in sizes:
                        cuts[p].append("".join(t[at:at + z]))
                        at += z
                texts.append(("".join(t), cuts))
            for i in range(0, len(texts), 2500):
                for text, f in w.check(texts[i:i + 2500]):
                    bad += 1
                    ctx.violation(f"{name}: {f}"[:500], dict(where=name, text=text))
                    if bad >= 3:
                        return
                n += len(texts[i:i + 2500])
    except cxx.Died as e:
        ctx.violation(f"{name}: {e}"[:500], dict(where=name, error=str(e)))
    finally:
        w.stop()
    ctx.count("implementation_steps", n)
    ctx.log(f"{name}: {n} texts")


def very_long(ctx, exe):
    """Words and blanks of any length; every character is a token of its own there."""
    w, n = words.Words(exe), 0
    try:
        for text in [c * k for k in (3000, 70000, 150000) for c in ("a", " ", "7", "!", "\n", "a b ", "it's ", "\u00e9")]:
            n += 1
            for who, got in w.tokens(text):
                if "".join(got) != words.mapped(text):
                    ctx.violation(f"{who}: {len(text)} times {text[:4]!r} gives {len(got)} tokens that are not the text", dict(text=text[:20], size=len(text)))
    except cxx.Died as e:
        ctx.violation(f"a text of {len(text)} times {text[:4]!r}: {str(e)[:80]}", dict(text=text[:20], size=len(text)))
    finally:
        w.stop()
    ctx.count("implementation_steps", n)
    ctx.log(f"very long texts: {n}")


def body(ctx):
    exe = words.build()
    q = ctx.quick
    jobs = [(run, ("blanks", exe, "wbNCxp", 5 if q else 6, ctx.pick(2, 10)), {}),
            (run, ("shortened words", exe, "qsSreElLxw", 4, ctx.pick(2, 10)), {}),
            (run, ("numbers and marks", exe, "nxpqwN", 5 if q else 6, ctx.pick(2, 10)), {}),
            (run, ("long texts", exe, "".join(ALL), 40, ctx.pick(3, 10)), dict(sim=ctx.pick(150, 5000), depth=40)),
            (run, ("long blanks", exe, "wbNCx", 16, 2), dict(sim=ctx.pick(100, 4000), depth=16))]
    jobs.append((very_long, (exe,), {}))
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("C10", body)

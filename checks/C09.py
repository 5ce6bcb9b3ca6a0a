"""C09: byte-pair tokenisation and special tokens.  Spec: Tokens."""
import json
import random

from harness.py import tokens
from lib import cxx, report, tlc

INV = ["NothingLost", "AllSpecial", "Done", "OneByOne"]


def W(s):
    return tuple(s)


def M(*pairs):
    return tuple((W(p.split()[0]), W(p.split()[1])) for p in pairs)


def cfg(merges=(), specials=()):
    return dict(merges=tuple(merges), specials=frozenset(specials))


def run(ctx, name, exe, configs, chars, length, rendered, models=(), sim=0, depth=0):
    """rendered: [(chars, units as text)]: what the characters and the units are written as, one after another."""
    c = dict(Configs=tuple(tlc.Rec(x) for x in configs), Alphabet=set(chars), Units=tlc.Rec(chars), MaxLen=length)
    if sim:
        tr = tlc.simulate("Tokens", c, depth=depth, num=sim, seed=ctx.seed, invariants=INV, next_="SimNext", stop="~ENABLED Next", procs=2)
        by = {}
        for t in tr:
            for a in t:
                if a["op"] == "text":
                    by.setdefault(a["args"]["cfg"], []).append(a)
        ctx.count("random_texts", sum(map(len, by.values())))
    else:
        r = tlc.explore("Tokens", c, invariants=INV, workers=4)
        ctx.add_model(r)
        by = {}
        for _, _, a in r["edges"]:
            if a["op"] == "text":
                by.setdefault(a["args"]["cfg"], []).append(a)
        ctx.count("transitions_replayed", sum(map(len, by.values())))
    bad = n = 0
    for w, (text, bytes_) in enumerate(rendered):
        t = tokens.Tokens(exe, configs, text, bytes_, ctx.seed + w, models)
        try:
            for i, acts in sorted(by.items()):
                t.open(i)
                for a in acts:
                    n += 1
                    f = t.check(a["args"], a["res"])
                    if f:
                        bad += 1
                        ctx.violation(f"{name}: {f}"[:500], dict(where=name, config={k: sorted(v) if k == "specials" else v for k, v in configs[i - 1].items()},
                                                                 text=a["args"]["text"], written=text, expected=a["res"]))
                        if bad >= 3:
                            return
        except cxx.Died as e:
            ctx.violation(f"{name}: {e}"[:500], dict(where=name, error=str(e)))
            return
        finally:
            t.stop()
    ctx.count("implementation_steps", n)
    ctx.log(f"{name}: {n} texts")


def plain(alphabet, *ways):
    """Every character is a unit of its own."""
    return {c: W([c]) for c in alphabet}, [(dict(zip(alphabet, w)), dict(zip(alphabet, w))) for w in ways]


def in_bytes(chars):
    """chars: symbol -> text: each character is as many units as it has bytes; the units are shared by equal bytes."""
    units, text = {}, {}
    for s, t in chars.items():
        units[s] = tuple(f"x{b:02x}" for b in t.encode())
        text.update({f"x{b:02x}": tokens.BYTE[b] for b in t.encode()})
    return units, [(chars, text)]


def table(rnd, units, n, loose=False):
    """A random table of merges; loose: the same word may be made in several ways and earlier than its parts."""
    words, merges, made = [(u,) for u in units], [], set()
    for _ in range(200):
        if len(merges) == n:
            break
        a, b = rnd.choice(words), rnd.choice(words)
        if (a, b) in merges or len(a + b) > 6 or (a + b in made and not loose):
            continue
        merges.append((a, b))
        words.append(a + b)
        made.add(a + b)
    if loose:
        rnd.shuffle(merges)
    return tuple(merges)


def unicode(ctx, exe):
    d = cxx.Driver(exe, timeout=20)
    rnd = random.Random(ctx.seed)
    try:
        m = dict(map(tuple, d.ask(json.dumps(dict(op="map")))["map"]))
        want = {b: ord(c) for b, c in tokens.BYTE.items()}
        if m != want:
            ctx.violation(f"table of bytes: {[(b, m.get(b), want[b]) for b in want if m.get(b) != want[b]][:5]}", dict(got=m))
        edge = [1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]
        texts = ["".join(map(chr, edge)), ""] + ["".join(chr(a) + chr(b)) for a in edge for b in edge]
        pts = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000]
        texts += ["".join(map(chr, pts[i:i + 4000])) for i in range(0, len(pts), 4000)]
        texts += ["".join(map(chr, rnd.sample(pts, rnd.randint(1, 9)))) for _ in range(200)]
        for t in texts:
            g = d.ask(json.dumps(dict(op="wide", text=t)))
            if g["codes"] != [ord(c) for c in t] or g["back"] != t:
                ctx.violation(f"wide characters of {t[:20]!r}: {g['codes'][:10]}, back {g['back'][:20]!r}", dict(text=t[:100]))
                break
        ctx.count("characters", sum(map(len, texts)))
    except cxx.Died as e:
        ctx.violation(f"characters: {e}"[:400], dict(error=str(e)))
    d.stop()


def body(ctx):
    exe = tokens.build()
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    three = plain("abc", "abc", "é中\U0001f642", "aé\u0101")
    classic = [cfg(M("a b", "ab c")), cfg(M("b c", "a b", "ab c")), cfg(M("a a")), cfg(M("a a", "aa a")), cfg(M("a a", "aa aa")), cfg(M("a b", "b a", "ab ab")),
               cfg(M("a b", "b c", "c a", "ab c", "a bc")), cfg(M("ab c", "a b")), cfg(M("a b", "ab a", "aba b", "b c"))]
    specials = [cfg(M("a b"), {W("ab"), W("abc")}), cfg((), {W("abca"), W("bc")}), cfg(M("c a"), {W("a"), W("aa"), W("aaa")}), cfg((), {W("ab"), W("abca"), W("abcabc")}),
                cfg((), {W("bc"), W("abab")}), cfg(M("a a"), {W("aab"), W("ab"), W("b")}), cfg((), {W("ca"), W("bcb"), W("abcc")}), cfg((), {W("aabaa"), W("baab")})]
    tables = [cfg(table(rnd, "abc", rnd.randint(2, 9), k % 2 == 1), {W(rnd.choices("abc", k=rnd.randint(1, 4))) for _ in range(rnd.randint(0, 3))})
              for k in range(ctx.pick(10, 60))]
    s = {"s": "<|im_start|>", "t": "<think>", "e": "\u00e9", "f": "\u00ea", "a": "a", "z": "\u4e2d"}
    bu, bw = in_bytes(s)
    us = sorted({u for w in (bu["e"], bu["f"], bu["a"], bu["z"]) for u in w})
    model = [cfg(table(rnd, us, rnd.randint(3, 10)), {W("s"), W("t")}) for _ in range(ctx.pick(4, 30))] + \
            [cfg((((us_e := bu["e"])[:1], us_e[1:]), (us_e, us_e), (bu["a"], us_e)), {W("s"), W("t")})]
    jobs = [(run, ("merges", exe, classic, three[0], 6 if q else 7, three[1]), {}),
            (run, ("special tokens", exe, specials, three[0], 6 if q else 8, three[1][:2]), {}),
            (run, ("random tables", exe, tables, three[0], 5 if q else 6, three[1][1:2]), {}),
            (run, ("long texts", exe, classic[:6] + specials + tables, three[0], 30, three[1][:1]), dict(sim=ctx.pick(50, 1500), depth=60)),
            (run, ("tokenizers of models", exe, model, bu, 3 if q else 5, bw, ("qwen3", "qwen3_moe", "smollm3")), {}),
            (run, ("tokenizers of models, long texts", exe, model, bu, 18, bw, ("qwen3", "qwen3_moe", "smollm3")), dict(sim=ctx.pick(25, 1000), depth=22)),
            (unicode, (exe,), {})]
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C09", body)

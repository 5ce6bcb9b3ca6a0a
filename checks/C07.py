"""C07: symbolic shape expressions.  Specs: Arith, SymText, SymOps."""
import itertools
from fractions import Fraction

from harness.py import symbolic
from lib import cxx, report, tlc

ENVS = [dict(a=7, b=2, n_1=-3), dict(a=-5, b=3, n_1=Fraction(1, 2)), dict(a=Fraction(9, 4), n_1=0), dict(a=0, b=-1, n_1=12)]


def rat(v):
    v = Fraction(v)
    return tlc.Rec(dict(k="exact", n=v.numerator, d=v.denominator))


def consts():
    return tuple(tlc.Rec({k: rat(v) for k, v in e.items()}) for e in ENVS), [{k: float(v) for k, v in e.items()} for e in ENVS]


def texts(ctx, name, exe, alphabet, length, sim=0, wraps=frozenset()):
    envs, plain = consts()
    atoms = {t: rat(t) for t in alphabet if t[0].isdigit() and t.count(".") < 2 and len(t) < 6 and t[-1].isdigit()}
    atoms.setdefault("2", rat(2))
    c = dict(Alphabet=set(alphabet), MaxLen=length, Envs=envs, Atoms=tlc.Rec(atoms), Wraps=wraps)
    if sim:
        steps = [a for t in tlc.simulate("SymText", c, depth=length, num=sim, seed=ctx.seed, invariants=["Grouping"], next_="SimNext", procs=2) for a in t]
        ctx.count("random_expressions", len(steps))
    else:
        r = tlc.explore("SymText", c, invariants=["Grouping"], workers=4)
        ctx.add_model(r)
        steps = [a for _, _, a in r["edges"]]
        ctx.count("transitions_replayed", len(steps))
    d = cxx.Driver(exe, timeout=10)
    s = symbolic.Sym(d, plain)
    bad = good = 0
    for a in steps:
        try:
            t, got = s.parse(a["args"]["text"], a["args"]["wrap"])
            f = symbolic.fault(a["res"], got)
        except cxx.Died as e:
            t, f, s = " ".join(a["args"]["text"]), str(e), symbolic.Sym(d, plain)
        good += a["res"]["ok"]
        if f:
            bad += 1
            ctx.violation(f"{name}: {t[:120]!r}: {f}"[:500], dict(where=name, text=t, expected=a["res"], got=f, assignments=plain))
            if bad >= 3:
                break
    d.stop()
    ctx.count("implementation_steps", len(steps))
    ctx.log(f"{name}: {len(steps)} token sequences, {good} of them expressions")


def ops(ctx, name, exe, regs, ints, fps, names, size, limit, sim, depth):
    envs, plain = consts()
    c = dict(Regs=set(range(1, regs + 1)), Ints=set(ints), Fps=tuple(tlc.Rec(dict(v=str(v), n=Fraction(v).numerator, d=Fraction(v).denominator)) for v in fps),
             Texts=set(names), Envs=envs, MaxSize=size)
    tr = tlc.simulate("SymOps", c, depth=depth, num=sim, seed=ctx.seed, procs=2)
    d = cxx.Driver(exe, timeout=10)
    bad = 0
    for t in tr:
        s = symbolic.Sym(d, plain)
        done = []
        for a in t:
            args = dict(a["args"])
            if a["op"] == "fp":
                args["v"] = float(Fraction(args["v"]))
            done.append((a["op"], args))
            try:
                f = symbolic.fault(a["res"], s.do(a["op"], args))
            except cxx.Died as e:
                f = str(e)
            if f:
                bad += 1
                ctx.violation(f"{name}: {a['op']} {args}: {f}"[:500], dict(where=name, done=done, expected=a["res"], assignments=plain))
                break
        if bad >= 3:
            break
    d.stop()
    ctx.count("implementation_steps", sum(map(len, tr)))
    ctx.add_traces(len(tr) - bad, [dict(check=name, log=[x["args"] for x in tr[0][:5]])])
    ctx.log(f"{name}: {len(tr)} histories")


def literals(ctx, exe):
    """Any literal survives printing and reading: what is printed is worth what was put in."""
    d = cxx.Driver(exe, timeout=10)
    import json
    import random
    import struct
    rnd = random.Random(ctx.seed)
    vals = [("int", v) for v in (0, 1, -1, 2**31 - 1, -2**31, 16777217, -40000)] + [("int", rnd.randint(-2**31, 2**31 - 1)) for _ in range(200)]
    fl = [0.1, -0.1, 1e-20, 3.4e38, 1.17549435e-38, 1e-45, 16777216.5, 30.4, 1 / 3, 1e10, 123456.789, 0.1234567, -0.0]
    fl += [struct.unpack("f", struct.pack("I", rnd.getrandbits(31)))[0] for _ in range(ctx.pick(600, 20000))]
    vals += [("fp", struct.unpack("f", struct.pack("f", v))[0]) for v in fl if v == v and abs(v) < 3.5e38]
    for op, v in vals:
        what = None
        try:
            r = d.ask(json.dumps(dict(op=op, c=1, v=v, envs=[{}])))
            f32 = struct.unpack("f", struct.pack("f", v))[0]
            if "error" in r or r["values"][0]["value"] != f32:
                what = f"evaluates to {r}"
            elif "error" in r["again"] or r["again"]["values"][0]["value"] != f32:
                what = f"printed as {r['str'][:60]}, read as {str(r['again'])[:200]}"
        except cxx.Died as e:
            what = str(e)
        if what:
            ctx.violation(f"literal {v!r}: {what}"[:400], dict(value=repr(v), what=what))
            break
    d.stop()
    ctx.count("literals", len(vals))


def body(ctx):
    exe = symbolic.build()
    q = ctx.quick
    W = {60, 300}
    jobs = [(texts, ("operators and parentheses", exe, ["a", "2", "+", "-", "*", "%", "(", ")"], 5), {}),
            (texts, ("chains of operators", exe, ["a", "b", "+", "-", "*", "/", "%"], 5 if q else 7), {}),
            (texts, ("functions", exe, ["a", "0.5", "/", "floor", "abs", "(", ")"], 5 if q else 6), {}),
            (texts, ("odd tokens", exe, ["a", "3", "-", "(", ")", "$", "1.2.3", "99999999999", ".", "ceil", "@"], 4), {}),
            (texts, ("missing values and wrapping", exe, ["b", "n_1", "2.25", "-", "/", "(", ")"], 4, 0, W), {})]
    al = ["a", "b", "n_1", "2", "3", "0.5", "7.25", "10", "+", "-", "*", "/", "%", "(", ")", "floor", "ceil", "abs"]
    n = ctx.pick(250, 6000)
    jobs += [(texts, ("long expressions", exe, al, 15), dict(sim=n)),
             (texts, ("long expressions with odd tokens", exe, al + ["$", "..", "2147483648"], 11), dict(sim=n, wraps=W)),
             (texts, ("longer expressions", exe, al[3:], 28), dict(sim=n)),
             (ops, ("put together", exe, 3, (0, 1, -2, 5, 100), ("0.5", "-1.25", "3"), ("a", "b", "n_1"), 9, 0, n, 12), {}),
             (ops, ("put together, many", exe, 5, (1, -7, 2), ("-0.75", "12.5"), ("a", "n_1"), 20, 0, n // 4, 20), {}),
             (literals, (exe,), {})]
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("C07", body)

"""C02: the thread pool.  Specs: HpcPool (step by step, implements Loops), LoopTrace."""
import random

from harness.py import pool
from lib import cxx, report, tlc


def S(s):
    return tuple(tlc.Rec(dict(op=w[0], n=int(w[1:] or 0))) for w in s.split())


def model(ctx, name, n, scripts):
    r = tlc.explore("HpcPool", dict(N=n, Scripts=tuple(S(s) for s in scripts)), properties=["Implements", "Ends"], fairness_spec="Spec", workers=4, edges=False)
    ctx.add_model(r)
    ctx.log(f"model {name}: {r['states']} states")


def ranges(ctx, name, exe, threads, starts, lens, steps, per):
    """Every range and step on every number of threads, several loops one after the other."""
    d = cxx.Driver(exe, timeout=30)
    rnd = random.Random(f"{name} {ctx.seed}")
    runs = []
    for t in threads:
        todo = [(a, a + n, c) for a in starts for n in lens for c in steps]
        rnd.shuffle(todo)
        for k in range(0, len(todo), per):
            s = " ".join(f"P{i + 1}:{a}:{b}:{c}" for i, (a, b, c) in enumerate(todo[k:k + per]))
            runs.append((rnd.randrange(1 << 40), t, [f"S A {s} D R"]))
    pool.judge(ctx, name, pool.some(pool.record(d, *r) for r in runs))
    d.stop()


def script(rnd, me, n, awake):
    out, slot = [], False
    if rnd.random() < 0.9:
        out.append("S")
        slot = True
    if awake:
        out.append("A")
    k = 0
    for _ in range(n):
        x = rnd.random()
        if x < 0.5:
            k += 1
            a, c = rnd.choice((0, 0, 0, 3, -2)), rnd.choice((1, 1, 2, 3))
            out.append(f"P{me * 100 + k}:{a}:{a + rnd.choice((0, 1, 2, 3, 4, 5, 7))}:{c}")
        elif x < 0.58 and slot:
            out += ["R", "S"]
        else:
            out.append(rnd.choice("IWADIWW"))
    if slot:
        out.append("R")
    return " ".join(out)


def schedules(ctx, name, exe, threads, callers, num, length):
    d = cxx.Driver(exe, timeout=30)
    rnd = random.Random(f"{name} {ctx.seed}")
    runs = []
    for _ in range(num):
        sc = [script(rnd, i + 1, rnd.randint(1, length), i == 0 and rnd.random() < 0.8) for i in range(callers)]
        runs.append((rnd.randrange(1 << 40), rnd.choice(threads), sc))
    pool.judge(ctx, name, pool.some(pool.record(d, *r) for r in runs))
    d.stop()


def tight(ctx, name, exe, scripts, num):
    """Short scripts, many schedules."""
    d = cxx.Driver(exe, timeout=30)
    rnd = random.Random(f"{name} {ctx.seed}")
    runs = [(rnd.randrange(1 << 40), t, list(sc)) for t, *sc in scripts for _ in range(num)]
    pool.judge(ctx, name, pool.some(pool.record(d, *r) for r in runs))
    d.stop()


def body(ctx):
    exe = pool.build()
    q = ctx.quick
    jobs = [(model, ("one caller", 3, ["A P4 I P2 W P3"]), {}),
            (model, ("asleep between the loops", 2, ["A P2 I W P3 D P2"]), {}),
            (model, ("two callers", 2, ["A P2 P3", "P2"]), {}),
            (model, ("put to sleep by another", 2, ["A P2 P3", "I W"]), {}),
            (model, ("put to sleep for good", 3, ["A P3", "I"]), {})]
    if not q:
        jobs += [(model, ("three threads, two callers", 3, ["A P3 P2", "P2 I"]), {}), (model, ("woken in turns", 2, ["A P2 I P2 W", "I P2 W"]), {}),
                 (model, ("four threads", 4, ["A P5 I P3 W P4"]), {})]
    jobs += [(ranges, ("ranges", exe, range(0, 6) if q else range(0, 10), (-3, 0, 2), range(-1, 10) if q else range(-2, 18), (1, 2, 3, 4), 8), {}),
             (ranges, ("long ranges", exe, (2, 3, 8), (0, 5), (20, 33, 50), (1, 3, 7, 60), 3), {})]
    n, k = ctx.pick((150, 8), (5000, 14))
    jobs += [(schedules, ("one caller", exe, (1, 2, 3, 4), 1, n, k), {}),
             (schedules, ("two callers", exe, (2, 3, 4), 2, n, k), {}),
             (schedules, ("three callers", exe, (2, 3), 3, n, k), {})]
    sc = [(2, "S A P1:0:2:1", "I"), (3, "S A P1:0:3:1", "I"), (2, "S A P1:0:2:1 P2:0:2:1", "I W"), (2, "A I W", "S P1:0:2:1"), (2, "A", "S P1:0:3:1", "S P2:0:3:1"),
          (3, "A D"), (4, "S A P1:0:2:1 P2:0:5:1 P3:0:2:1"), (2, "S A P1:0:4:1 I"), (3, "A I"), (3, "A I W"), (2, ""), (3, "I"), (3, "S A P1:0:3:1 I P2:0:3:1 W P3:0:3:1", "D A")]
    jobs.append((tight, ("short scripts", exe, sc, ctx.pick(40, 2500)), {}))
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("C02", body)

"""C01: the memory manager and its buddy pool.  Specs: Buddy, BuddyTrace."""
import random

from harness.py import buddy
from lib import cover, cxx, report, tlc

INV = ["NoOverlap", "LargeEnough", "Aligned", "NothingLost", "Merged", "AllBack"]


def cfg(unit, first, threshold, listed=()):
    return tlc.Rec(dict(unit=unit, first=first, threshold=threshold, listed=frozenset(listed)))


def run(ctx, name, exe, c, kind, paths):
    d = cxx.Driver(exe, timeout=20)
    buddy.judge(ctx, name, [buddy.record(d, c, kind, [(a["op"], {k: v for k, v in a["args"].items() if a["op"] == "alloc" or (a["op"] == "free" and k == "h") or k == "l"})
                                                      for a in p if a["op"] != "init"]) for p in paths])
    d.stop()


def model(ctx, name, c, sizes, lists, live, segs):
    """Any free block may be taken: the invariants do not depend on the choice."""
    r = tlc.explore("Buddy", dict(Cfg=c, Sizes=sizes, Lists=lists, MaxLive=live, MaxSegs=segs), view="vars", invariants=INV, workers=4, edges=False)
    ctx.add_model(r)
    ctx.log(f"{name}: {r['states']} states")


def graph(ctx, name, exe, c, kind, sizes, lists, live, segs, limit):
    r = tlc.explore("Buddy", dict(Cfg=c, Sizes=sizes, Lists=lists, MaxLive=live, MaxSegs=segs), view="vars", invariants=INV, workers=4, next_="FirstNext")
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=40, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    run(ctx, name, exe, c, kind, paths)


def sim(ctx, name, exe, c, kind, sizes, lists, live, segs, num, depth):
    tr = tlc.simulate("Buddy", dict(Cfg=c, Sizes=sizes, Lists=lists, MaxLive=live, MaxSegs=segs), depth=depth, num=num, seed=ctx.seed,
                      invariants=INV, procs=1, next_="FirstNext")
    run(ctx, name, exe, c, kind, tr)


def concurrent(ctx, name, exe, c, kind, sizes, nthreads, num, length):
    rnd = random.Random(f"{name} {ctx.seed}")
    d = cxx.Driver(exe, timeout=30)
    logs = []
    for i in range(num):
        h, scripts = 0, []
        for t in range(nthreads):
            held, s = [], []
            for _ in range(length):
                if held and (len(held) > 3 or rnd.random() < 0.45):
                    s.append(f"f{held.pop(rnd.randrange(len(held)))}")
                else:
                    h += 1
                    held.append(h)
                    s.append(f"a{h}:{rnd.choice(sizes)}")
            rnd.shuffle(held)
            scripts.append(" ".join(s + [f"f{x}" for x in held]))
        big = c["unit"] << c["first"]
        after = f"a9001:{big} a9002:{c['unit']} f9001 f9002 a9003:{big * 2} f9003 a9004:{big} f9004" if kind != 0 else "a9001:64 f9001"
        logs.append(buddy.threads(d, c, kind, rnd.randrange(1 << 40), scripts, after))
    d.stop()
    buddy.judge(ctx, name, logs, loose=True)


def body(ctx):
    exe, sch = buddy.build(), buddy.build(sched=True)
    none = frozenset()
    lim = ctx.pick(1000, 40000)
    small = cfg(64, 2, 1 << 20)
    jobs = [(model, ("model, any block", small, {1, 65, 200}, none, 3 if ctx.quick else 4, 2), {}),
            (model, ("model, blocks kept aside", cfg(64, 2, 1 << 20, [64]), {64, 65}, {none, frozenset([64])}, 2 if ctx.quick else 3, 2), {}),
            (graph, ("four units", exe, small, 1, {0, 65, 200, 257}, none, 3, 3, lim), {}),
            (graph, ("eight units of 256", exe, cfg(256, 3, 1 << 20), 1, {64, 300, 1025}, none, 4 if not ctx.quick else 3, 2, lim), {}),
            (graph, ("large requests go to the system", exe, cfg(64, 2, 256), 1, {1, 128, 192, 193, 400}, none, 3, 2, lim), {}),
            (graph, ("kept aside", exe, cfg(64, 2, 1 << 20, [64, 192]), 2, {60, 64, 190}, {none, frozenset([64]), frozenset([64, 192])}, 2 if ctx.quick else 3, 2, lim), {}),
            (graph, ("no pool", exe, cfg(64, 2, 0), 0, {1, 128, 400}, none, 3, 2, lim), {})]
    n, dep = ctx.pick((50, 80), (1500, 150))
    jobs += [(sim, ("histories", exe, cfg(256, 5, 1 << 20), 1, {1, 100, 256, 257, 500, 1000, 1500, 3000, 5000, 9000}, none, 12, 4, n, dep), {}),
             (sim, ("histories, small blocks", exe, cfg(64, 6, 1 << 20), 1, {1, 65, 129, 300}, none, 40, 3, n, dep), {}),
             (sim, ("histories, kept aside", exe, cfg(64, 4, 1 << 20, [64, 320]), 2, {64, 128, 300, 320, 512}, {none, frozenset([64, 128]), frozenset([320]), frozenset([512, 320, 64])}, 10, 3, n, dep), {}),
             (sim, ("histories through the manager, kept aside", exe, cfg(64, 4, 2048, [64, 320]), 1, {64, 128, 300, 320, 512, 2048, 5000}, none, 10, 3, n, dep), {}),
             (concurrent, ("two threads", sch, cfg(64, 3, 1 << 20), 1, [1, 65, 129, 300, 500], 2, *ctx.pick((150, 8), (6000, 12))), {}),
             (concurrent, ("two threads growing", sch, cfg(64, 1, 1 << 20), 1, [64, 128, 129, 500], 2, *ctx.pick((150, 6), (6000, 9))), {}),
             (concurrent, ("three threads", sch, cfg(64, 4, 1 << 20), 1, [1, 65, 129, 300, 900, 1500], 3, *ctx.pick((100, 8), (4000, 12))), {}),
             (concurrent, ("two threads, kept aside", sch, cfg(64, 3, 512, [64, 320]), 1, [64, 320, 128, 512], 2, *ctx.pick((150, 10), (6000, 14))), {})]
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("C01", body)

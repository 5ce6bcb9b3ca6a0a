"""C11: the key/value cache of the C++ models.  Spec: KvCache."""
from harness.py import kvcache as kv
from lib import cover, cxx, report, tlc

INV = ["Within", "InOrder"]
PROPS = ["Untouched", "Refused"]


def consts(rows, layers, direct, sizes, tags, subs):
    return dict(Max=rows, Layers=layers, Direct=direct, Sizes=set(sizes), Tags=tags, MaxSubs=subs)


def run(ctx, name, exe, c, shape, paths):
    d, n = cxx.Driver(exe, timeout=20), iter(range(1 << 30))
    report.replay(ctx, name, [[a for a in p if a["op"] != "init"] for p in paths],
                  lambda: kv.KvCache(d, next(n), c["Layers"], c["Max"], direct=c["Direct"], **shape), step_timeout=30)
    d.stop()


def graph(ctx, name, exe, c, shape, limit):
    r = tlc.explore("KvCache", c, view="vars", invariants=INV, properties=PROPS, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    run(ctx, name, exe, c, shape, paths)


def sim(ctx, name, exe, c, shape, num, depth):
    tr = tlc.simulate("KvCache", c, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=1, next_="SimNext")
    run(ctx, name, exe, c, shape, tr)


def shape(q, k, dim, kt=kv.F32, vt=kv.F32, **more):
    return dict(q=q, kv=k, dim=dim, kt=kt, vt=vt, **more)


def body(ctx):
    exe = kv.build()
    lim = ctx.pick(400, 20000)
    n, dep = ctx.pick((60, 60), (2000, 120))
    jobs = [(graph, ("appended", exe, consts(3, 2, False, {1, 2}, 2, 0), shape(4, 2, 3), lim), {}),
            (graph, ("written in place", exe, consts(3, 2, True, {1, 2}, 2, 0), shape(4, 2, 4, kv.F16, kv.F32), lim), {}),
            (graph, ("another cache on part of it", exe, consts(3, 1, False, {1, 2}, 2, 1), shape(6, 2, 4, kv.F16, kv.I8), lim), {})]
    for name, c, s in [("appended", consts(40, 3, False, {1, 2, 3, 7, 12, 41}, kv.TAGS, 0), shape(8, 2, 6, kv.F16, kv.F32)),
                       ("one head for all", consts(17, 2, False, {1, 4, 5, 18}, kv.TAGS, 2), shape(5, 1, 8, kv.I8, kv.F16)),
                       ("as many heads", consts(24, 3, False, {1, 4, 5}, kv.TAGS, 1), shape(3, 3, 5, kv.F32, kv.I8)),
                       ("quantised", consts(20, 2, False, {1, 3, 6}, kv.TAGS, 2), shape(4, 2, 64, kv.Q4_0, kv.F16)),
                       ("on another device", consts(24, 2, False, {1, 3, 6}, kv.TAGS, 2), shape(6, 3, 4, kv.F16, kv.F32, other=True)),
                       ("written in place", consts(40, 3, True, {1, 2, 3, 7, 12, 41}, kv.TAGS, 0), shape(8, 2, 6, kv.F32, kv.F16)),
                       ("written in place, quantised", consts(24, 2, True, {1, 5}, kv.TAGS, 0), shape(4, 2, 32, kv.F32, kv.Q4_0))]:
        jobs.append((sim, (f"histories, {name}", exe, c, s, n, dep), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C11", body)

"""C12: operations on tensors.  Spec: Tensors."""
from harness.py import tensors as ts
from lib import cover, cxx, report, tlc

INV = ["Whole", "Plain", "Unshared"]
ALL = {"new", "slice", "split", "view", "contiguous", "clone", "concat", "stack", "gather", "repeat", "pad", "causal", "argsort", "topk", "shards", "copy", "scatter", "transpose", "permute", "index", "fill", "resize", "rotate"}
HALF = ALL - {"pad", "transpose", "fill", "resize"}
WHOLE = {"new", "slice", "split", "view", "contiguous", "clone", "copy", "argsort", "topk", "shards", "permute", "index"}


def consts(shapes, ops, steps=99, live=6):
    return dict(Shapes={tuple(s) for s in shapes}, Ops=set(ops), MaxLive=live, MaxElems=72, MaxSteps=steps)


def run(ctx, name, exe, c, dtype, paths):
    d = cxx.Driver(exe, timeout=20)
    report.replay(ctx, name, [[a for a in p if a["op"] != "init"] for p in paths], lambda: ts.Tensors(d, dtype, c["MaxLive"]), step_timeout=30)
    d.stop()


def graph(ctx, name, exe, c, dtype, limit):
    r = tlc.explore("Tensors", c, view="vars", invariants=INV, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    run(ctx, name, exe, c, dtype, paths)


def sim(ctx, name, exe, c, dtype, num, depth):
    tr = tlc.simulate("Tensors", c, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=1, next_="SimNext")
    run(ctx, name, exe, c, dtype, tr)


def body(ctx):
    exe = ts.build()
    lim = ctx.pick(4000, 100000)
    n, dep = ctx.pick((60, 40), (1500, 60))
    jobs = [(graph, ("cut, then worked on", exe, consts([(3, 4)], ALL, 3), "f32", lim), {})]
    jobs.append((graph, ("resized", exe, consts([(1, 1, 3, 4), (1, 2, 4, 2), (1, 1, 1, 1)], {"new", "resize"}, 2), "f32", lim), {}))
    jobs.append((graph, ("turned", exe, consts([(1, 2, 2, 4), (2, 1, 2, 3), (2, 3, 1, 5)], {"new", "rotate"}, 3), "f32", lim), {}))
    mixed = [(2, 3), (3, 2), (4,), (2, 1, 3), (3, 2, 2), (2, 3, 2, 2), (1, 4), (5, 6), (2, 4, 5)]
    rows = [(1, 2, 3, 3), (2, 1, 2, 5), (1, 1, 4, 6), (1, 2, 1, 4)]
    rope = [(1, 2, 3, 4), (2, 1, 2, 6), (2, 2, 1, 8), (1, 3, 2, 7), (1, 1, 1, 16)]
    for name, shapes, ops, t in [("f32", mixed, ALL, "f32"), ("f32, masks", rows, {"new", "causal", "slice", "contiguous", "scatter", "repeat"}, "f32"), ("f16", mixed, HALF, "f16"),
                                 ("f32, resized", [(1, 2, 4), (2, 1, 3, 4), (1, 1, 2, 3, 2), (1, 1, 4, 2), (1, 2, 2, 2, 1)], {"new", "resize", "slice", "contiguous"}, "f32"),
                                 ("f32, turned", rope, {"new", "rotate", "slice", "contiguous"}, "f32"), ("f16, turned", rope, {"new", "rotate", "slice", "contiguous"}, "f16"),
                                 ("f16, masks", rows, {"new", "causal", "slice", "contiguous", "scatter", "repeat"}, "f16"),
                                 ("i64", mixed, {"new", "slice", "view", "contiguous", "copy", "permute", "transpose", "index"}, "i64"),
                                 ("i32", mixed, WHOLE | {"gather"}, "i32"), ("i16", mixed, WHOLE, "i16"), ("i8", mixed, WHOLE, "i8")]:
        jobs.append((sim, (f"histories, {name}", exe, consts(shapes, ops), t, n, dep), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C12", body)

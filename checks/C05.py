"""C05: the C++ multi-layer prefix cache.  Spec: LayerCache."""
import itertools
import tempfile

from checks.radix_common import keys
from harness.py import blocks
from harness.py.blocks import Geometry
from lib import cover, cxx, report, tlc

INV, PROP = ["TypeOK", "OneOwner"], ["WindowKept", "OthersKept"]
FILE, ANON = 0, 1


def adaptor(exe, what, geo, c):
    d = cxx.Driver(exe, timeout=10)
    scratch = tempfile.TemporaryDirectory(prefix="verif-c05-")

    def make():
        return blocks.Layered(d, what, geo, c["Layers"], c["Sliding"], c["W"], scratch.name)
    make.keep = scratch
    return make


def consts(geo, ks, probes, layers, sliding, w, most):
    per = tuple(1 << (w.bit_length() - 1) if l in sliding else geo.blocks for l in range(1, layers + 1))
    return dict(Keys=ks, Probes=probes, Layers=layers, Sliding=set(sliding), W=w, Blocks=per, MaxLive=most)


def graph(ctx, exe, name, what, geo, c, limit):
    r = tlc.explore("LayerCache", c, view="View", invariants=INV, properties=PROP, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    report.replay(ctx, name, paths, adaptor(exe, what, geo, c), keys=None if what == "cpu" else {"found", "clash"})


def sim(ctx, exe, name, what, geo, c, num, depth):
    tr = tlc.simulate("LayerCache", c, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=2, next_="SimNext")
    report.replay(ctx, name, tr, adaptor(exe, what, geo, c), keys=None if what == "cpu" else {"found", "clash"})
    ctx.log(f"{name}: {len(tr)} histories")


def body(ctx):
    exe = blocks.build()
    lim = ctx.pick(2500, 30000)
    K = keys(0, [(1, 2, 3, 4), (1, 2, 3), (1, 2, 5), (1,), (2, 2)])
    X = keys(0, [(1, 2, 3, 4, 4), (1, 2, 5, 5)])
    g = Geometry(0, 1, 16, ANON)
    jobs = [(graph, (exe, "one sliding layer of two", "cpu", g, consts(g, K, X, 2, {1}, 2, 12), lim), {}),
            (graph, (exe, "window of one", "cpu", g, consts(g, K, X, 2, {2}, 1, 12), lim), {}),
            (graph, (exe, "full attention", "cpu", g, consts(g, K | keys(3, [(1, 2, 3), (1, 5)]), X, 2, (), 0, 15), lim), {}),
            (graph, (exe, "one allocator for all layers", "cache", g, consts(g, K | keys(3, [(1, 2, 3), (1, 5)]), X, 2, (), 0, 15), lim), {})]
    n, d = ctx.pick((25, 50), (600, 80))
    seqs = [s for n_ in (1, 2, 3, 4) for s in itertools.product((1, 2), repeat=n_)] + [(1,) * 9, (1, 1, 1, 1, 1, 2, 2), (3, 4, 3, 4, 3, 4, 3), (3, 4, 3, 4, 5)]
    S = keys(0, seqs) | keys(2, seqs[::4])
    for what, geo, layers, sliding, w in [("cpu", Geometry(1, 1, 8, ANON), 3, {1, 3}, 3), ("cpu", Geometry(1, 2, 1024, FILE, ve=512), 2, {2}, 4),
                                          ("cpu", Geometry(0, 2, 8, FILE), 2, {1, 2}, 2), ("cpu", Geometry(2, 1, 8, ANON), 2, (), 0),
                                          ("cache", Geometry(1, 2, 16, FILE), 3, (), 0), ("cpu", Geometry(1, 0, 8, ANON), 1, {1}, 5)]:
        jobs.append((sim, (exe, f"histories, {what}, {layers} layers, window {w}", what, geo, consts(geo, S, S, layers, sliding, w, 60), n, d), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C05", body)

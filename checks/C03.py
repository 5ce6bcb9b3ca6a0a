"""C03: the C++ radix tree.  Spec: PrefixStore."""
import itertools

from checks.radix_common import keys
from harness.py import blocks
from lib import cover, cxx, report, tlc

INV, PROP = ["PrefixClosed"], ["Stable", "InsertedFound"]


def graph(ctx, exe, name, ks, layers, limit):
    c = dict(Keys=ks, Probes=ks, Watch=tuple(sorted(ks)), Clears=True)
    r = tlc.explore("PrefixStore", c, view="View", invariants=INV, properties=PROP, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    d = cxx.Driver(exe, timeout=10)
    report.replay(ctx, name, paths, lambda: blocks.Tree(d, layers, sorted(ks)))


def sim(ctx, exe, name, ks, probes, layers, num, depth):
    c = dict(Keys=ks, Probes=probes, Watch=(), Clears=True)
    tr = tlc.simulate("PrefixStore", c, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=2, next_="SimNext")
    d = cxx.Driver(exe, timeout=10)
    report.replay(ctx, name, tr, lambda: blocks.Tree(d, layers))
    ctx.log(f"{name}: {len(tr)} histories")


def seqs(alphabet, *lens):
    return [s for n in lens for s in itertools.product(alphabet, repeat=n)]


def body(ctx):
    exe = blocks.build()
    lim = ctx.pick(4000, 40000)
    jobs = [(graph, (exe, "two tokens, up to three", keys(0, seqs((1, 2), 1, 2, 3)), 1, lim), {}),
            (graph, (exe, "two namespaces", keys(0, seqs((1, 2), 1, 2)) | keys(7, seqs((1, 2), 1, 2)), 2, lim), {}),
            (graph, (exe, "one long edge", keys(0, [(1, 1, 1, 1, 1), (1,), (1, 1), (1, 1, 2, 2), (1, 1, 1, 2), (1, 1, 1, 1), (1, 1, 2, 2, 1), (2, 1, 1)]), 2, lim), {}),
            (graph, (exe, "three tokens", keys(0, [(1, 2, 3), (1, 2), (1, 3, 3), (2, 3), (3, 1, 2, 3), (3, 1, 1, 1)]), 1, lim), {})]
    n, d = ctx.pick((60, 80), (1500, 120))
    long = seqs((1, 2), 1, 2, 3, 4, 5) + seqs((1, 2, 3), 3) + [(1,) * 9, (1,) * 6 + (2, 2), (1,) * 6 + (2, 3, 3, 3), (5, 6, 7, 8), (5, 6, 7, 9, 9), (5, 6)]
    for layers in (1, 3):
        jobs.append((sim, (exe, f"histories, {layers} layers", keys(0, long) | keys(1, long[::3]) | keys(2, long[1::4]),
                           keys(0, long) | keys(1, long) | keys(5, long[::9]), layers, n, d), {}))
    few = [(1, 2, 1, 2, 1, 2), (1, 2, 1, 2), (1, 2, 1, 1), (1, 2), (1, 2, 1, 2, 2), (1, 1), (2, 1, 2, 1), (2, 2)]
    jobs.append((sim, (exe, "histories over few keys", keys(0, few) | keys(-3, few), keys(0, seqs((1, 2), 3, 4)) | keys(-3, few), 2, n, d), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C03", body)

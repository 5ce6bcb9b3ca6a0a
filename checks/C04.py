"""C04: the block allocator of the C++ prefix cache.  Spec: BlockStore."""
import tempfile

from harness.py import blocks
from harness.py.blocks import FLOAT, INT8, Geometry
from lib import cover, cxx, report, tlc

INV, PROP = ["TypeOK", "Enough"], ["Kept"]
FILE, ANON = 0, 1


def adaptor(exe, what, geo, pools, layers, n):
    d = cxx.Driver(exe, timeout=10)
    scratch = tempfile.TemporaryDirectory(prefix="verif-c04-")

    def make():
        return blocks.Blocks(d, what, geo, pools, layers, scratch.name, n)
    make.keep = scratch
    return make


def graph(ctx, exe, name, what, geo, pools, layers, n, limit):
    c = dict(N=n, Blocks=(geo.blocks,) * len(pools), Tags={1, 2} if n < 4 else {1}, Bulk={1})
    r = tlc.explore("BlockStore", c, view="View", invariants=INV, properties=PROP, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    report.replay(ctx, name, paths, adaptor(exe, what, geo, pools, layers, n))


def sim(ctx, exe, name, what, geo, pools, layers, n, bulk, num, depth):
    c = dict(N=n, Blocks=(geo.blocks,) * len(pools), Tags=set(range(1, 200, 7)), Bulk=bulk)
    tr = tlc.simulate("BlockStore", c, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=2, next_="SimNext")
    report.replay(ctx, name, tr, adaptor(exe, what, geo, pools, layers, n))
    ctx.log(f"{name}: {len(tr)} histories")


def body(ctx):
    exe = blocks.build()
    lim = ctx.pick(1500, 20000)
    one = [(0, 0)]
    two = [(l, k) for l in (0, 1) for k in (0, 1)]
    jobs = [(graph, (exe, "blobs of two lanes", "zen", Geometry(0, 1, 4, ANON), one, 1, 4, lim), {}),
            (graph, (exe, "pages of one lane", "pca", Geometry(1, 0, 1024, FILE), one, 1, 4, lim), {}),
            (graph, (exe, "key and value pools", "cpu", Geometry(1, 0, 1024, ANON, ve=512), [(0, 0), (0, 1)], 1, 4, lim), {})]
    n, d = ctx.pick((12, 50), (250, 80))
    for i, (what, geo) in enumerate([("zen", Geometry(2, 1, 1024, ANON)), ("zen", Geometry(1, 2, 1024, FILE)), ("zen", Geometry(0, 3, 4, ANON)),
                                     ("zen", Geometry(3, 0, 3, FILE, INT8)), ("pca", Geometry(2, 2, 1024, ANON)), ("cache", Geometry(1, 1, 512, FILE)),
                                     ("zen", Geometry(0, 0, 1024, FILE)), ("pca", Geometry(0, 2, 2048, FILE))]):
        jobs.append((sim, (exe, f"histories, {what} {geo.page}+{geo.lane} bits, {'anonymous' if geo.mmap else 'file'}", what, geo, one, 1,
                           5 * geo.blocks + 2, {1, 2, 3, geo.blocks, geo.blocks + 1}, n, d), {}))
    jobs.append((sim, (exe, "histories, four pools", "cpu", Geometry(1, 1, 1024, FILE, ve=512), two, 2, 40, {1, 2, 7, 16}, n, d), {}))
    jobs.append((sim, (exe, "histories, four anonymous pools", "cpu", Geometry(0, 2, 1024, ANON, ve=2048), two, 2, 40, {1, 2, 7, 16}, n, d), {}))
    m = max(4, n // 3)
    for page, lane in ((3, 3), (2, 5), (7, 0), (0, 8)):
        jobs.append((sim, (exe, f"histories, {1 << (page + lane)} blocks", "zen", Geometry(page, lane, 4, ANON), one, 1,
                           int(2.2 * (1 << (page + lane))), {1, 3, 60, 64, 65, 130}, m, 40), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("C04", body)

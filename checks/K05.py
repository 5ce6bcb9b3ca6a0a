"""K05: the hybrid prefix cache.  Spec: MambaCache (over RadixTree)."""
import itertools

from checks.radix_common import keys
from harness.py.mamba import Mamba
from lib import cover, report, tlc

INV = ["TypeOK", "NoSharedSlot", "NoSharedSnapshot", "LocksExact", "LockedStay", "Strict"]


def graph(ctx, name, consts, limit):
    r = tlc.explore("MambaCache", consts, view="View", invariants=INV, properties=["SnapshotMoves"], workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    report.replay(ctx, name, paths, lambda: Mamba(consts["P"]))


def sim(ctx, name, consts, num, depth):
    tr = tlc.simulate("MambaCache", consts, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=2, next_="SimNext")
    report.replay(ctx, name, tr, lambda: Mamba(consts["P"]))
    ctx.log(f"{name}: {len(tr)} histories")


def body(ctx):
    q = ctx.quick
    B = dict(P=1, Keys=keys(0, [(1, 2), (1, 2, 1), (1, 1)]), Probes=keys(0, [(1, 2, 2), (1, 2, 1)]), Cap=4, Snaps=2, MaxLocks=1, Evicts={(0, 1), (1, 0), (1, 2)})
    lim = ctx.pick(1500, 20000)
    jobs = [(graph, ("two snapshots", B, lim), {}),
            (graph, ("two locks", dict(B, Keys=keys(0, [(1, 2), (1,)]), Probes=keys(0, [(1, 1), (1, 2)]), MaxLocks=2), lim), {}),
            (graph, ("three snapshots", dict(B, Snaps=3, MaxLocks=0 if q else 1), lim), {}),
            (graph, ("pages of two", dict(B, P=2, Keys=keys(0, [(1, 1), (1, 1, 2, 2), (1, 1, 2, 1), (1, 1, 2)]),
                                          Probes=keys(0, [(1, 1, 2, 1, 1), (1, 2)]), Cap=6), lim), {})]
    seqs = [s for n in range(1, 5) for s in itertools.product((1, 2), repeat=n)]
    seqs += [(1, 2, 1, 2, 1), (1, 2, 1, 2, 2, 1), (1, 2, 1, 1, 2, 2, 1), (3, 3, 3, 3, 3, 3), (3, 3, 3, 1), (3, 3, 3, 3, 2)]
    S = dict(Keys=keys(0, seqs) | keys(4, seqs[::3]), Probes=keys(0, seqs) | keys(4, seqs[::2]), P=1, Cap=30, Snaps=6, MaxLocks=4,
             Evicts={(0, 1), (0, 3), (1, 0), (3, 0), (1, 2), (2, 9), (99, 0)})
    n, d = ctx.pick((80, 45), (1500, 60))
    for s in (2, 6):
        jobs.append((sim, (f"histories, {s} snapshots", dict(S, Snaps=s), n, d), {}))
    few = [(1,), (1, 2), (1, 2, 1), (1, 2, 1, 1), (1, 2, 2), (2, 2)]
    jobs.append((sim, ("histories over few keys", dict(S, Keys=keys(0, few), Probes=keys(0, few + [(1, 1), (2, 1)])), n, d), {}))
    for p in (2, 3):
        ps = [tuple(itertools.chain(*x)) for k in (1, 2, 3) for x in itertools.product([(1,) * p, (1,) * (p - 1) + (2,), (2,) * p], repeat=k)]
        ps += [s + (1,) for s in ps[::4]] + [(1,)]
        jobs.append((sim, (f"histories, pages of {p}", dict(S, Keys=keys(0, ps), Probes=keys(0, [s + (2,) for s in ps]), P=p, Cap=50), n, d), {}))
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("K05", body)

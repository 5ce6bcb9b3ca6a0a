from lib import cover, report, tlc
from harness.py.radix import Radix

INV = ["TypeOK", "NoSharedSlot", "LocksExact", "LockedStay", "Sizes"]


def family(ctx, name, consts, make, sim, depth, num, max_paths=None):
    if consts:
        r = tlc.explore("RadixCache", consts, view="View", invariants=INV)
        ctx.add_model(r)
        paths, covered = cover.edge_cover(r["init"], r["edges"], max_len=70, seed=ctx.seed, limit=max_paths)
        ctx.log(f"{name}: {r['states']} states, {covered}/{len(r['edges'])} transitions in {len(paths)} paths")
        ctx.count("transitions_replayed", covered)
        report.replay(ctx, name + " (all transitions)", paths, make)
    if sim:
        tr = tlc.simulate("RadixCache", sim, depth=depth, num=num, seed=ctx.seed, invariants=INV, procs=4, next_="SimNext")
        report.replay(ctx, name + " (simulated)", tr, make)


def keys(ns, seqs):
    return {(ns,) + tuple(s) for s in seqs}

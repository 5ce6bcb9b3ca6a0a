"""K03: locks, LRU eviction and exact accounting.  Spec: RadixCache."""
import itertools

from checks.radix_common import Radix, family, keys
from lib import report


def body(ctx):
    q = ctx.quick
    K = keys(0, [(1,), (1, 2), (1, 2, 1), (1, 1), (2,)])
    family(ctx, "two locks",
           dict(Keys=K if q else K | keys(0, [(2, 1)]), Probes=keys(0, [(1, 2, 2), (1,)]),
                P=1, Cap=5, MaxLocks=2, EvictN={1, 2, 9}),
           Radix, None, 0, 0, max_paths=ctx.pick(4000, None))
    family(ctx, "two namespaces, eviction",
           dict(Keys=keys(0, [(1, 1), (1, 2)]) | keys(3, [(1, 1), (1, 1, 1)]), Probes=keys(0, [(1, 1)]) | keys(3, [(1,)]),
                P=1, Cap=5 if q else 6, MaxLocks=1, EvictN={1, 3}),
           Radix, None, 0, 0, max_paths=ctx.pick(3000, None))
    family(ctx, "pages of two",
           dict(Keys=keys(0, [(1, 1), (1, 1, 2, 2), (1, 1, 2, 1), (1, 2)]), Probes=keys(0, [(1, 1, 2), (1, 2, 1)]),
                P=2, Cap=8, MaxLocks=2 if not q else 1, EvictN={1, 3, 9}),
           lambda: Radix(page=2), None, 0, 0, max_paths=ctx.pick(3000, None))
    seqs = [s for n in range(1, 4) for s in itertools.product((1, 2), repeat=n)] + \
        [(1, 2, 1, 2, 1), (1, 2, 1, 2, 2, 1), (1, 2, 1, 1, 2, 2, 1), (3, 3, 3, 3, 3, 3), (3, 3, 3, 1)]
    S = dict(Keys=keys(0, seqs) | keys(4, seqs[::3]), Probes=keys(0, seqs[::2]), P=1, Cap=40, MaxLocks=8,
             EvictN={1, 2, 3, 5, 8, 100})
    family(ctx, "many locks", None, Radix, S, 50, ctx.pick(120, 2500))
    S = dict(S, MaxLocks=2, Cap=24)
    family(ctx, "pressure", None, Radix, S, 50, ctx.pick(60, 1500))


if __name__ == "__main__":
    report.main("K03", body)

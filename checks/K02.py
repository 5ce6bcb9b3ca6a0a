"""K02: prefix lookup exactness.  Spec: RadixCache."""
import itertools

import torch

from checks.radix_common import Radix, family, keys
from lib import report
from pymllm.mem_cache import ChunkCache, RadixKey


def body(ctx):
    q = ctx.quick
    base = [(1,), (1, 2), (1, 2, 1), (1, 1)]
    K = keys(0, base) | keys(5, [(1, 2)])
    family(ctx, "tokens, two namespaces",
           dict(Keys=K if q else K | {(0, 2), (5, 1, 1)}, Probes=keys(0, [(1, 2, 2), (1, 2, 1), (1, 1, 1), (2,)]) | keys(5, [(1, 1)]),
                P=1, Cap=5, MaxLocks=1, EvictN={2}),
           Radix, None, 0, 0, max_paths=ctx.pick(4000, None))
    K = keys(0, [(1, 1), (1, 1, 2, 2), (1, 1, 2, 1), (1, 2), (1, 2, 1, 1)]) | keys(7, [(1, 1, 2, 1)])
    family(ctx, "pages of two",
           dict(Keys=K, Probes=keys(0, [(1,), (1, 1, 2), (1, 1, 2, 1, 1), (1, 1, 1, 1), (1, 2, 1, 2)]),
                P=2, Cap=8 if q else 10, MaxLocks=1, EvictN={2}),
           lambda: Radix(page=2), None, 0, 0, max_paths=ctx.pick(4000, None))
    # long random behaviours over larger key sets
    seqs = [s for n in range(1, 5) for s in itertools.product((1, 2), repeat=n)]
    seqs += [(1, 2, 1, 2, 1), (1, 2, 1, 2, 2, 1), (1, 2, 1, 1, 2, 2, 1), (3, 3, 3, 3, 3, 3), (3, 3, 3, 1), (3, 3, 3, 3, 2)]
    S = dict(Keys=keys(0, seqs) | keys(4, seqs[::3]) | keys(9, seqs[::4]), Probes=keys(0, seqs) | keys(4, seqs) | keys(9, seqs[::2]),
             P=1, Cap=40, MaxLocks=4, EvictN={1, 3, 9})
    family(ctx, "tokens", None, Radix, S, 40, ctx.pick(60, 1500))
    family(ctx, "bigrams", None, lambda: Radix(bigram=True), S, 40, ctx.pick(20, 300))
    for p in (2, 3):
        ps = [tuple(itertools.chain(*x)) for n in (1, 2, 3) for x in
              itertools.product([(1,) * p, (1,) * (p - 1) + (2,), (2,) * p], repeat=n)]
        pr = [s + t for s in ps for t in ((), (1,), (2,) * (p - 1))]
        S = dict(Keys=keys(0, ps) | keys(4, ps[::3]), Probes=keys(0, pr) | keys(4, pr[::2]), P=p, Cap=50, MaxLocks=4, EvictN={1, p, 3 * p})
        family(ctx, f"pages of {p}", None, lambda p=p: Radix(page=p), S, 40, ctx.pick(40, 800))
    # the disabled cache never finds anything
    c = ChunkCache()
    for s in seqs:
        r = c.insert(RadixKey(list(s)), torch.arange(len(s)))
        m = c.match_prefix(RadixKey(list(s)))
        if r.prefix_len or m.prefix_len or len(m.indices):
            ctx.violation(f"disabled cache reports a hit for {s}", {})


if __name__ == "__main__":
    report.main("K02", body)

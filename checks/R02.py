"""R02: resources come back exactly once.  Spec: Serve (over RadixTree)."""
import functools

from checks import serve_common as sc
from lib import report


def strangers(ctx):
    """Releasing what is unknown or already released changes nothing."""
    for hybrid in (False, True):
        cfg = dict(sc.scen("recurrent model" if hybrid else "shared prefixes"), Ctx=20)
        ad = sc.Serve(cfg)
        release = getattr(ad.s._model_runner, "_free_rid_resources", None)
        if release is None:
            return
        reqs = [(1, (1, 2), 2), (2, (1, 2, 1), 9)]
        for r, p, m in reqs:
            ad.step("submit", dict(r=r, p=p, max=m, stop=(), stream=False))
        for i in range(4):
            o = ad.step("iterate", {})
            before = {k: o[k] for k in sc.SIZES + ("snaps",)}
            for rid in ("r1", "r7") if i > 1 else ("r7",):     # r1 is over after two tokens
                release(rid)
            now = dict(kv_free=ad.runner.token_to_kv_pool_allocator.available_size(),
                       slots_free=ad.runner.req_to_token_pool.available_size(),
                       evictable=ad.s._model_runner._radix_cache.evictable_size(),
                       protected=ad.s._model_runner._radix_cache.protected_size(), snaps=before["snaps"])
            ctx.count("implementation_steps")
            if now != before:
                ctx.violation(f"releasing an unknown or finished request changed {before} to {now}", dict(step=i, hybrid=hybrid))
                return
        ctx.add_traces(1)


def body(ctx):
    n = ctx.pick(60, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("shared prefixes", "no cache", "pages of two", "scarce memory", "recurrent model",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load", "mixed load, little memory", "mixed load, no cache", "mixed load, pages of three",)]
    # a sliding window makes no difference as long as no window KV is dropped
    win = functools.partial(sc.Serve, window=3)
    jobs.append((sc.explore, ("shared prefixes",), dict(make=win, MaxReq=2)))
    jobs += [(sc.simulate, (c, n // 2), dict(make=win)) for c in ("mixed load", "mixed load, little memory", "mixed load, pages of three")]
    jobs.append((strangers, (), {}))
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("R02", body)

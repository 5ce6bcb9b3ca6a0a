"""R03: recurrent state follows the reused prefix.  Spec: Serve (over RadixTree)."""
import functools

from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(90, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("recurrent model",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load, recurrent", "mixed load, recurrent, little memory",)]
    # the cache made for such models serves the same
    mamba = functools.partial(sc.Serve, mamba=True)
    jobs += [(sc.explore, ("recurrent model",), dict(make=mamba, Rest=False, MaxReq=ctx.pick(2, 3)))]
    jobs += [(sc.simulate, (c, n // 2), dict(make=mamba, Rest=False)) for c in ("mixed load, recurrent", "mixed load, recurrent, little memory")]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("R03", body)

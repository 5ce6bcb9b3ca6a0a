"""S03: aborts.  Spec: Serve (over RadixTree)."""
import functools

from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(60, 600)
    A = dict(only="abort")
    shared = dict(A, make=functools.partial(sc.Serve, shared=True))
    jobs = [(sc.explore, (c,), A) for c in ("shared prefixes", "one slot", "recurrent model", "no cache")]
    jobs += [(sc.simulate, (c, n), A) for c in ("mixed load", "mixed load, little memory", "mixed load, recurrent")]
    jobs += [(sc.explore, ("shared prefixes",), shared), (sc.simulate, ("mixed load", n), shared)]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("S03", body)

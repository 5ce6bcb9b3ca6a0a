"""S02: own tokens, one final result.  Spec: Serve (over RadixTree)."""
from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(60, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("shared prefixes", "limits", "no cache", "pages of two",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load", "tight limits", "mixed load, little memory", "mixed load, no cache",)]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("S02", body)

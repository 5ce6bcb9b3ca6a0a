"""S01: admission limits, order and token budget.  Spec: Serve (over RadixTree)."""
from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(60, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("shared prefixes", "limits", "one slot", "scarce budget",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load", "tight limits", "tight budget", "mixed load, little memory", "mixed load, no cache",)]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("S01", body)

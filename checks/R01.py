"""R01: every request computes from its own KV.  Spec: Serve (over RadixTree)."""
from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(60, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("shared prefixes", "pages of two", "recurrent model", "scarce memory",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load", "mixed load, little memory", "mixed load, pages", "mixed load, recurrent",)]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("R01", body)

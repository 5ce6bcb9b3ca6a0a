"""S04: every request is answered.  Spec: Serve (over RadixTree)."""
from checks import serve_common as sc
from lib import report


def body(ctx):
    n = ctx.pick(60, 600)
    jobs = [(sc.explore, (c,), {}) for c in ("scarce memory", "limits", "one slot", "recurrent model",)]
    jobs += [(sc.simulate, (c, n), {}) for c in ("mixed load, little memory", "mixed load, recurrent, little memory", "tight limits", "long prompts", "mixed load, pages of three",)]
    jobs.append((sc.liveness, ("one slot",), dict(MaxReq=3)))
    jobs.append((sc.liveness, ("scarce memory",), dict(MaxReq=2 if ctx.quick else 3)))
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("S04", body)

"""C06: the request service.  Specs: Service (step by step, implements Answers), AnswerTrace."""
import random

from harness.py import pool, service
from lib import cxx, report, tlc


def S(s):
    """s1:2 sends a request with two answers under id 1, g1 reads until it is finished."""
    out = []
    for w in s.split():
        i, _, n = w[1:].partition(":")
        out.append(tlc.Rec(dict(op="send" if w[0] == "s" else "get", id=int(i), n=int(n or 0))))
    return tuple(out)


def model(ctx, name, w, scripts, control):
    r = tlc.explore("Service", dict(W=w, Scripts=tuple(S(s) for s in scripts), Control=tuple(control.split())),
                    properties=["Implements", "NothingLate", "Ends"], fairness_spec="Spec", workers=4, edges=False)
    ctx.add_model(r)
    ctx.log(f"model {name}: {r['states']} states")


def req(rnd, i, tag):
    kind = rnd.choice(("m", "m", "m", "m", "k", "nobody", "number", "none" if rnd.random() < 0.3 else "m"))
    n = rnd.choice((0, 1, 1, 2, 3))
    fail = rnd.randint(0, n) if rnd.random() < 0.25 else -1
    odd = rnd.randint(0, n) if rnd.random() < 0.12 else 100 + rnd.randint(0, n) if rnd.random() < 0.2 else -1
    return f"s{i}:{kind}:{n}:{tag}:{fail}:{odd}"


def client(rnd, me, nreq):
    """Sends some requests and reads each to the end, in some order."""
    out, todo, k = [], [], 0
    for _ in range(nreq):
        if rnd.random() < 0.15:
            out.append(f"m{rnd.randrange(11)}")
        k += 1
        i = f"c{me}r{k}"
        out.append(req(rnd, i, f"{me}.{k}."))
        todo.append(i)
        while todo and rnd.random() < 0.5:
            out.append("G" + todo.pop(rnd.randrange(len(todo))))
    rnd.shuffle(todo)
    out += ["G" + i for i in todo]
    return " ".join(out)


def runs(ctx, name, exe, workers, callers, nreq, num, mode):
    d = cxx.Driver(exe, timeout=40)
    rnd = random.Random(f"{name} {ctx.seed}")
    todo = []
    for _ in range(num):
        cl = [client(rnd, c + 1, rnd.randint(1, nreq)) for c in range(callers)]
        if mode == "to the end":
            main, complete = "Rm Rk Y J X", True
        elif mode == "stopped":
            main, complete = "Rm Rk Y " + ("Rz " if rnd.random() < 0.5 else "") + "X", False
        elif mode == "restarted":
            main, complete = "Rm Rk Y X Y J X", False
        elif mode == "late":        # sessions come, and it starts, while requests are already there
            main, complete = "Rm Rk Rx Ry Y J X", True
            cl[0] = cl[0] + " " + "Ra Rb"
        todo.append((rnd.randrange(1 << 40), rnd.choice(workers), [main] + cl, complete))
    logs = pool.some(service.record(d, *t) for t in todo)
    d.stop()
    service.judge(ctx, name, logs)


def given(ctx, name, exe, scripts, num):
    d = cxx.Driver(exe, timeout=40)
    rnd = random.Random(f"{name} {ctx.seed}")
    todo = [(rnd.randrange(1 << 40), w, list(sc), complete) for w, complete, *sc in scripts for _ in range(num)]
    logs = pool.some(service.record(d, *t) for t in todo)
    d.stop()
    service.judge(ctx, name, logs)


def body(ctx):
    exe = service.build()
    jobs = [(model, ("two callers", 1, ["s1:2 g1", "s2:1 g2"], "join stop"), {}),
            (model, ("two workers", 2, ["s1:2 g1", "s2:1 g2"], "join stop"), {}),
            (model, ("one caller waits in vain", 1, ["g3", "s1:2 g1"], "stop"), {}),
            (model, ("stopped in the middle", 2, ["s1:2 s2:1 g2 g1"], "stop"), {}),
            (model, ("restarted", 1, ["s1:2 g1", "s2:1 g2"], "stop start join stop"), {})]
    if not ctx.quick:
        jobs += [(model, ("three callers", 2, ["s1:2 g1", "s2:1 g2", "s3:1 g3"], "join stop"), {}),
                 (model, ("three callers stopped", 1, ["s1:1 g1", "s2:2 g2", "s3:1 g3"], "stop start join stop"), {})]
    n, k = ctx.pick((70, 3), (4000, 4))
    for mode in ("to the end", "stopped", "restarted", "late"):
        jobs.append((runs, (f"{mode}, two callers", exe, (1, 2), 2, k, n, mode), {}))
    jobs.append((runs, ("to the end, four callers", exe, (1, 2, 3), 4, 2, n, "to the end"), {}))
    sc = [(1, True, "Rm Y J X", "sa:m:2:a:-1:-1 Ga", "sb:m:1:b:-1:-1 Gb"),
          (2, True, "Rm Y J X", "sa:m:2:a:-1:-1", "sb:m:1:b:-1:-1 Gb Ga"),
          (1, True, "Rm Y J X", "sa:m:0:a:-1:-1 Ga sa:m:1:A:-1:-1 Ga sa:m:3:A:1:-1 Ga sa:m:1:A:-1:-1 Ga"),
          (1, True, "Rm Y sa:nobody:1:a:-1:-1 sb:m:1:b:-1:-1 Gb Ga J X"),
          (1, True, "Rm Y m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 sb:m:1:b:0:-1 Gb sa:m:1:a:-1:0 Ga sc:number:1:c:-1:-1 Gc sd:m:2:d:-1:-1 Gd X"),
          (2, True, "Rm Y J X X Y X", "sa:none:1:a:-1:-1 Ga", "sb:m:1:b:-1:-1 Gb"),
          (1, True, "Rb Rm Y sa:b:2:a:-1:-1 Ga sb:m:1:b:-1:-1 Gb J X", "sc:b:1:c:1:-1 Gc"),
          (1, False, "Y X", "gx", "gy", "gz"),
          (1, False, "Rm Y X J", "Gx", "sa:m:3:a:-1:-1 Ga Gx"),
          (2, False, "Rm Y X Y X Y J X", "sa:m:2:a:-1:-1 sb:m:2:b:2:-1 Gb Ga", "sc:m:1:c:-1:-1 Gc"),
          (2, True, "Rm Y sa:m:3:a:-1:-1 J X", "ga ga", "ga ga"),
          (3, True, "Rm Y sa:m:5:a:-1:-1 sb:m:0:b:-1:-1 J X", "ga ga ga", "ga ga ga", "gb"),
          (1, True, "Rm Y sa:m:3:a:-1:101 J Ga sb:m:2:b:-1:100 Gb X"),
          (2, True, "Rm Y J X", "sa:m:3:a:-1:101 Ga", "sb:m:2:b:2:100 Gb"),
          (2, True, "Rm Y J X", "Rm Rp Rq Rr sa:m:1:a:-1:-1 Ga", "Rs Rt Ru Rm sb:m:1:b:-1:-1 Gb")]
    jobs.append((given, ("given scripts", exe, sc, ctx.pick(15, 1200)), {}))
    ctx.parallel(jobs, procs=5)


if __name__ == "__main__":
    report.main("C06", body)

"""K04: the sliding-window prefix cache.  Specs: SwaCache (over RadixTree), SwaTrace."""
import itertools
import random

from checks.radix_common import keys
from harness.py.swa import Plain, Pool, Swa
from lib import cover, report, tlc

INV = ["TypeOK", "NoSharedSlot", "LocksExact", "LockedStay", "LockedWindow", "TombsExact", "FoundUsable"]


def check(ctx, name, consts, scripts, pool=Pool):
    """Runs scripts of operations and checks what happened against the specification."""
    logs = []
    for s in scripts:
        ad = Swa(consts["W"], consts["P"], consts["Cap"], pool)
        for op, a in s:
            try:
                ad.do(op, a)
            except Exception as e:  # noqa: BLE001
                ctx.violation(f"{name}: {op} raised {type(e).__name__}: {e}"[:300], dict(where=name, done=ad.log, op=op, args=a))
                return
        if ad.log:
            logs.append(ad.log)
    consts = dict(consts, Blind=pool is Plain)
    bad, st = tlc.validate("SwaTrace", logs, consts, invariants=["LocksExact", "LockedWindow"])
    ctx.count("implementation_steps", sum(map(len, logs)))
    for i, k in bad[:3]:
        ctx.violation(f"{name}: {logs[i][k]['op']} {logs[i][k]['args']} gave {logs[i][k]['res']}"[:600], dict(where=name, config={k: repr(v) for k, v in consts.items()}, trace=logs[i][:k + 1]))
    ctx.add_traces(len(logs) - len(bad), [dict(check=name, log=logs[0][:8])] if logs else None)
    ctx.log(f"{name}: {len(logs)} runs, {sum(map(len, logs))} operations")


def graph(ctx, name, consts, limit):
    r = tlc.explore("SwaCache", consts, view="View", invariants=INV, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=60, seed=ctx.seed, limit=limit)
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions")
    ctx.count("transitions_replayed", cov)
    check(ctx, name, consts, [[(a["op"], a["args"]) for a in p if a["op"] != "init"] for p in paths])


def runs(ctx, name, consts, num, depth, pool=Pool):
    """Long random histories over many keys."""
    rnd = random.Random(f"{name} {ctx.seed}")
    K, Q = sorted(consts["Keys"]), sorted(consts["Probes"])
    scripts = []
    for _ in range(num):
        few = rnd.sample(K, rnd.choice((3, 6, len(K))))
        s, most = [], rnd.choice((1, 2, consts["MaxLocks"]))
        held = 0
        for _ in range(depth):
            x = rnd.random()
            lk = held < most and rnd.random() < 0.4
            if x < 0.45:
                q = rnd.choice(few)
                e = rnd.choice([0, 0, 0] + [d for d in consts["Drops"] if d < len(q)])
                i = rnd.randint(1, held) if held and rnd.random() < 0.5 else 0
                s.append(("insert", dict(key=list(q), i=i, cut=rnd.choice(sorted(consts["Cuts"])) if i else 0, e=e, lock=lk)))
                held += lk
            elif x < 0.65:
                q = rnd.choice(few if rnd.random() < 0.5 else Q)
                s.append(("match", dict(key=list(q), lock=lk)))
                held += lk
            elif x < 0.8:
                n, k = rnd.choice(sorted(consts["Evicts"]))
                s.append(("evict", dict(n=n, k=k)))
            elif x < 0.99 and held:
                s.append(("unlock", dict(i=rnd.randint(1, held))))
                held -= 1
            elif x > 0.995:
                s.append(("reset", {}))
        scripts.append(s)
    check(ctx, name, consts, scripts, pool)


def body(ctx):
    q = ctx.quick
    base = dict(P=1, W=2, Blind=False, Keys=keys(0, [(1, 2), (1, 2, 1), (1, 1)]), Probes=keys(0, [(1, 2, 2), (1, 2, 1)]), Cap=6, MaxLocks=1,
                Evicts={(0, 1), (1, 0)}, Cuts={0}, Drops={0, 1})
    lim = ctx.pick(250, 4000)
    seqs = [s for n in range(1, 5) for s in itertools.product((1, 2), repeat=n)]
    seqs += [(1, 2, 1, 2, 1), (1, 2, 1, 2, 2, 1), (1, 2, 1, 1, 2, 2, 1), (3, 3, 3, 3, 3, 3), (3, 3, 3, 1), (3, 3, 3, 3, 2)]
    ev = {(0, 1), (0, 2), (0, 5), (1, 0), (3, 0), (1, 3), (2, 9), (99, 0)}
    S = dict(Keys=keys(0, seqs) | keys(4, seqs[::3]), Probes=keys(0, seqs) | keys(4, seqs[::2]), P=1, Blind=False, Cap=30, MaxLocks=4, Evicts=ev, Cuts={0, 1, 2},
             Drops=set(range(8)))
    n, d = ctx.pick((60, 45), (800, 60))
    jobs = [(graph, ("window of two", base if q else dict(base, Drops={0, 1, 2, 3}, MaxLocks=2), lim), {}),
            (graph, ("window of three, deeper", dict(base, W=3, Keys=keys(0, [(1, 2), (1, 2, 1, 1), (1, 1)])), lim), {}),
            (graph, ("two locks", dict(base, MaxLocks=2, Drops={0}, Cuts={0, 1}), lim), {}),
            (graph, ("pages of two", dict(base, P=2, Keys=keys(0, [(1, 1), (1, 1, 2, 2), (1, 1, 2, 1), (1, 1, 2)]), Probes=keys(0, [(1, 1, 2, 1, 1), (1, 2)]),
                                          Cap=8, Drops={0, 2}, Evicts={(0, 1), (1, 0), (1, 3)}), lim), {})]
    for w in (1, 2, 3, 5):
        jobs.append((runs, (f"histories, window {w}", dict(S, W=w), n, d), {}))
    for p in (2, 3):
        ps = [tuple(itertools.chain(*x)) for k in (1, 2, 3) for x in itertools.product([(1,) * p, (1,) * (p - 1) + (2,), (2,) * p], repeat=k)]
        ps += [s + (1,) for s in ps[::4]]
        jobs.append((runs, (f"histories, pages of {p}", dict(S, Keys=keys(0, ps), Probes=keys(0, [s + (2,) for s in ps[::2]]), P=p, W=2 * p - 1, Cap=50,
                                                             Cuts={0, p}, Drops={0, p, 2 * p}), n, d), {}))
    jobs.append((runs, ("histories, pool without window KV", dict(S, W=3), n, d, Plain), {}))
    ctx.parallel(jobs, procs=6)


if __name__ == "__main__":
    report.main("K04", body)

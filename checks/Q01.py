"""Q01: results are routed to the request that asked for them.  Specs: Frontend, FrontTrace."""
import asyncio
import logging
import os
import random
import shutil
import tempfile
import threading

import zmq

from harness.py import front
from lib import cover, report, tlc
from pymllm.engine.launch import Engine
from pymllm.orchestrator.request_response_process import RequestResponseProcess


def per_id(evs):
    d = {}
    for e in evs:
        d.setdefault(str((e.get("c") if "k" in e else 0, e["r"])), []).append(e)
    return d


class Seen:
    """Events whose order matters only among those of one id."""

    def __init__(self, evs):
        self.evs = evs

    def __eq__(self, want):
        return per_id(self.evs) == per_id(want)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.evs)


class Table:
    """Ids for which any state is left."""

    def __init__(self, rr):
        self.ids = sorted({k for v in vars(rr).values() if isinstance(v, (dict, set)) for k in v if isinstance(k, str)})

    def __eq__(self, want):
        return {f"q{r}" for r in want["least"]} <= set(self.ids) <= {f"q{r}" for r in want["most"]}

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(self.ids)


class Adapter:
    def __init__(self):
        self.e, self.rr, self.s = front.make()
        self.told = front.Told()
        self.loop = asyncio.new_event_loop()
        self.tasks, self.got, self.ended, self.refused = {}, [], [], False

    async def caller(self, c, kw):
        gen = self.e.generate_async(**kw)
        try:
            async for x in gen:
                self.got.append(dict(c=c, r=int(x["rid"][1:]), k=x.get("k", 0), fin=bool(x.get("finished")), err=x.get("error", "")))
            self.ended.append(c)
        except asyncio.CancelledError:
            await gen.aclose()
            self.ended.append(c)
        except ValueError:
            self.refused = True

    async def ticks(self, n=40):
        for _ in range(n):
            await asyncio.sleep(0)

    def open(self, a):
        kw = self.told.expect(a["c"], a["ids"], a["batch"], a["stream"])
        self.tasks[a["c"]] = self.loop.create_task(self.caller(a["c"], dict(kw, stream=a["stream"])))

    async def do(self, op, a):
        if op == "open":
            self.open(a)
        elif op == "result":
            for i in range(1, a["m"] + 1):
                self.s.inbox.append(front.result(a["r"], a["k"] + i, a["last"] and i == a["m"]))
        elif op == "both":
            self.s.inbox.append(front.result(a["s"], a["ks"] + 1, True))
            self.s.inbox.append(front.result(a["r"], a["kr"] + 1, True))
        elif op == "stray":
            self.s.inbox.append(front.result(a["r"], 99, False))
            self.s.inbox.append(front.result(a["r"], 100, True))
        elif op == "cancel":
            self.tasks[a["c"]].cancel()
        elif op == "abort":
            await self.rr.abort_request(f"q{a['r']}")
        elif op == "reuse":
            ab = self.loop.create_task(self.rr.abort_request(f"q{a['r']}"))
            self.open(a)
            await ab
        await self.ticks()

    def step(self, op, args):
        self.got.clear()
        self.ended.clear()
        self.refused = False
        self.s.sent.clear()
        self.loop.run_until_complete(self.do(op, args))
        bad = [t.exception() for t in self.tasks.values() if t.done() and not t.cancelled() and t.exception()]
        if bad:
            raise bad[0]
        return dict(fwd=Seen([self.told.read(m) for m in self.s.sent]), got=Seen(list(self.got)), ended=set(self.ended),
                    refused=self.refused, left=Table(self.rr))

    def close(self):
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        self.loop.run_until_complete(self.ticks(5))
        self.loop.close()


LISTS = [[1], [2], [3], [1, 2], [2, 1], [1, 1], [2, 3], [3, 1, 2]]


def graph(ctx, name, lists, calls, res, rids, sims, cap):
    logging.disable(logging.CRITICAL)
    consts = dict(Rids=set(rids), IdLists={tuple(x) for x in lists}, MaxCalls=calls, MaxRes=res)
    r = tlc.explore("Frontend", consts, invariants=["Owner", "FinHeld", "Working", "NobodyWaits"], workers=4)
    ctx.add_model(r)
    paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed, max_len=30)
    if len(paths) > cap:
        paths = random.Random(ctx.seed).sample(paths, cap)
    paths += tlc.simulate("Frontend", dict(Rids={1, 2, 3, 4}, IdLists={tuple(x) for x in LISTS + [[4], [4, 2]]}, MaxCalls=8, MaxRes=5),
                          depth=40, num=sims, seed=ctx.seed)
    report.replay(ctx, name, paths, Adapter)
    ctx.log(f"{name}: {r['states']} states, {r['transitions']} transitions, {len(paths)} behaviours")


class Backend:
    """Answers what it was sent, whenever the schedule lets it."""

    def __init__(self, log, told, put):
        self.log, self.told, self.put = log, told, put
        self.work, self.busy = {}, set()

    def take(self, m):
        x = self.told.read(m)
        self.log(op="fwd", **x)
        if x["abort"]:
            self.work.pop(x["r"], None)
            self.busy.discard(x["r"])
        else:
            self.work[x["r"]] = 0

    def answer(self, r, fin):
        self.work[r] += 1
        self.log(op="res", r=r, k=self.work[r], fin=fin)
        self.put(front.result(r, self.work[r], fin))
        if fin:
            del self.work[r]
            self.busy.discard(r)


async def caller(e, log, c, ids, kw, pace):
    log(op="call", c=c, ids=ids, stream=kw["stream"])
    gen = e.generate_async(**kw)
    try:
        async for x in gen:
            log(op="got", c=c, r=int(x["rid"][1:]), k=x.get("k", 0), fin=bool(x.get("finished")))
            await pace()
        log(op="done", c=c)
    except asyncio.CancelledError:
        await gen.aclose()
        log(op="left", c=c)
    except ValueError:
        log(op="refused", c=c)


async def schedule(rnd, events, steps):
    e, rr, s = front.make()
    told, tasks, rids, nc = front.Told(), {}, 5, 0

    def log(**x):
        events.append(x)
    b = Backend(log, told, s.inbox.append)
    s.on_send = b.take
    lag = rnd.choice((0, 0, 1, 2))
    s.lag = lambda: rnd.randint(0, lag)
    slow = rnd.choice((0, 0, 2, 5))

    async def pace():
        for _ in range(rnd.randint(0, slow)):
            await asyncio.sleep(0)

    def flying():
        return {int(m["rid"][1:]) for m in s.inbox}
    for _ in range(steps):
        x = rnd.random()
        if x < .3 and nc < 14:
            nc += 1
            n = rnd.choice((1, 1, 1, 2, 2, 3))
            ids = [rnd.randint(1, rids) for _ in range(n)]
            # an id is not used again while results of its previous holder are on their way
            held = set(ids) & live(rr)
            if held or not set(ids) & (flying() | b.busy):
                if not held and len(set(ids)) == n:
                    b.busy |= set(ids)
                batch = n > 1 or rnd.random() < .3
                kw = dict(told.expect(nc, ids, batch, st := rnd.random() < .5), stream=st)
                tasks[nc] = asyncio.Task(caller(e, log, nc, ids, kw, pace), loop=asyncio.get_running_loop(), eager_start=True)
            else:
                nc -= 1
        elif x < .75 and b.work:
            r = rnd.choice(sorted(b.work))
            for _ in range(rnd.randint(0, 2)):
                b.answer(r, False)
            b.answer(r, rnd.random() < .4)
        elif x < .85 and tasks:
            tasks[rnd.choice(sorted(tasks))].cancel()
        for _ in range(rnd.choice((0, 0, 1, 1, 2, 3, 8))):
            await asyncio.sleep(0)
    for _ in range(4):
        for _ in range(60):
            await asyncio.sleep(0)
        for r in sorted(b.work):
            b.answer(r, True)
    for _ in range(60):
        await asyncio.sleep(0)
    log(op="over", left=len(Table(rr).ids))
    left = [c for c, t in tasks.items() if not t.done()]
    for t in asyncio.all_tasks():
        if t is not asyncio.current_task():
            t.cancel()
    err = [t.exception() for t in tasks.values() if t.done() and not t.cancelled() and t.exception()]
    if err:
        raise err[0]
    return left


class Blocking:
    """Engine.generate, call after call, on stand-in or on real sockets."""

    def __init__(self, real):
        self.told, self.dir, self.plan = front.Told(), None, None
        if not real:
            self.e, self.rr, self.s = front.make()
            self.s.on_send = lambda m: self.take(m, self.s.inbox.append)
            return
        self.dir = tempfile.mkdtemp(prefix="q01-")
        a, b = f"ipc://{self.dir}/a", f"ipc://{self.dir}/b"
        self.rr = RequestResponseProcess(a, b)
        self.rr.start()
        self.e = Engine.__new__(Engine)
        self.e._rr_process = self.rr
        self.ctx = zmq.Context()
        self.i, self.o = self.ctx.socket(zmq.PULL), self.ctx.socket(zmq.PUSH)
        self.i.connect(a)
        self.o.connect(b)
        self.stop = False
        self.t = threading.Thread(target=self.serve, daemon=True)
        self.t.start()

    def serve(self):
        while not self.stop:
            if self.i.poll(20):
                self.take(self.i.recv_pyobj(), self.o.send_pyobj)

    def take(self, m, put):
        """Once all requests of the call are here, answer them in the planned order."""
        x = self.told.read(m)
        if x["abort"]:
            return
        a = self.plan
        self.had.append(x)
        if len(self.had) < len(a["ids"]):
            return
        for k in range(1, a["pieces"] + 1):
            for r in a["ids"]:
                put(front.result(r, k, False))
        for j in a["order"]:
            if a["stray"]:
                put(front.result(77, 1, True))
            put(front.result(a["ids"][j - 1], a["pieces"] + 1, True))

    def step(self, op, a):
        self.plan, self.had = a, []
        kw = self.told.expect(a["c"], a["ids"], a["batch"], False)
        try:
            out = self.e.generate(**kw)
        except ValueError:
            return dict(refused=True, many=a["batch"], got=[], left=len(Table(self.rr).ids))
        many = isinstance(out, list)
        got = []
        for x in out if many else [out]:
            r = int(x["rid"][1:])
            w = [h for h in self.had if h["r"] == r] or [dict(c=0, i=0)]
            got.append(dict(r=r, k=x["k"], c=w[0]["c"], i=w[0]["i"]))
        return dict(refused=False, many=many, got=got, left=len(Table(self.rr).ids))

    def close(self):
        if self.dir:
            self.stop = True
            self.t.join()
            self.i.close(0)
            self.o.close(0)
            self.ctx.term()
            asyncio.run(self.rr.shutdown())
            shutil.rmtree(os.path.abspath(self.dir))


def blocking(ctx, n, real):
    logging.disable(logging.CRITICAL)
    consts = dict(IdLists={(1,), (2,), (1, 2), (2, 1), (1, 1), (3, 1, 2)}, MaxCalls=2, MaxPieces=1)
    name = "blocking calls" + (", real sockets" if real else "")
    paths = []
    if not real:
        r = tlc.explore("Generate", consts, workers=2)
        ctx.add_model(r)
        paths, _ = cover.edge_cover(r["init"], r["edges"], seed=ctx.seed)
    paths += tlc.simulate("Generate", dict(consts, MaxCalls=6, MaxPieces=2), depth=9, num=n, seed=ctx.seed, stop="n >= MaxCalls")
    report.replay(ctx, name, paths, lambda: Blocking(real))
    ctx.log(f"{name}: {len(paths)} behaviours")


def live(rr):
    return {int(x[1:]) for x in Table(rr).ids}


def schedules(ctx, n, seed, steps):
    logging.disable(logging.CRITICAL)
    logs = []
    for i in range(n):
        ev = []
        try:
            with report.deadline(60):
                asyncio.run(schedule(random.Random(seed * 100003 + i), ev, steps))
        except Exception as x:  # noqa: BLE001
            ctx.violation(f"schedules: {type(x).__name__}: {x}", dict(trace=ev))
            if ctx.too_many():
                return
        logs.append(ev)
    bad, st = tlc.validate("FrontTrace", logs, dict(MaxRid=5, MaxCall=14))
    ctx.cov["states"] += st["states"]
    for i, k in bad:
        ctx.violation(f"schedules: not a behaviour of the front end at {logs[i][k] if k < len(logs[i]) else None}",
                      dict(trace=logs[i][:k + 1]))
    ctx.add_traces(len(logs) - len(bad), [dict(recorded=logs[0][:10])])
    ctx.log(f"schedules: {n} runs, {sum(map(len, logs))} events validated")


def body(ctx):
    n = ctx.pick(60, 800)
    cap = ctx.pick(1500, 40000)
    jobs = [(graph, ("single requests", [[1], [2]], ctx.pick(2, 3), 2, [1, 2], n, cap), {}),
            (graph, ("batches", [[1], [1, 2], [2, 1], [1, 1]], 2, 2, [1, 2], n, cap), {})]
    jobs += [(blocking, (ctx.pick(100, 1000), False), {}), (blocking, (ctx.pick(15, 200), True), {})]
    m = ctx.pick(250, 3000)
    jobs += [(schedules, (m, ctx.seed * 7 + j, 40), {}) for j in range(ctx.pick(2, 4))]
    ctx.parallel(jobs)


if __name__ == "__main__":
    report.main("Q01", body)

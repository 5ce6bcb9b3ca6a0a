"""K01: slot pools hand out slots exclusively.  Specs: SlotPool, SlotTrace."""
import os
import random

import torch

from lib import cover, report, tlc
from pymllm.mem_cache import memory_pool as mp


class Base:
    """Runs SlotPool operations on a pool and records the slots for SlotTrace."""
    unit = 1

    def __init__(self, log):
        self.live = []          # list of lists of slots, grouped by unit
        self.batched = False
        self.log = []
        log.append(self.log)

    def units(self, a):
        u = self.unit
        return [a[i:i + u] for i in range(0, len(a), u)]

    def step(self, op, args):
        ok, got = True, 0
        if op == "alloc":
            r = self.do_alloc(args["n"])
            ok = r is not None
            got = len(r) if ok else 0
            self.log.append(dict(op="alloc", n=args["n"], ok=ok, slots=r or []))
            if ok and r:
                self.live.append(self.units(r))
                self.mark(r)
        elif op == "free":
            a = self.live[args["i"] - 1]
            k = args["k"]
            cut = a[:k] if args["side"] == "front" else a[len(a) - k:]
            rest = a[k:] if args["side"] == "front" else a[:len(a) - k]
            flat = [t for p in cut for t in p]
            self.check_marks()
            if rest:
                self.live[args["i"] - 1] = rest
            else:
                del self.live[args["i"] - 1]
            self.do_free(flat)
            self.log.append(dict(op="free", slots=flat, batched=self.batched))
        elif op == "begin":
            self.do_begin()
            self.batched = True
        elif op == "end":
            self.do_end()
            self.batched = False
            self.log.append(dict(op="flush"))
        elif op == "merge":
            self.do_merge()
        elif op == "clear":
            self.do_clear()
            self.batched = False
            self.live = []
            self.start()
        self.check_marks()
        av = self.avail()
        self.log.append(dict(op="avail", n=av))
        return dict(ok=ok, got=got, avail=av)

    def mark(self, slots):
        pass

    def check_marks(self):
        pass

    def start(self):
        self.log.append(dict(op="init", lo=self.lo, hi=self.hi, unit=self.unit))


class KV(Base):
    def __init__(self, log, cap, ps, sort):
        super().__init__(log)
        size = cap * ps
        self.pool, self.a = mp.make_full_attention_net_mem_pool(
            size, 2, 1, 1, 1, 2, device="cpu", dtype=torch.float32, page_size=ps, need_sort=sort, pin_memory=False)
        self.unit = ps
        self.lo, self.hi = 1, cap
        self.tag = {}
        self.n = self.nf = 0
        self.later = []
        self.start()

    def do_alloc(self, n):
        r = self.a.alloc(n)
        if r is None:
            return None
        assert r.dtype in (torch.int32, torch.int64), r.dtype
        return [int(x) for x in r]

    def do_free(self, s):
        # the tokens of a page come back in any order, and in a batch in several calls
        self.nf += 1
        later = []
        if self.unit > 1 and self.nf % 3:
            first = [t for i, t in enumerate(s) if i % self.unit == 0]
            rest = [t for i, t in enumerate(s) if i % self.unit]
            if self.batched and self.nf % 3 == 1:
                s, later = first, rest
            else:
                s = rest + first
        self.a.free(torch.tensor(s, dtype=torch.int32))
        self.later += later

    def do_begin(self):
        self.a.free_group_begin()

    def do_end(self):
        if self.later:
            self.a.free(torch.tensor(self.later, dtype=torch.int32))
            self.later = []
        self.a.free_group_end()

    def do_merge(self):
        self.a.merge_and_sort_free()

    def do_clear(self):
        self.a.clear()
        self.tag = {}
        self.later = []

    def avail(self):
        return self.a.available_size()

    # contents: a value written for a slot stays until the slot is freed
    def mark(self, slots):
        self.n += 1
        for l in range(2):
            k = torch.tensor([[[float(self.n * 1000 + s + l)]] for s in slots])
            v = torch.tensor([[[float(self.n * 1000 + s + l)] * 2] for s in slots])
            self.pool.set_kv_buffer(l, torch.tensor(slots, dtype=torch.int64), k, v)
        for s in slots:
            self.tag[s] = float(self.n * 1000 + s)

    def check_marks(self):
        for l in range(2):
            k, v = (b.tolist() for b in self.pool.get_kv_buffer(l))
            for a in self.live:
                for p in a:
                    for s in p:
                        assert k[s] == [[self.tag[s] + l]] and v[s] == [[self.tag[s] + l] * 2], \
                            f"KV content of live slot {s} changed"


class Req(Base):
    def __init__(self, log, cap):
        super().__init__(log)
        self.p = mp.make_req_to_token_pool(cap, 4, "cpu")
        self.lo, self.hi = 0, cap - 1
        self.tag = {}
        self.n = 0
        self.start()

    def do_alloc(self, n):
        r = self.p.alloc(n)
        return None if r is None else [int(x) for x in r]

    def do_free(self, s):
        for x in s:
            self.p.free(x)

    def do_clear(self):
        self.p.clear()
        assert int(self.p.req_to_token.abs().sum()) == 0, "table not cleared"

    def avail(self):
        return self.p.available_size()

    def mark(self, slots):
        for s in slots:
            self.n += 1
            self.tag[s] = [self.n * 10 + j for j in range(4)]
            self.p.write((s, slice(0, 2)), torch.tensor(self.tag[s][:2], dtype=torch.int32))
            self.p.write((s, slice(2, 4)), torch.tensor(self.tag[s][2:], dtype=torch.int32))

    def check_marks(self):
        for a in self.live:
            for p in a:
                for s in p:
                    assert self.p.req_to_token[s].tolist() == self.tag[s], f"row of live request slot {s} changed"


class Track(Base):
    """GDN snapshot slots: states copied into a live snapshot slot stay."""

    def __init__(self, log, cap, reqs=2):
        super().__init__(log)
        self.g = mp.GDNPool(reqs, 2, 1, 2, 2, 3, 3, device="cpu", dtype=torch.float32, max_track_slots=cap)
        self.lo, self.hi = reqs + 1, reqs + cap
        self.tag = {}
        self.n = 0
        self.out = 0
        self.cap = cap
        self.start()

    def do_alloc(self, n):
        if n == 0:
            return []
        r = self.g.alloc_track_slot()
        return None if r is None else [int(r)]

    def do_free(self, s):
        for x in s:
            self.g.free_track_slot(x)

    def avail(self):
        # no query in the API: the count of slots that can still be taken
        return self.cap - sum(len(a) for a in self.live)

    def mark(self, slots):
        for s in slots:
            self.n += 1
            w = 1 + self.n % 2                       # a working slot
            self.g.recurrent_state[:, w] = float(self.n)
            self.g.conv_state[:, w] = float(self.n) + 0.5
            self.g.copy_states(w, s)
            self.g.reset_states(torch.tensor([w]))
            self.tag[s] = float(self.n)
            assert float(self.g.recurrent_state[:, w].abs().sum()) == 0
            assert float(self.g.conv_state[:, w].abs().sum()) == 0

    def check_marks(self):
        for a in self.live:
            for p in a:
                for s in p:
                    for l in range(2):
                        r, c = self.g.get_layer_state(l)
                        assert bool((r[s] == self.tag[s]).all()) and bool((c[s] == self.tag[s] + 0.5).all()), \
                            f"state of live snapshot slot {s} changed"


def body(ctx):
    logs = []
    rnd = random.Random(ctx.seed)

    def family(name, consts, make, sims, depth, edge_limit=None):
        r = tlc.explore("SlotPool", consts, invariants=["Conserved", "NoPendOutsideBatch"])
        ctx.add_model(r)
        paths, _ = cover.edge_cover(r["init"], r["edges"], max_len=80, seed=ctx.seed)
        if edge_limit and len(paths) > edge_limit:
            paths = rnd.sample(paths, edge_limit)
        report.replay(ctx, name + " edge cover", paths, make)
        big = dict(consts, **sims)
        tr = tlc.simulate("SlotPool", big, depth=depth, num=ctx.pick(30, 300), seed=ctx.seed)
        report.replay(ctx, name + " simulation", tr, lambda: make(big["Cap"]))

    q = ctx.quick
    for ps in (1, 2, 3):
        for sort in (True, False):
            c = dict(Cap=5 if q else 7, PS=ps, MaxTake=(6 if q else 8) * ps - (ps > 1), MaxLive=4, Batch=True, HasClear=True)
            family(f"KV allocator page={ps} sort={sort}", c,
                   lambda cap=c["Cap"], ps=ps, sort=sort: KV(logs, cap, ps, sort),
                   dict(Cap=23, MaxTake=9 * ps, MaxLive=9), 80)
    c = dict(Cap=4, PS=1, MaxTake=5, MaxLive=4, Batch=False, HasClear=True)
    family("request slots", c, lambda cap=4: Req(logs, cap), dict(Cap=13, MaxTake=4, MaxLive=9), 80)
    c = dict(Cap=4, PS=1, MaxTake=1, MaxLive=4, Batch=False, HasClear=False)
    family("snapshot slots", c, lambda cap=4: Track(logs, cap), dict(Cap=9, MaxTake=1, MaxLive=9), 60)

    # the slots really handed out, against SlotTrace
    logs = [l for l in logs if len(l) > 1]
    if len(logs) > ctx.pick(1500, 20000):
        logs = rnd.sample(logs, ctx.pick(1500, 20000))
    bad, st = tlc.validate("SlotTrace", logs, invariants=["Disjoint"])
    ctx.cov["states"] += st["states"]
    ctx.cov["transitions"] += st["generated"]
    for i, n in bad[:5]:
        ev = logs[i][n] if n < len(logs[i]) else None
        ctx.violation(f"slots handed out break exclusive ownership at {ev}", dict(trace=logs[i][:n + 1]))
    ctx.add_traces(len(logs) - len(bad), [dict(recorded=logs[0][:10])])


if __name__ == "__main__":
    report.main("K01", body)

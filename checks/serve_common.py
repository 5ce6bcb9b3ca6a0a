"""Replaying Serve.tla behaviours; each property judges its own observations.

The first step at which the implementation leaves the behaviour decides: what
follows is a consequence of it.  Properties that are statements about single
observations (R01) or about the end of a run (S04, R02) are judged on them
directly, whatever the schedule was.
"""
import os
import re
import traceback

from harness.py.serve import Serve, tok
from lib import cover, report, tlc

INV = ("OwnContext CacheTrue SameTokens RowsOnlyRunning Disjoint SharedLocked Locks Limits UsedExact "
       "FinishRight NoOverrun SentBound AbortedOut SnapsCached").split()
SIZES = ("kv_free", "evictable", "protected", "slots_free")
F = frozenset()


def kind(p, max=2, stop=F, stream=False):
    return dict(p=tuple(p), max=max, stop=frozenset(stop), stream=stream)


BASE = dict(MaxReq=3, MaxRun=2, MaxPrefill=5, MaxTotal=9, Cap=7, Ctx=6, V=4, Eos={0}, CacheOn=True, Hybrid=False, Rest=True,
            Tracks=2, MaxInbox=2, Aborts=1, P=1)
SMALL = [kind((1,), stream=True), kind((1, 2, 1)), kind((1, 2, 2, 1), 3, stream=True), kind((101, 1), stop={1})]


def conf(pool=SMALL, **kw):
    return dict(BASE, Pool=list(pool), **kw)


def scen(name):
    """Bounded configurations explored completely, and larger ones simulated."""
    B = {
        "shared prefixes": conf(),
        "no cache": conf(CacheOn=False, Cap=6),
        "recurrent model": conf([kind((1, 2)), kind((1, 2, 1, 2), stream=True), kind((1, 2, 1))], Hybrid=True, Tracks=2,
                                Cap=9, MaxTotal=12, MaxPrefill=6),
        "pages of two": conf([kind((1,)), kind((1, 2, 1), stream=True), kind((1, 2, 1, 1), 3), kind((1, 2, 2))], P=2,
                             Cap=8),
        "scarce memory": conf([kind((1, 2), 4), kind((1, 2, 1), 3, stream=True), kind((2, 2, 1, 1, 1)), kind((3,), 5)],
                              Cap=5, MaxRun=3, MaxTotal=20, MaxPrefill=6, Aborts=0),
        "limits": conf([kind(()), kind((1,) * 6), kind((2, 1, 1, 2), 9), kind((3, 3), 0)], MaxPrefill=5, Cap=12),
        "scarce budget": conf([kind((1, 1, 1)), kind((2, 2, 2, 2)), kind((3,), 3)], MaxPrefill=9, MaxTotal=9, Cap=12,
                              Ctx=8, Aborts=0),
        "one slot": conf([kind((1, 2)), kind((1, 2, 1), stream=True)], MaxRun=1, MaxReq=4, Cap=6),
    }
    rnd = []
    import random
    g = random.Random(5)
    for _ in range(14):
        n = g.randint(1, 9)
        rnd.append(kind([g.randint(1, 2) if g.random() < .8 else g.randint(0, 3) for _ in range(n)], g.randint(1, 7),
                        {g.randint(1, 6)} if g.random() < .4 else F, g.random() < .5))
    rnd += [kind((1, 2, 1, 2, 1, 2, 1, 1), 4), kind((1, 2, 1, 2, 1, 2), 3, stream=True), kind((1, 2, 1, 2, 1, 2, 1, 1, 2), 5)]
    img = [kind((101, 1, 2), 3), kind((102, 1, 2), 3, stream=True), kind((1, 101, 102, 2), 2)]
    L = dict(MaxReq=14, MaxRun=4, MaxPrefill=12, MaxTotal=40, Cap=36, Ctx=16, V=7, Eos={0}, CacheOn=True, Hybrid=False, Rest=True,
             Tracks=3, MaxInbox=4, Aborts=4, P=1)
    S = {
        "mixed load": dict(L, Pool=rnd + img),
        "mixed load, little memory": dict(L, Pool=rnd + img, Cap=17, MaxRun=5, MaxTotal=60),
        "mixed load, no cache": dict(L, Pool=rnd + img, CacheOn=False, Cap=24),
        "mixed load, recurrent": dict(L, Pool=rnd + img, Hybrid=True, Cap=50, MaxTotal=60),
        "mixed load, recurrent, little memory": dict(L, Pool=rnd, Hybrid=True, Cap=22, Tracks=2),
        "mixed load, pages": dict(L, Pool=rnd + img, P=2, Cap=24),
        "mixed load, pages of three": dict(L, Pool=rnd, P=3, Cap=30),
        "tight budget": dict(L, Pool=rnd, MaxPrefill=17, MaxTotal=17, MaxRun=5, MaxInbox=6),
        "long prompts": dict(L, Pool=[kind((i, j), 1) for i in range(1, 6) for j in range(3)] +
                             [kind((6,) * 14, 2), kind((5, 5, 6, 6) * 3, 2), kind((1, 2) * 7, 1)] * 2, MaxPrefill=20,
                             MaxTotal=60, Cap=20, MaxRun=2, MaxInbox=1, Aborts=0, MaxReq=18),
        "tight limits": dict(L, Pool=rnd, MaxPrefill=7, MaxTotal=14, MaxRun=3, Ctx=9),
    }
    return B.get(name) or S[name]


def prefixes(q):
    return [list(q[:i + 1]) for i in range(len(q))]


class Run:
    """One behaviour driven through the implementation."""

    def __init__(self, cfg, tr, make=Serve):
        self.cfg, self.tr = cfg, tr
        self.reqs, self.outs, self.aborted, self.fins, self.box = {}, {}, set(), {}, []
        self.facts = []        # (property, what) judged on single observations
        self.first = None      # first divergence: (step, keys, want, got, touches)
        self.sched = None      # first one in what is run or answered
        self.error = None
        self.n = 0
        try:
            with report.deadline(30):
                self.ad = make(cfg)
                self.go()
        except report.Hang as e:
            self.error = f"the serving loop hangs: {e}"
        except Exception as e:  # noqa: BLE001
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.error = f"the serving loop ended with {type(e).__name__}: {e}"

    def note(self, op, a):
        if op == "submit":
            self.reqs[a["r"]] = dict(a)
            self.outs[a["r"]] = []
        if op in ("submit", "abort"):
            self.box.append((op, a["r"]))

    def observe(self, obs):
        """Facts about one iteration that need no knowledge of the schedule."""
        gone = {r for op, r in self.box if op == "abort" and r in self.reqs}
        self.aborted |= gone
        self.box = []
        for e in obs["seen"]:
            r = e["r"]
            ids = list(self.reqs[r]["p"]) + self.outs[r]
            if e["ctx"] != prefixes(ids):
                self.facts.append(("R01", f"request {r} computes from {e['ctx']}, its own tokens are {ids}"))
            if r in self.aborted:
                self.facts.append(("S03", f"aborted request {r} is run"))
            self.outs[r].append(tok(ids, self.cfg["V"]))
        for m in obs["msgs"]:
            r = m["r"]
            if m["all"] != self.outs[r]:
                self.facts.append(("R01", f"request {r} is answered with {m['all']} instead of {self.outs[r]}"))
            if r in self.aborted:
                self.facts.append(("S03", f"result for aborted request {r}: {m}"))
            if m["fin"]:
                self.fins.setdefault(r, []).append(m["fin"])
                if len(self.fins[r]) > 1:
                    self.facts.append(("S02", f"request {r} finishes twice"))
            elif r in self.fins:
                self.facts.append(("S02", f"request {r}: output after its final result"))
        return gone

    def go(self):
        for i, act in enumerate(self.tr):
            op, a, want = act["op"], act["args"], report.norm(act["res"])
            self.n = i + 1
            got = report.norm(self.ad.step(op, a))
            self.note(op, a)
            if op != "iterate":
                continue
            gone = self.observe(got)
            if self.sched is None:
                bad = [k for k in want if got.get(k) != want[k] and not (k == "used" and got.get(k) is None)]
                if bad:
                    if set(bad) & {"batch", "msgs", "seen"}:
                        self.sched = (i, want, got)
                if bad and self.first is None:
                    named = {m["r"] for m in got["msgs"]} | set(got["batch"]["rids"])
                    self.first = (i, bad, want, got, bool(gone) or bool(named & self.aborted))
        # let it finish
        for n in range(300):
            got = report.norm(self.ad.step("iterate", {}))
            self.observe(got)
            if got["idle"] and got["batch"]["mode"] == "none":
                break
        else:
            self.facts.append(("S04", "requests are still being worked on after 300 further iterations"))
        for r in self.reqs:
            if r not in self.aborted and len(self.fins.get(r, [])) != 1:
                self.facts.append(("S04", f"request {r} got {len(self.fins.get(r, []))} final results"))
        if got["protected"] or got["kv_free"] + got["evictable"] != self.cfg["Cap"] or got["slots_free"] != self.cfg["MaxRun"]:
            self.facts.append(("R02", f"memory is not back when all requests are gone: {({k: got[k] for k in SIZES})}"))
        if got["used"]:
            self.facts.append(("S01", f"token budget not returned: {got['used']}"))

    def verdict(self, pid):
        for p, what in self.facts:
            if p == pid:
                return what
        if self.error and pid != "S03":
            return self.error
        if self.error and self.aborted:
            return self.error
        if not self.first:
            return None
        if pid == "S04" and self.sched:
            i, want, got = self.sched
            early = {m["r"] for m in got["msgs"] if m["fin"] == "abort"} - {m["r"] for m in want["msgs"]}
            if early:
                return f"step {i}: requests {sorted(early)} are ended although they can be served"
        i, bad, want, got, touches = self.first
        b = set(bad)

        def say(k):
            return f"step {i}: {k} expected {want[k]} got {got[k]}"

        def strip(v, ks):
            return [{k: e[k] for k in ks} for e in v]
        if pid == "S01":
            for k in ("batch", "used"):
                if k in b and not ("seen" in b and k == "used"):
                    return say(k)
        same_batch = "batch" not in b
        if pid == "R02" and same_batch and "msgs" not in b:
            for k in SIZES:
                if k in b:
                    return say(k)
        if pid == "S02" and same_batch:
            if strip(want["seen"], ("r", "ctx")) == strip(got["seen"], ("r", "ctx")):
                for k in ("seen", "msgs"):
                    if k in b:
                        return say(k)
        if pid == "S03" and touches:
            return say(bad[0])
        if pid == "R03" and self.cfg["Hybrid"] and same_batch:
            for k in ("seen", "hits", "snaps"):
                if k in b:
                    return say(k)
        return None


def replay(ctx, name, cfg, traces, make=Serve):
    ok, seen = 0, set()
    for tr in traces:
        r = Run(cfg, tr, make)
        ctx.count("implementation_steps", r.n)
        v = r.verdict(ctx.pid)
        if v is None:
            ok += 1
            continue
        s = re.sub(r"\d+", "N", v)[:60]
        if s not in seen:
            seen.add(s)
            ctx.violation(f"{name}: {v}", dict(where=name, config=cfg, trace=tr[:r.n], verdict=v))
            if len(seen) >= 3:
                break
    ctx.add_traces(ok, [dict(check=name, behaviour=[[a["op"], a["args"], a["res"]] for a in tr[:10]]) for tr in traces[:1]])


def liveness(ctx, name, **kw):
    """Every request is eventually answered or has been aborted, if the scheduler keeps running."""
    cfg = dict(scen(name), **kw)
    r = tlc.explore("Serve", cfg, view="View", invariants=INV, fairness_spec="Fair", properties=["Served"], edges=False)
    ctx.add_model(r)
    ctx.log(f"{name}: every request is served ({r['states']} states)")


def explore(ctx, name, only=None, make=Serve, **kw):
    cfg = dict(scen(name), **kw)
    r = tlc.explore("Serve", cfg, view="View", invariants=INV, workers=4)
    ctx.add_model(r)
    paths, cov = cover.edge_cover(r["init"], r["edges"], max_len=40, seed=ctx.seed, limit=ctx.pick(2500, None))
    ctx.log(f"{name}: {r['states']} states, {cov}/{len(r['edges'])} transitions in {len(paths)} paths")
    ctx.count("transitions_replayed", cov)
    if only:
        paths = [p for p in paths if any(a["op"] == only for a in p)]
    replay(ctx, name, cfg, paths, make)


def simulate(ctx, name, num, depth=60, make=Serve, only=None, **kw):
    cfg = dict(scen(name), **kw)
    tr = tlc.simulate("Serve", cfg, depth=depth, num=num, seed=ctx.seed, procs=3,
                      invariants=ctx.pick(("OwnContext", "UsedExact"), INV), next_="SimNext",
                      stop="N(s) = MaxReq /\\ s.inbox = <<>> /\\ Live(s) = {}")
    if only:
        tr = [t for t in tr if any(a["op"] == only for a in t)]
    ctx.log(f"{name}: {len(tr)} simulated behaviours")
    replay(ctx, name, cfg, tr, make)

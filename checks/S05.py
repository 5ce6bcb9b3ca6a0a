"""S05: sampled tokens come from the request's own filtered distribution.  Spec: Sampling."""
import collections
import math
import random

import torch

from harness.py.serve import Serve
from lib import report, tlc

LN2 = math.log(2)


def kind(p, l, half=2, k=-1, tp=100, rep=1, freq=0, pres=0):
    return dict(p=tuple(p), l=tuple(l), half=half, k=k, tp=tp, rep=rep, freq=freq, pres=pres)


def params(r):
    return dict(temperature=r["half"] / 2, top_k=r["k"], top_p=r["tp"] / 100, repetition_penalty=float(r["rep"]),
                frequency_penalty=r["freq"] * LN2, presence_penalty=r["pres"] * LN2)


class Sampler(Serve):
    """Requests of several kinds side by side; the first prompt token names the kind."""

    def __init__(self, kinds, copies, out):
        n = len(kinds) * copies
        self.kinds, self.copies, self.out = kinds, copies, out
        super().__init__(dict(MaxRun=n, MaxPrefill=100 * n, MaxTotal=100 * n, Cap=20 * n, Ctx=40,
                              V=len(kinds[0]["l"]), Eos=set(), CacheOn=False, Hybrid=False, Tracks=1, P=1))
        net = self.runner.model
        table = torch.tensor([[x * LN2 for x in r["l"]] for r in kinds])
        plain = net.forward

        def forward(ids, pos, fb):
            out = plain(ids, pos, fb)
            ext = fb.forward_mode.is_extend()
            rows = (torch.cumsum(fb.extend_seq_lens, 0) - 1).tolist() if ext else range(len(net.seen))
            for row, ctx in zip(rows, net.seen):
                out[row] = table[ctx[0][0]]
            return out
        net.forward = forward

    def run(self):
        rid = 0
        kinds = {}
        for c in range(self.copies):
            for i, r in enumerate(self.kinds):
                rid += 1
                kinds[rid] = i
                raw = dict(rid=f"r{rid}", stream=False, input_ids=list(r["p"]),
                           sampling_params=dict(params(r), max_new_tokens=self.out))
                self.raw.append(raw)
        outs = {}
        while True:
            self.sent, self.idle, self.ran, self.drained = [], False, None, False
            self.seen, self.hits = [], []
            self.tokenize()
            try:
                self.s.event_loop()
            except BaseException as e:  # noqa: BLE001
                if type(e).__name__ != "Pause":
                    raise
            for m in self.sent:
                outs[self.num(m["rids"][0])] = m["output_ids"]
            if self.idle:
                return [(kinds[r], o) for r, o in outs.items()]


def check(ctx, name, kinds, copies, out):
    r = tlc.explore("Sampling", dict(Kinds=kinds, MaxOut=out), view="vars", workers=4,
                    invariants=["Some", "TopKBound", "BestAlways", "Mass"])
    ctx.add_model(r)
    prob = {}
    for _, _, a in r["edges"]:
        x = a["args"]
        prob.setdefault((x["kind"] - 1, tuple(x["before"])), {})[x["token"]] = a["res"]["weight"] / a["res"]["total"]
    # a token of negligible weight is in the support only for the specification's rounding
    torch.manual_seed(ctx.seed)
    seen = collections.defaultdict(collections.Counter)
    with report.deadline(200):
        runs = Sampler(kinds, copies, out).run()
    if len(runs) != copies * len(kinds):
        ctx.violation(f"{name}: {len(runs)} answers to {copies * len(kinds)} requests", dict(kinds=kinds))
    for k, toks in runs:
        for i, t in enumerate(toks):
            st = (k, tuple(toks[:i]))
            ctx.count("tokens_drawn")
            if t not in prob.get(st, {}):
                ctx.violation(f"{name}: token {t} after {toks[:i]} is outside the support of {kinds[k]}",
                              dict(kind=kinds[k], tokens=toks, support=prob.get(st)))
                return
            seen[st][t] += 1
    used = 0
    for st, c in seen.items():
        n = sum(c.values())
        if n < 60:
            continue
        used += 1
        for t, p in prob[st].items():
            tol = 6.5 * math.sqrt(p * (1 - p) / n) + 4 / n
            if abs(c[t] / n - p) > tol:
                ctx.violation(f"{name}: token {t} drawn {c[t]} of {n} times, probability {p:.4f}",
                              dict(kind=kinds[st[0]], after=st[1], counts=dict(c), expected=prob[st]))
                return
    ctx.add_traces(len(runs), [dict(check=name, kinds=kinds[:2], outputs=runs[:3])])
    ctx.log(f"{name}: {r['states']} states, {len(runs)} runs, {used} distributions compared")


L1 = (6, 4, 3, 2, 1, 0, -1, -2)
MIX = [kind((0,), L1), kind((1, 1), L1, k=2), kind((2,), L1[::-1], tp=60), kind((3, 0), L1, k=4, tp=80),
       kind((4,), (0, 2, 8, 4, 3, 1, 7, 6), half=0), kind((5,), L1, half=1, k=0), kind((6, 0, 0), L1, pres=1, freq=1),
       kind((7, 0, 1), (8, 6, 4, 2, -1, -2, -3, 0), rep=2)]
ALL_GREEDY = [kind((i, (i + 1) % 8), L1[i:] + L1[:i], half=0, k=1 + i, tp=50) for i in range(6)] + \
    [kind((6, 6), (8, 7, 6, 5, 4, 3, 8 + 8, 0), half=0, rep=2), kind((7, 2, 2), (0, 1, 9, 8, 7, 3, 2, 1), half=0, freq=2)]
ONE_FILTER = [kind((i,), L1, k=(8, 100, 1, 3, -1, 0, 7, 5)[i]) for i in range(8)]


def rnd(g):
    out = []
    for i in range(8):
        l = g.sample(range(0, 10), 8)
        half = g.choice((0, 1, 2, 2, 4))
        rep = g.choice((1, 1, 2))
        if half == 4 or rep == 2:
            l = [2 * x for x in l]
        if half == 4:
            rep = 1
        if half == 4 or half == 1:
            l = [x // 2 * 2 for x in g.sample(range(0, 16), 8)]
        f = g.choice((0, 0, 1, 2)) * (2 if half == 4 else 1)
        out.append(kind((i,) + tuple(g.randrange(8) for _ in range(g.randrange(3))), l, half=half,
                        k=g.choice((-1, 0, 1, 2, 3, 8, 50)), tp=g.choice((100, 100, 90, 70, 35, 1)), rep=rep, freq=f,
                        pres=g.choice((0, 0, 2))))
    return out


def body(ctx):
    n = ctx.pick(150, 600)
    g = random.Random(ctx.seed)
    jobs = [(check, ("mixed parameters", MIX, n, 2), {}), (check, ("all greedy", ALL_GREEDY, 10, 3), {}),
            (check, ("top-k only", ONE_FILTER, n, 2), {}), (check, ("alone", MIX[:1], n, 2), {})]
    jobs += [(check, (f"random parameters {i}", rnd(g), n, 2), {}) for i in range(ctx.pick(4, 40))]
    ctx.parallel(jobs)
    ctx.assumptions.append("PyTorch sampling path (the FlashInfer kernels need a GPU); frequencies are compared with a 6.5 sigma tolerance")


if __name__ == "__main__":
    report.main("S05", body)

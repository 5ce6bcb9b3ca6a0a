"""Runs the real memory manager and records what it hands out (see harness/cpp/buddy.cpp)."""
import math

from lib import cxx, report, tlc

SRC = ["mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/backends/base/Allocator.cpp",
       "mllm/core/DeviceTypes.cpp", "mllm/core/DataTypes.cpp", "mllm/utils/Log.cpp"]


def build(sched=False):
    return cxx.build("buddy" + ("_sched" if sched else ""), ["buddy.cpp"], SRC, sched=sched)


def conf(c, kind):
    """kind: 0 no pool, 1 manager with a pool, 2 the pool alone."""
    min_order = int(math.log2(c["unit"]))
    thr = c["threshold"] if kind == 1 else 1 << 30
    return f"{c['first'] + min_order} {min_order} {thr} {kind} {len(c['listed'])} " + " ".join(map(str, sorted(c["listed"])))


def header(c, kind, loose=False):
    return dict(op="new", unit=c["unit"], first=c["first"], threshold=0 if kind == 0 else c["threshold"] if kind == 1 else 1 << 30,
                listed=sorted(c["listed"]), loose=loose)


def orders(segs):
    return [int(math.log2(n)) if n & (n - 1) == 0 and n else -1 for n in segs]


def record(d, c, kind, script):
    """script: [(op, args)]; afterwards everything is returned and the whole capacity asked for again."""
    log = [header(c, kind)]
    d.ask("new " + conf(c, kind))
    live, state = {}, None

    def do(op, a):
        nonlocal state
        line = {"alloc": lambda: f"alloc {a['h']} {a['n']}", "free": lambda: f"free {a['h']}",
                "list": lambda: "list " + " ".join(map(str, a["l"]))}[op]()
        r = d.ask(line)
        log.append(dict(op=op, **a, **r, segs_units=r["segs"]) | dict(segs=orders(r["segs"]) if kind else [c["first"]]))
        if op == "alloc":
            live[a["h"]] = a["n"]
        if op == "free":
            live.pop(a["h"])
        state = log[-1]["segs"]
    try:
        for op, a in script:
            do(op, a)
        for h in sorted(live, key=lambda h: (h * 7) % 5):
            do("free", dict(h=h))
        if kind == 2:
            do("list", dict(l=[]))
        if kind and not (kind == 1 and c["listed"]):
            h = 100
            for o in (state or []) * 2:
                n = c["unit"] << o
                if kind == 2 or n < c["threshold"]:
                    h += 1
                    do("alloc", dict(h=h, n=n))
                    if h == 100 + len(state):
                        for x in list(live):
                            do("free", dict(h=x))
        r = d.ask("drop")
        if kind and r["freed"] != r["segs"]:
            log.append(dict(op="segments not returned", h=0, n=0, spoilt=[], segs=[]))
    except cxx.Died as e:
        log.append(dict(op="died", what=str(e), h=0, n=0, spoilt=[], segs=[]))
    return log


def threads(d, c, kind, seed, scripts, after):
    r = d.ask(f"{seed} | {conf(c, kind)} | {after} | " + " | ".join(scripts))
    log = [header(c, kind, True)]
    for e in r.get("log", []):
        if e[0] == "alloc":
            log.append(dict(op="alloc", h=e[1], n=e[2], seg=e[3]["seg"], off=e[3]["off"], segs=orders(e[4]), spoilt=[]))
        elif e[0] == "free":
            log.append(dict(op="free", h=e[1], segs=log[-1].get("segs", []), spoilt=[] if e[2] else [e[1]]))
        else:
            segs = max((x["segs"] for x in log if x.get("segs")), key=len, default=[c["first"]])
            log.append(dict(op="quiet", segs=segs, spoilt=[]))
    if r.get("stuck") or "died" in r:
        log.append(dict(op="stuck" if r.get("stuck") else "died", what=str(r.get("stuck") or r.get("died")), spoilt=[], segs=[]))
    return log


def judge(ctx, name, logs, loose=False):
    bad, st = tlc.validate("BuddyTrace", logs, dict(Cfg=tlc.Rec(dict(unit=64, first=1, threshold=0, listed=frozenset())), Sizes={1}, Lists=frozenset(), MaxLive=1, MaxSegs=1),
                           invariants=["NoOverlapGiven"] if loose else ["NoOverlap", "NothingLost", "Merged", "AllBack"])
    ctx.count("implementation_steps", sum(map(len, logs)))
    for i, k in bad[:3]:
        e = logs[i][k] if k < len(logs[i]) else logs[i][-1]
        ctx.violation(f"{name}: {e}"[:500], dict(where=name, trace=logs[i][:k + 1]))
    ctx.add_traces(len(logs) - len(bad), [dict(check=name, log=logs[0][:6])] if logs else None)
    ctx.log(f"{name}: {len(logs)} runs, {sum(map(len, logs))} operations")

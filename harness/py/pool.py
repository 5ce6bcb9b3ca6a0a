"""Runs scripts on the real thread pool under the seeded scheduler (see harness/cpp/pool.cpp)."""
from lib import cxx, tlc


def build():
    return cxx.build("pool", ["pool.cpp"], ["mllm/engine/HpcThreadPool.cpp", "mllm/utils/Log.cpp"], sched=True)


def record(d, seed, threads, scripts):
    r = d.ask(f"{seed} {threads} | " + " | ".join(scripts))
    log = [dict(op="new", threads=threads, scripts=scripts, seed=seed)]
    for e in r.get("log", []):
        k = e[0]
        log.append(dict(op="push", id=e[1], a=e[2], b=e[3], c=e[4]) if k == "push" else dict(op=k, id=e[1], i=e[2]) if k in ("run", "end") else
                   dict(op="done", id=e[1]) if k == "done" else dict(op="op", x=e[1]) if k == "op" else dict(op=k))
    if r.get("stuck") or "died" in r:
        log.append(dict(op="stuck" if r.get("stuck") else "died", what=str(r.get("stuck") or r["died"])))
    elif log[-1]["op"] != "destroyed":
        log.append(dict(op="unfinished"))
    return log


def some(runs, most=4):
    """Stops early when run after run ends badly."""
    logs, n = [], 0
    for x in runs:
        logs.append(x)
        n += x[-1]["op"] in ("stuck", "died")
        if n >= most:
            break
    return logs


def judge(ctx, name, logs):
    bad, _ = tlc.validate("LoopTrace", [x[1:] for x in logs])
    ctx.count("implementation_steps", sum(map(len, logs)))
    for i, k in bad[:3]:
        h = logs[i][0]
        e = logs[i][min(k + 1, len(logs[i]) - 1)]
        ctx.violation(f"{name}: {h['threads']} threads, {h['scripts']}: {e}"[:500], dict(where=name, head=h, trace=logs[i][:k + 2][-60:]))
    ctx.add_traces(len(logs) - len(bad), [dict(check=name, log=logs[0][:8])] if logs else None)
    ctx.log(f"{name}: {len(logs)} runs, {sum(map(len, logs))} events")

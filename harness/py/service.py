"""Runs scripts on the real service under the seeded scheduler (see harness/cpp/service.cpp)."""
from lib import cxx, tlc

DIR = "mllm/engine/service/"


def build():
    return cxx.build("service", ["service.cpp"], [DIR + "Service.cpp", DIR + "Session.cpp", "mllm/utils/Log.cpp"], sched=True)


def answer(text, finished, error=False):
    return dict(text=text, finished=finished, error=error)


def plan(w):
    """What a request is answered with.  w: <id>:<kind>:<n>:<tag>:<fail>:<odd>"""
    _, kind, n, tag, fail, odd = w.split(":")
    n, fail, odd = int(n), int(fail), int(odd)
    err = answer("", True, True)
    if kind == "none":
        return [answer(str(i), False) for i in range(10)] + [answer("", True)]
    if kind not in ("m", "k", "b"):
        return [err]
    out = []
    for i in range(n):
        if i == fail or i == odd:
            return out + [err]
        if i + 100 == odd:
            out.append(answer("", False))
        out.append(answer(tag + str(i) + ("\ufffd" if kind == "b" else ""), False))
    return out + [err if fail == n else answer("", True)]


def ids(script):
    return {w[1:] for w in script.split() if w[0] in "gG"}


def record(d, seed, workers, scripts, complete):
    r = d.ask(f"{seed} {workers} | " + " | ".join(scripts))
    readers = [x for s in scripts for x in ids(s)]
    models = {w[1:].split(":")[0]: w.split(":")[1] for s in scripts for w in s.split() if w[0] == "s"}
    log = [dict(op="new", shared=sorted({x for x in readers if readers.count(x) > 1}), complete=complete, scripts=scripts, workers=workers, seed=seed, id="-")]
    for e in r.get("log", []):
        k = e[0]
        if k == "send":
            log.append(dict(op=k, id=e[1].split(":")[0], plan=plan(e[1])))
        elif k == "sent":
            log.append(dict(op=k, id=e[1], ret=e[2]))
        elif k == "malformed":
            log.append(dict(op=k, ret=e[1], id="-"))
        elif k == "got":
            a = e[3]
            if isinstance(a, list):
                log.append(dict(op="unreadable", id=e[1], a=a))
            elif a == dict(finished=False, error=False, id=""):
                log.append(dict(op="got", id=e[1], none=True, c=e[2]))
            else:
                want = dict(id=e[1]) if a.get("error") else dict(id=e[1], count=1, reason="stop" if a["finished"] else "-",
                                                               model="<none>" if models.get(e[1]) == "none" else models.get(e[1]))
                ok = all(a.get(x) == y for x, y in want.items())
                log.append(dict(op="got" if ok else "wrong", id=e[1], none=False, a=answer(a.get("text", ""), a["finished"], a["error"]), raw=a))
        else:
            log.append(dict(op=k, id=e[1] if len(e) > 1 and k != "session" else "-", c=e[2] if k == "ask" else 0))
    if r.get("stuck") or "died" in r:
        log.append(dict(op="stuck" if r.get("stuck") else "died", what=str(r.get("stuck") or r["died"]), id="-"))
    elif log[-1]["op"] != "end":
        log.append(dict(op="unfinished", id="-"))
    return log


def judge(ctx, name, logs):
    bad, _ = tlc.validate("AnswerTrace", [[{k: v for k, v in e.items() if k != "raw"} for e in x] for x in logs])
    ctx.count("implementation_steps", sum(map(len, logs)))
    for i, k in bad[:3]:
        h = logs[i][0]
        e = logs[i][min(k, len(logs[i]) - 1)]
        ctx.violation(f"{name}: {h['workers']} workers, {h['scripts']}: {e}"[:600], dict(where=name, trace=logs[i][:k + 1][-80:]))
    ctx.add_traces(len(logs) - len(bad), [dict(check=name, log=logs[0][:8])] if logs else None)
    ctx.log(f"{name}: {len(logs)} runs, {sum(map(len, logs))} events")

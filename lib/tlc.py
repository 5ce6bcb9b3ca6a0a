"""Driving TLC: exhaustive exploration, behaviour generation, trace validation.

Every specification module in /verif/specs keeps one bookkeeping variable `act`
that describes the last step: [op |-> name, args |-> record, res |-> record],
where `res` is what the specification says the implementation must show.

explore()   model-checks a specification (all its invariants) breadth first and
            returns the complete labelled transition graph;
simulate()  returns random behaviours of the specification (long ones);
validate()  checks traces recorded from the implementation against it.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC failed, or a specification violates its own invariants."""


def to_tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(to_tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(to_tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            raise ValueError("empty record")
        if all(isinstance(k, str) and re.fullmatch(r"[A-Za-z_]\w*", k) for k in v):
            return "[" + ", ".join(f"{k} |-> {to_tla(x)}" for k, x in v.items()) + "]"
        return "(" + " @@ ".join(f"{to_tla(k)} :> {to_tla(x)}" for k, x in v.items()) + ")"
    if isinstance(v, Raw):
        return v.text
    raise ValueError(f"cannot render {v!r}")


class Rec(dict):
    """A record that can be an element of a set."""

    def __hash__(self):
        return hash(json.dumps(self, sort_keys=True, default=str))


class Raw:
    def __init__(self, text):
        self.text = text


def _workdir(name):
    base = os.path.join(VERIF, ".build", "tlc")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + "-", dir=base)


def _java(workdir, module, extra, timeout, heap="6g", workers=8, gc="-XX:+UseParallelGC -XX:ParallelGCThreads=4"):
    cmd = ["java", *gc.split(), f"-Xmx{heap}", "-Xss64m",
           f"-DTLA-Library={SPECS}", "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(workdir, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers), "-config", module + ".cfg"] + extra + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=workdir, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    return p


def _mc_module(spec, constants, body):
    lines = ["---- MODULE MC ----", f"EXTENDS {spec}, TLC, TLCExt, Json, IOUtils"]
    cfg = []
    for k, v in (constants or {}).items():
        lines.append(f"mc_{k} == {to_tla(v)}")
        cfg.append(f"CONSTANT {k} <- mc_{k}")
    lines.append(body)
    lines.append("====")
    return "\n".join(lines) + "\n", cfg


def _write(workdir, text, cfg):
    with open(os.path.join(workdir, "MC.tla"), "w") as f:
        f.write(text)
    with open(os.path.join(workdir, "MC.cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def _run(workdir, extra, timeout, workers=8, heap="6g", gc="-XX:+UseParallelGC -XX:ParallelGCThreads=4", want=("EDGE ", "INIT ", "TRACE ")):
    p = _java(workdir, "MC", extra, timeout, heap=heap, workers=workers, gc=gc)
    out, log = [], []
    import threading
    killed = []

    def kill():
        killed.append(1)
        p.kill()
    t = threading.Timer(timeout, kill)
    t.start()
    pref = tuple('"' + w for w in want)
    try:
        for line in p.stdout:
            if line.startswith(pref):
                out.append(line)
            else:
                log.append(line)
                if len(log) > 6000:
                    del log[1000:3000]
        p.wait()
    finally:
        t.cancel()
        if p.poll() is None:
            p.kill()
    if killed:
        raise TLCError(f"TLC ran out of time ({timeout}s) in {workdir}\n" + "".join(log[-30:]))
    return p.returncode, out, "".join(log)


def _unq(line):
    return json.loads(line.strip())


def explore(spec, constants=None, invariants=(), properties=(), constraint=None, view="vars",
            init="Init", next_="Next", edges=True, timeout=600, workers=8, deadlock=False, extra_body="",
            fairness_spec=None, heap="6g"):
    """Exhaustive BFS.  Returns dict(states, transitions, depth, init=[fp], edges=[(a,b,act)])."""
    wd = _workdir("explore")
    fp = f'ToString(TLCFP({view})) \\o "/" \\o ToString(TLCFP(<<{view}, 7>>))'
    fpn = f'ToString(TLCFP(({view})\')) \\o "/" \\o ToString(TLCFP((<<{view}, 7>>)\'))'
    body = extra_body + "\n"
    if edges:
        body += f'mcEdge == PrintT("EDGE " \\o {fp} \\o " " \\o {fpn} \\o " " \\o ToJson(act\'))\n'
        body += f'mcInit == IF TLCGet("level") = 1 THEN PrintT("INIT " \\o {fp}) ELSE TRUE\n'
    body += f"mcView == {view}\n"
    text, cfg = _mc_module(spec, constants, body)
    if fairness_spec:
        cfg += [f"SPECIFICATION {fairness_spec}"]
    else:
        cfg += [f"INIT {init}", f"NEXT {next_}", "VIEW mcView"]
    if edges:
        cfg += ["ACTION_CONSTRAINT mcEdge", "INVARIANT mcInit"]
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    for i in properties:
        cfg.append(f"PROPERTY {i}")
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    _write(wd, text, cfg)
    rc, out, log = _run(wd, [], timeout, workers=workers, heap=heap)
    if rc != 0 or "No error has been found" not in log:
        raise TLCError(f"TLC exit {rc} on {spec} (workdir {wd})\n" + log[-6000:])
    m = _STATS.search(log)
    d = re.search(r"depth of the complete state graph search is (\d+)", log)
    res = dict(generated=int(m.group(1)), states=int(m.group(2)), depth=int(d.group(1)) if d else 0)
    seen, es, inits = set(), [], []
    for line in out:
        s = _unq(line)
        if s.startswith("EDGE "):
            _, a, b, js = s.split(" ", 3)
            key = (a, b, js)
            if key not in seen:
                seen.add(key)
                es.append((a, b, json.loads(js)))
        elif s.startswith("INIT "):
            x = s[5:]
            if x not in inits:
                inits.append(x)
    res["init"] = inits
    # TLC's worker interleaving decides the printing order: sort for determinism
    es.sort(key=lambda e: (e[0], json.dumps(e[2], sort_keys=True), e[1]))
    res["edges"] = es
    res["transitions"] = len(es) if edges else res["generated"]
    shutil.rmtree(wd, ignore_errors=True)
    return res


def simulate(spec, constants=None, depth=30, num=100, seed=1, init="Init", next_="Next",
             timeout=600, invariants=(), constraint=None, extra_body="", stop="FALSE", procs=1):
    """Random behaviours; returns a list of lists of act records (init excluded)."""
    if procs > 1:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(simulate, spec, constants, depth, (num + procs - 1) // procs, seed * 1000 + i,
                            init, next_, timeout, invariants, constraint, extra_body, stop, 1)
                  for i in range(procs)]
            out = []
            for f in fs:
                out += f.result()
            return out
    wd = _workdir("sim")
    body = extra_body + f"""
VARIABLE hist
simInit == {init} /\\ hist = <<>>
simNext == IF Len(hist) >= {depth} \\/ ({stop})
           THEN PrintT("TRACE " \\o ToJson(hist)) /\\ FALSE
           ELSE {next_} /\\ hist' = Append(hist, act')
"""
    text, cfg = _mc_module(spec, constants, body)
    cfg += ["INIT simInit", "NEXT simNext", "CHECK_DEADLOCK FALSE"]
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    _write(wd, text, cfg)
    rc, out, log = _run(wd, ["-simulate", f"num={num}", "-depth", str(depth + 5), "-seed", str(seed)],
                        timeout, workers=1, heap="3g", gc="-XX:+UseSerialGC")
    if rc != 0 or "Error:" in log:
        raise TLCError(f"TLC simulate exit {rc} on {spec} (workdir {wd})\n" + log[-6000:])
    traces, seen = [], set()
    for line in out:
        s = _unq(line)
        if s.startswith("TRACE ") and s not in seen:
            seen.add(s)
            traces.append(json.loads(s[6:]))
    shutil.rmtree(wd, ignore_errors=True)
    return traces


def validate(spec, traces, constants=None, trace_next="TraceNext", trace_init="TraceInit", timeout=600,
             workers=8, invariants=(), extra_body="", heap="8g", nondet=True):
    """Trace validation.

    `traces` is a list of lists of event records.  The specification module must
    define TraceInit and TraceNext over its own variables plus `tr` (trace number)
    and `ix` (next event), reading the constant operator Traces.  A trace is
    accepted when some behaviour consumes all of it.  Returns the list of
    (trace index, longest matched prefix) of the rejected traces and statistics.
    """
    wd = _workdir("trace")
    with open(os.path.join(wd, "traces.ndjson"), "w") as f:
        for t in traces:
            f.write(json.dumps({"ev": t}) + "\n")
    body = extra_body + """
mcNum == Len(Traces)
mcInit0 == """ + trace_init + """ /\\ TLCSet(tr, 1)
mcMark == (IF TLCGet(tr) < ix THEN TLCSet(tr, ix) ELSE TRUE)
mcPost == \\A i \\in 1..mcNum : PrintT("TRACE " \\o ToString(i) \\o " " \\o ToString(TLCGet(i)))
"""
    text, cfg = _mc_module(spec, constants, body)
    cfg += ["INIT mcInit0", "NEXT " + trace_next, "INVARIANT mcMark", "POSTCONDITION mcPost", "CHECK_DEADLOCK FALSE"]
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    _write(wd, text, cfg)
    env_file = os.path.join(wd, "traces.ndjson")
    os.environ["TRACES"] = env_file
    # TLCSet registers are per worker: one worker keeps them exact
    rc, out, log = _run(wd, [], timeout, workers=1, heap=heap)
    if rc != 0 or "No error has been found" not in log:
        raise TLCError(f"TLC exit {rc} validating {spec} (workdir {wd})\n" + log[-6000:])
    m = _STATS.search(log)
    bad = []
    got = {}
    for line in out:
        s = _unq(line)
        if s.startswith("TRACE "):
            _, i, n = s.split()
            got[int(i)] = int(n)
    if len(got) != len(traces):
        raise TLCError(f"validation of {spec} reported {len(got)} of {len(traces)} traces (workdir {wd})\n" + log[-3000:])
    for i, t in enumerate(traces):
        if got[i + 1] <= len(t):
            bad.append((i, got[i + 1] - 1))
    shutil.rmtree(wd, ignore_errors=True)
    return bad, dict(generated=int(m.group(1)), states=int(m.group(2)))

"""Outcome reporting shared by all checks: evidence, known findings, violations."""
import json
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def norm(v):
    """Canonical form for comparison: tuples->lists, numpy ints -> int."""
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True))
    return v


class Ctx:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.findings = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == pid and e.get("status") == "known":
                        self.findings.append(e)
        self.notes = {}

    quick = property(lambda self: self.tier == "quick")

    def pick(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def add_model(self, res):
        self.cov["states"] += res["states"]
        self.cov["transitions"] += res["transitions"] if "transitions" in res else res["generated"]

    def add_traces(self, n, samples=()):
        self.cov["traces_validated_against_impl"] += n
        for s in samples:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, detail):
        """Record a violation; `what` is a short signature matched against known findings."""
        for f in self.findings:
            if re.search(f["match"], what):
                if f["match"] not in self.known_hits:
                    self.known_hits[f["match"]] = what
                return False
        self.violations.append((what, detail))
        return True

    def parallel(self, jobs, procs=6):
        """Run jobs [(fn, args, kwargs)] as fn(ctx, ...) in forked processes; merge what they report."""
        import multiprocessing as mp
        from multiprocessing.connection import wait
        fork = mp.get_context("fork")
        todo, live, failed = list(jobs), {}, []

        def child(conn, fn, a, k):
            self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
            self.violations, self.known_hits = [], {}
            err = None
            try:
                fn(self, *a, **k)
            except BaseException:  # noqa: BLE001
                err = traceback.format_exc()
            sys.stdout.flush()
            conn.send((self.cov, json.loads(json.dumps(self.violations, default=str)), self.known_hits, err))
            conn.close()
            os._exit(0)
        while todo or live:
            while todo and len(live) < procs:
                fn, a, k = todo.pop(0)
                rx, tx = fork.Pipe(False)
                sys.stdout.flush()
                p = fork.Process(target=child, args=(tx, fn, a, k))
                p.start()
                tx.close()
                live[rx] = (p, fn, a)
            for rx in wait(list(live)):
                p, fn, a = live.pop(rx)
                try:
                    cov, vs, known, err = rx.recv()
                except EOFError:
                    cov, vs, known, err = {}, [], {}, f"process for {fn.__name__}{a} died"
                p.join()
                for key, n in cov.items():
                    if key == "samples":
                        self.cov["samples"] = (self.cov["samples"] + n)[:6]
                    elif isinstance(n, (int, float)):
                        self.count(key, n)
                    else:
                        self.cov[key] = n
                self.violations += [tuple(v) for v in vs]
                self.known_hits.update(known)
                if err:
                    failed.append(err)
        if failed and not self.violations:
            raise RuntimeError("".join(failed))

    def too_many(self, n=5):
        return len(self.violations) >= n

    def finish(self):
        base = os.environ.get("VERIF_OUT", VERIF)
        d = os.path.join(base, "out", self.pid)
        os.makedirs(d, exist_ok=True)
        rc = 0
        for f in self.findings:
            # a known finding is announced whenever its check ran to the end
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
        for n, (what, detail) in enumerate(self.violations[:5]):
            path = os.path.join(d, f"violation-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, what=what, detail=detail), f,
                          indent=1, default=str)
            print(f"violation: {what}"[:1500], flush=True)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            rc = 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), assumptions=self.assumptions)
        ev.update(self.notes)
        os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
        with open(os.path.join(base, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log(f"states={self.cov['states']} transitions={self.cov['transitions']} "
                 f"traces={self.cov['traces_validated_against_impl']} violations={len(self.violations)}")
        return rc


class Hang(Exception):
    pass


class deadline:
    """Raise Hang in the main thread if the body runs longer than `sec`."""

    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        def h(sig, frm):
            raise Hang(f"no return within {self.sec}s")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def replay(ctx, name, traces, make, step_timeout=20, keys=None, stop_after=5, sig=None):
    """Replay behaviours on the implementation.

    make() returns an adaptor with step(op, args) -> dict of observed values.
    Every key of act.res must be observed with exactly that value.
    """
    n_ok = steps = 0
    seen = set()
    for ti, tr in enumerate(traces):
        obs, done = None, []
        try:
            with deadline(step_timeout):
                ad = make()
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"{name}: cannot construct: {type(e).__name__}: {e}", traceback.format_exc())
            return n_ok
        bad = None
        for act in tr:
            op, args, want = act["op"], act.get("args"), norm(act["res"])
            done.append([op, args, want])
            try:
                with deadline(step_timeout):
                    obs = norm(ad.step(op, args))
            except Hang as e:
                bad = f"{op} {args}: {e}"
            except Exception as e:  # noqa: BLE001
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                bad = f"{op} raised {type(e).__name__}: {e}"
            if bad is None:
                ks = want.keys() if isinstance(want, dict) else ()
                for k in ks:
                    if keys and k not in keys:
                        continue
                    if k not in obs or obs[k] != want[k]:
                        bad = f"{op}: {k} expected {want[k]} got {obs.get(k)}"
                        break
            steps += 1
            if bad:
                break
        close = getattr(ad, "close", None)
        if close:
            try:
                close()
            except Exception:  # noqa: BLE001
                pass
        if bad:
            s = re.sub(r"\d+", "N", bad)[:80]
            if s not in seen:
                seen.add(s)
                what = f"{name}: {bad}"
                if ctx.violation(what if sig is None else sig(what, done), dict(trace=done, observed=obs, where=name)):
                    if len(seen) >= stop_after:
                        break
        else:
            n_ok += 1
    ctx.add_traces(n_ok, [dict(check=name, behaviour=[[a["op"], a.get("args"), a["res"]] for a in tr[:12]])
                          for tr in traces[:1]])
    ctx.count("implementation_steps", steps)
    return n_ok


def main(pid, fn, level="model_checking"):
    import logging
    logging.disable(logging.CRITICAL)
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
    ctx = Ctx(pid, tier, level)
    try:
        fn(ctx)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        if ctx.violations:
            sys.exit(ctx.finish())
        sys.exit(3)
    sys.exit(ctx.finish())

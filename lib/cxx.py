"""Builds drivers from the sources under test and talks to them."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import select
import subprocess
import threading

from lib.report import REPO, VERIF

INC = ["", "third_party", "third_party/stb/include", "third_party/half/include", "third_party/dlpack/include",
       "third_party/xxHash/include", "third_party/utfcpp/include", "third_party/json"]
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-DFMT_HEADER_ONLY=1", "-DMLLM_KERNEL_USE_THREADS=1",
        "-DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1", "-DXXH_DISPATCH_ENABLE=1", "-fopenmp"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
XXH = ["third_party/xxHash/src/xxhash.c", "third_party/xxHash/src/xxh_x86dispatch.c"]


class BuildError(Exception):
    pass


def build(name, driver, sources, flags=(), san=True, sched=False):
    """driver: files under harness/cpp; sources: files under the repository.

    sched: run under harness/cpp/sched.cpp, which decides which thread runs at every synchronisation and memory access.
    """
    if sched:
        san, driver, flags = False, list(driver) + ["sched.cpp"], [*flags, "-DSCHED"]
    out = os.path.join(os.environ.get("VERIF_OUT") or VERIF, ".build", name)
    os.makedirs(out, exist_ok=True)
    fl = BASE + (SAN if san else []) + list(flags) + [f"-I{os.path.join(REPO, i)}" for i in INC] + [f"-I{VERIF}/harness/cpp"]
    files = [os.path.join(VERIF, "harness/cpp", d) for d in driver] + [os.path.join(REPO, s) for s in sources]

    def one(f):
        c = f.endswith(".c")
        args = [x for x in fl if not c or (x not in SAN and not x.startswith("-std"))]
        if sched and not f.endswith("/sched.cpp"):
            args.append("-fsanitize=thread")      # for the calls it inserts; the library behind them is sched.cpp
        o = os.path.join(out, hashlib.md5(" ".join([f] + args).encode()).hexdigest()[:10] + ".o")
        if os.path.exists(o) and os.path.exists(o + ".d"):   # up to date?
            deps = open(o + ".d").read().split(":", 1)[1].replace("\\\n", " ").split()
            if all(os.path.exists(d) and os.path.getmtime(d) < os.path.getmtime(o) for d in deps):
                return o
        r = subprocess.run(["gcc" if c else "g++", *args, "-MMD", "-MF", o + ".d", "-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"{f}:\n{r.stderr[-3000:]}")
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    exe = os.path.join(out, name)
    r = subprocess.run(["g++", *[x for x in fl if x in SAN or x.startswith(("-f", "-Wl"))], *objs, "-o", exe, "-lpthread", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    return exe


class Died(Exception):
    pass


class Driver:
    """A driver process: one line of text in, one line of JSON out."""

    def __init__(self, exe, timeout=20, env=None, cwd=None, prefix=()):
        self.exe, self.timeout, self.env, self.cwd, self.prefix = exe, timeout, env, cwd, list(prefix)
        self.p = None
        self.buf = b""
        atexit.register(self.stop)

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        env.update(self.env or {})
        self.p = subprocess.Popen(self.prefix + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env, cwd=self.cwd, bufsize=0)
        self.buf, self.err = b"", b""
        p = self.p

        def drain():
            while True:
                b = os.read(p.stderr.fileno(), 65536)
                if not b:
                    return
                if self.p is p:
                    self.err = (self.err + b)[-20000:]
        self.th = threading.Thread(target=drain, daemon=True)
        self.th.start()

    def stop(self):
        p, self.p = self.p, None
        if p:
            p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()

    def ask(self, line, timeout=None):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((line + "\n").encode())
        except BrokenPipeError:
            self.dead(line)
        while True:
            while b"\n" not in self.buf:
                r, _, _ = select.select([self.p.stdout], [], [], timeout or self.timeout)
                if not r:
                    self.stop()
                    raise Died(f"no answer within {timeout or self.timeout} s to: {line[:200]}")
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    self.dead(line)
                self.buf += b
            s, self.buf = self.buf.split(b"\n", 1)
            if s.startswith(b"@"):      # anything else is log output
                return json.loads(s[1:])

    def dead(self, line):
        p = self.p
        rc = p.wait()
        self.th.join(2)
        out = (self.buf + b"\n" + self.err).decode(errors="replace")
        self.stop()
        keep = [x for x in out.splitlines() if any(w in x for w in ("ERROR", "rror:", "ssert", "terminate", "what()"))][:3]
        raise Died(f"died ({rc}) on: {line[:200]}; " + " | ".join(keep)[:400])

"""Create a planted change: python3 tools/mkseed.py FILE.py

FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=text, files={name: text})].
The patch is produced from, and the demo tried on, a scratch copy of /repo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"


def sh(cmd, cwd=None, timeout=400):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    shutil.rmtree(W, ignore_errors=True)
    sh(["git", "-C", "/repo", "worktree", "prune"])
    r = sh(["git", "clone", "-q", "--no-hardlinks", "/repo", W])
    assert r.returncode == 0, r.stdout
    # untracked third-party trees needed by C++ demos
    for s in seeds:
        if only and s["id"] not in only:
            continue
        sh(["git", "checkout", "-q", "--", "."], W)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], W).stdout
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        demo = s.get("demo", "")
        if "py" in s:
            open(os.path.join(d, "demo.py"), "w").write(s["py"].lstrip("\n"))
            demo = PY_DEMO
        if "cpp" in s:
            open(os.path.join(d, "demo.cpp"), "w").write(s["cpp"].lstrip("\n"))
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(demo.lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = sh(["bash", os.path.join(d, "demo.sh")], W)
        sh(["git", "checkout", "-q", "--", "."], W)
        good = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        ok = good.returncode == 0 and bad.returncode != 0
        print(("ok  " if ok else "BAD ") + s["id"], good.returncode, bad.returncode)
        if not ok or os.environ.get("V"):
            print(" unpatched:", good.stdout[-800:])
        if not ok or os.environ.get("V"):
            print(" patched:", bad.stdout[-800:])
    shutil.rmtree(W, ignore_errors=True)


PY_DEMO = """
#!/bin/bash
# run in the repository root: exit 0 when the property holds
export PYTHONPATH="$PWD:$PWD/mllm-kernel" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=4
exec timeout 250 /opt/mllm-venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
if __name__ == "__main__":
    for s in ():
        pass
    main()

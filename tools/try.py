"""Run the check of a planted change against a scratch copy: python3 tools/try.py [-j N] ID..."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(VERIF, "seeded", sid)
    pid = json.load(open(d + "/meta.json"))["property"]
    w = f"/tmp/try-{sid}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["rsync", "-a", "--exclude", "_build", "--exclude", ".git", "/repo/", w] if shutil.which("rsync")
                   else ["bash", "-c", f"mkdir {w}; cd /repo; tar c --exclude=./_build --exclude=./.git . | tar x -C {w}"], check=True)
    try:
        subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={w}", d + "/patch.diff"], check=True, cwd="/")
        env = dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "-out")
        r = subprocess.run([VERIF + "/run", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        v = [l for l in r.stdout.splitlines() if l.startswith(("violation", "VIOLATION"))]
        return sid, pid, r.returncode, v[:2], r.stdout[-1500:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + "-out", ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 3
    if a[0] == "-j":
        j = int(a[1])
        a = a[2:]
    with cf.ThreadPoolExecutor(j) as ex:
        for sid, pid, rc, v, tail in ex.map(one, a):
            print(("caught " if rc == 1 and v else "MISSED ") + sid, pid, rc, [x[:220] for x in v], flush=True)
            if rc not in (0, 1):
                print(tail)


main()

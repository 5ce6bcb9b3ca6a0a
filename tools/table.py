"""Writes DESIGN.md from DESIGN.in.md, the findings file and the planted changes."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = [json.loads(x) for x in open(f"{V}/known_findings.jsonl")]
missed = set(open(f"{V}/tools/missed.txt").read().split()) if os.path.exists(f"{V}/tools/missed.txt") else set()
rows = ["| commit | property | what failed |", "|---|---|---|"]
for f in fixes:
    if f["status"] == "fixed":
        rows.append(f"| {f['commit']} | {f['property']} | {f['what'].split(f['commit'], 1)[1].strip()} |")
t = open(f"{V}/tools/DESIGN.in.md").read().replace("@FIXES@", "\n".join(rows))
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['needs']} | {d['what_it_breaks']} | {'not caught' if i in missed else d['property']} |".replace("\n", " "))
open(f"{V}/DESIGN.md", "w").write(t.replace("@SEEDS@", "\n".join(rows)))

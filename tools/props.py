"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIMED = {}


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


def claim(id, technique, level_note, level="model_checking"):
    CLAIMED[id] = dict(technique=technique, level=level, level_note=level_note)


M = "pymllm/mem_cache/"
O = "pymllm/orchestrator/"
E = "mllm/engine/"

exec(open(os.path.join(V, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIMED and os.path.exists(os.path.join(V, "checks", i + ".py")):
            checks.append(dict(property=i, quick_cmd=f"./run {i} quick", thorough_cmd=f"./run {i} thorough",
                               evidence_file=f"evidence/{i}.json", **CLAIMED[i]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    man = dict(version=1, setup_cmd="./run setup",
               hooks=dict(guard="MLLM_VERIF_HOOKS", enable="no hooks are needed: nothing in /repo is guarded", source_commits=[]),
               checks=checks, not_applicable=na, notes=NOTES)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


main()

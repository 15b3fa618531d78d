#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property whose module exists in the checker is claimed."""
import json, os, re, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
main = open(os.path.join(root, "mc/src/main.rs")).read()
done = set(re.findall(r'"(C\d\d)" =>', main))
notes = json.load(open(os.path.join(root, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        n = notes.get(i, notes["default"])
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "technique": n["technique"],
            "level": "model_checking",
            "level_note": n["level_note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
src = [l.split()[0] for l in hooks.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(vmc)", "enable": "RUSTFLAGS=\"--cfg vmc\" (set by check.sh for C30 and C31 only)", "source_commits": src},
     "checks": checks, "not_applicable": na,
     "notes": "Explicit-state exploration of the real code; see DESIGN.md. ./check.sh <property> --replay <file> runs a reported case again."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")

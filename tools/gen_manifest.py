#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in check.MODULES:
        t, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "harness/build.rs of the crate that contains the instrumented binary emits cargo:rustc-cfg=verif_hooks; nothing else does", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))

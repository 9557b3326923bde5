#!/usr/bin/env python3
"""mkbug.py: reads a python dict from stdin and writes seeded/<id>/ (patch against /repo's HEAD)."""
import ast, json, os, shutil, subprocess, sys
d = ast.literal_eval(sys.stdin.read())
here = os.path.dirname(os.path.abspath(__file__))
out = f"/verif/seeded/{d['id']}"
os.makedirs(out, exist_ok=True)
try:
    for f, old, new in d["edits"]:
        p = os.environ.get("REPO", "/repo") + "/" + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "checkout", "-q", "--", "."])
open(out + "/patch.diff", "w").write(diff)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
kind = d.get("kind", "lib")
if kind == "lib":
    shutil.copy(here + "/demo/common.rs", out)
shutil.copy(here + ("/demo/demo.sh" if kind == "lib" else f"/demo/demo-{kind}.sh"), out + "/demo.sh")
if kind == "gpl":
    shutil.copy(here + "/demo/common.rs", out)
if kind in ("gpl", "bin"):
    shutil.copytree("/verif/nd-stub", out + "/nd-stub", dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
if kind in ("bin", "wrap", "plain"):
    open(out + "/run.py", "w").write(d["main"])
else:
    open(out + "/main.rs", "w").write(d["main"])

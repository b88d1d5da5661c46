#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN. Writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
try:
    for f, old, new in ns["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "wb").write(diff)
open(d + "/main.rs", "w").write(ns["MAIN"])
shutil.copy("/verif/tools/seed/demo.sh", d + "/demo.sh")
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)

#!/usr/bin/env python3
"""seed.py FILE: FILE is a python script defining id, pkg, edits=[(file, old, new)], needs, breaks, demo;
plants the bug in the scratch worktree /tmp/wt and hands it to seedadd.sh."""
import json, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
wt = "/tmp/wt"
head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
subprocess.run(["git", "-C", wt, "checkout", "-q", "-f", "--detach", head], check=True)
for f, a, b in ns["edits"]:
    s = open(wt + "/" + f).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(wt + "/" + f, "w").write(s.replace(a, b))
open("/tmp/demo.go.txt", "w").write(ns["demo"])
json.dump({"property": ns["id"].split("-")[0], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open("/tmp/meta.json", "w"), indent=1)
sys.exit(subprocess.run([sys.argv[0].replace("seed.py", "seedadd.sh"), ns["id"], ns["pkg"]]).returncode)

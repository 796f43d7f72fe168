#!/usr/bin/env python3
"""Run the checks against planted bugs: seedrun.py [-a] [id...]; -a: all claimed checks, not only the bug's property."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
wt = "/tmp/seedrun-%d" % os.getpid()
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"], check=True)
try:
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        r = subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr[:200]); continue
        props = [meta["property"]] if "-a" not in sys.argv else sorted(man)
        for p in props:
            e = dict(os.environ, VERIF_REPO=wt)
            r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, env=e, cwd=V)
            if p != meta["property"] and r.returncode == 0:
                continue
            o = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            x = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ")]
            print(i, p, "rc", r.returncode, o[0].replace(V, "") if o else "MISSED " + r.stderr[-300:], flush=True)
            for l in x[:4]:
                print("     ", l[:220], flush=True)
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])

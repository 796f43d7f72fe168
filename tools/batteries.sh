#!/bin/bash
# batteries.sh: runs the battery of every property against the unchanged tree, the way check.py does
cd "$(dirname "$0")/.." && exec python3 - <<'P'
import sys, time
sys.path[:0] = [".", "tools"]
import check
bad = 0
for p in sorted(check.PROPS):
    t = time.time()
    b = check.run_battery(p, "quick", 1)
    ok = b["state"] == "ran" and not b["fails"] and not b["notes"] and b["stats"].get("cases", 0) > 0
    bad += not ok
    print(p, "ok" if ok else "BAD", b["stats"], [f.get("key") for f in b["fails"]], [n[:300] for n in b.get("notes") or []], "%.1fs" % (time.time() - t), flush=True)
sys.exit(bad)
P

#!/usr/bin/env python3
"""runbugs.py [id...]: applies each planted bug to /repo's working tree, runs the
check of its property (or those given by CHECKS=C01,C02), and undoes it again."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True,
                      text=True).stdout == "", "/repo is not clean"
for b in ids:
    meta = json.load(open(os.path.join(SEEDED, b, "meta.json")))
    for prop in os.environ.get("CHECKS", meta["property"]).split(","):
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(SEEDED, b, "patch.diff")], check=True)
        t = time.time()
        try:
            p = subprocess.run(["python3", os.path.join(VERIF, "tools", "check.py"), prop], cwd=VERIF,
                               capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        verdict = {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR %d" % p.returncode)
        print("%-28s %s %-8s %.0fs %s" % (b, prop, verdict, time.time() - t,
                                         p.stderr[-600:] if p.returncode not in (0, 1) else ""), flush=True)

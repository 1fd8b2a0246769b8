#!/usr/bin/env python3
"""try.py ID...: run the check of each planted bug's property against it."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
os.makedirs("/tmp/w/ev", exist_ok=True)
for s in ids:
    d = os.path.join(V, "seeded", s)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    sc = "/tmp/w/try.%s" % s
    subprocess.run("/bin/rm -rf %s; cp -a /repo %s; git -C %s apply %s/patch.diff" % (sc, sc, sc, d), shell=True, check=True)
    p = subprocess.run(["python3", "checker/run.py", "--property", pid], cwd=V, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SKYMAP_TREE=sc, SKYMAP_EVIDENCE="/tmp/w/ev"))
    out = [l for l in p.stdout.splitlines() if l.startswith(("violated", "VIOL", "undecided", "analysis"))]
    print(s, pid, {1: "CAUGHT", 0: "missed"}.get(p.returncode, "BROKEN"), flush=True)
    for l in out[:int(os.environ.get("N", "3"))]:
        print("    ", l[:int(os.environ.get("W", "260"))])
    subprocess.run("/bin/rm -rf %s" % sc, shell=True)

#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP...: what the checks say of one edited copy (development)."""
import os
import shutil
import subprocess
import sys
f, old, new, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
sc = "/tmp/w/mut.%d" % os.getpid()
subprocess.run(["cp", "-a", "/repo", sc], check=True)
p = os.path.join(sc, "python/lsst/skymap", f)
t = open(p).read()
old, new = old.replace("\\n", "\n"), new.replace("\\n", "\n")
if t.count(old) < 1:
    print("NOT FOUND", old)
else:
    open(p, "w").write(t.replace(old, new, 1))
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for pid in props:
        r = subprocess.run(["timeout", "800", "python3", "checker/run.py", "--property", pid], cwd=V, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, SKYMAP_TREE=sc, SKYMAP_EVIDENCE="/tmp/w/ev"))
        print(pid, {1: "CAUGHT", 0: "quiet"}.get(r.returncode, "BROKEN"), "|", new[:60].replace("\n", " "))
        for l in [l for l in r.stdout.splitlines() if l.startswith(("violated", "undec", "anal")) or r.returncode not in (0, 1)][:int(os.environ.get("N", "2"))]:
            print("    ", l[:int(os.environ.get("W", "240"))])
shutil.rmtree(sc)

#!/usr/bin/env python3
"""plant.py ID...: build /verif/seeded/<id>/ from tools/seeds.py and confirm
it in a scratch copy of /repo: the patch applies, the stable tests pass with
it, the demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS

DEMO = """#!/bin/bash
# cwd: /repo.  Exit 0 when the property holds.
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/fakelsst/demo.py"
"""
SC = "/tmp/w/plant"


def sh(cmd, cwd=None, **kw):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def main(ids):
    for sid in ids:
        s = SEEDS[sid]
        shutil.rmtree(SC, ignore_errors=True)
        sh("git clone -q /repo %s" % SC)
        d = os.path.join(V, "seeded", sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(V, "demo_support", "fakelsst"), os.path.join(d, "fakelsst"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "fakelsst", "demo.py"), "w") as f:
            f.write("import skymap_demo  # noqa: F401\n" + s["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc0, out0 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
        for path, old, new in s["edits"]:
            p = os.path.join(SC, path)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "edit matches %d times: %r" % (t.count(old), old[:80]))
                return 1
            open(p, "w").write(t.replace(old, new))
        rc, patch = sh("git diff", cwd=SC)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        rc1, out1 = sh("bash %s/demo.sh" % d, cwd=SC, timeout=300)
        rct, outt = sh("PYTHONPATH=python:tests:/opt/vp/support PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q "
                       "-p no:cacheprovider -p skymap_no_init tests/test_packers.py", cwd=SC)
        rcf, outf = sh("PYTHONPATH=/verif/demo_support/fakelsst:tests DEMO_REPO=%s /opt/venv/bin/python -c \"import "
                       "skymap_demo, pytest; pytest.main(['-q','--tb=line','-p','no:cacheprovider','tests'])\" 2>&1 | "
                       "tail -1" % SC, cwd=SC)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = rc0 == 0 and rc1 != 0 and rct == 0
        print(sid, s["property"], "OK" if ok else "BAD", "clean", rc0, "patched", rc1, "tests", rct,
              outt.strip().splitlines()[-1][:60], "| all:", outf.strip()[:60])
        if rc0:
            print(out0[-600:])
        if rc1:
            print("   ", out1.strip().splitlines()[-1][:200])
        if rct:
            print(outt[-600:])
    shutil.rmtree(SC, ignore_errors=True)


sys.exit(main(sys.argv[1:] or sorted(SEEDS)))

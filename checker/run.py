#!/usr/bin/env python3
"""run.py --property Cxx: decide one property from the source in /repo."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import check
    import rules
    spec = rules.SPECS[a.property]
    ck = check.Check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick",
                     int(os.environ.get("VERIF_SEED", "1") or 1))
    state["ck"], state["spec"] = ck, spec
    try:
        ck.interp()
    except Exception as e:
        print("analysis broken: %s: %s" % (type(e).__name__, e))
        return 2
    ck.guard("analysis", a.property, spec["run"], ck)
    return check.finish(ck, spec)


# what has been decided by then counts if the analysis takes too long
LIMIT = 600 if os.environ.get("VERIF_TIER", "quick") == "quick" else 840
state = {}
rc = []
t = threading.Thread(target=lambda: rc.append(main()), daemon=True)
t.start()
t.join(LIMIT)
if not rc and t.is_alive() and "ck" in state:
    import check
    ck = state["ck"]
    ck.undecided("time", ck.pid, "stopped after %d s" % LIMIT)
    ck.obs = list(ck.obs)
    rc.append(check.finish(ck, state["spec"]))
sys.stdout.flush()
os._exit(rc[0] if rc else 2)

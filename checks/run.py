#!/usr/bin/env python3
"""run.py PROPERTY...   decides the named properties on /repo's current tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import rule

if __name__ == "__main__":
    import glob
    rc = 0
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(HERE + "/c[0-9]*.py"))
    for pid in ids:
        m = importlib.import_module(pid.lower())
        rc = max(rc, rule.main(pid, m.check))
    sys.exit(rc)

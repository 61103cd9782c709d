#!/usr/bin/env python3-vt
"""check.py <property-id>: decide one property from /repo's current sources."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import report

if __name__ == "__main__":
    prop = sys.argv[1]
    table = {}
    for line in open(os.path.join(HERE, "checks", "INDEX")):
        p = line.split()
        if len(p) >= 2 and not line.startswith("#"):
            table[p[0]] = p[1]
    mod = importlib.import_module(table[prop])
    sys.exit(report.main(prop, mod.run))

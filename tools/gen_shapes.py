#!/usr/bin/env python3
"""Writes units/shapes.json: the loops of every function under contract as they
were when its invariants were written.  Run by hand after editing a unit."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, propmap
vx, msg = common.build_vx()
assert vx, msg
out = {}
for u in sorted({x for v in propmap.UNITS.values() for x in v}):
    with tempfile.TemporaryDirectory() as d:
        m = os.path.join(d, "m.json")
        subprocess.run([vx, "--repo", common.REPO, "--unit", os.path.join(common.VERIF, "units", u + ".vu"),
                        "--out", os.path.join(d, "o.rs"), "--meta", m], check=True)
        for f in json.load(open(m))["functions"]:
            if f["props"]:
                out["%s: %s" % (u, f["name"])] = f["shape"]
            if f["lost"]:
                print("LOST", u, f["name"], f["lost"])
json.dump(out, open(os.path.join(common.VERIF, "units", "shapes.json"), "w"), indent=1, sort_keys=True)

#!/usr/bin/env python3
"""show.py <property>: per-harness figures of the last run."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def f(d):
    for k, v in d.items():
        if isinstance(v, dict):
            if "paths" in v and "wall_s" in v:
                print(k, v)
            else:
                f(v)
for p in sys.argv[1:]:
    f(json.load(open(os.path.join(V, "evidence", p + ".json"))))
    print(p, json.load(open(os.path.join(V, "evidence", p + ".json")))["coverage"].get("slowest_jobs"))

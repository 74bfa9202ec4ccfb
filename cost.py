#!/usr/bin/env python3
"""Where a property's last run spent its instructions: cost.py ID"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(os.path.join(V, "build/run", sys.argv[1], "out.json")))
t = sum(j["instructions"] for j in d["jobs"])
for j in sorted(d["jobs"], key=lambda j: -j["instructions"])[: int(sys.argv[2]) if len(sys.argv) > 2 else 25]:
    print("%5.1f%% %9d paths %s %s" % (100 * j["instructions"] / t, j["paths"], j["name"], j["reach"]))
print(d["wall_s"], "s engine, complete", d["complete"])

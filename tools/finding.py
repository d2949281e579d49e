#!/usr/bin/env python3
"""tools/finding.py 'fixed: property=C01 <commit> text' : append an entry to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
for a in sys.argv[1:]:
    d.append(a)
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in d) + "\n]\n")

#!/usr/bin/env python3
# add_fixed.py <property> <commit> <what failed>: records a repaired defect in known_findings.json (entries of this status suppress nothing)
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"); k = json.load(open(p))
k.append(dict(property=sys.argv[1], status="fixed", commit=sys.argv[2], entry="fixed: property=%s %s %s" % tuple(sys.argv[1:4])))
json.dump(k, open(p, "w"), indent=1)

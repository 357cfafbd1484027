#!/usr/bin/env python3
"""kf.py ID PROP COMMIT 'what'  -- append a fixed entry (developer tool)"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
L = json.load(open(p))
i, prop, c, what = sys.argv[1:5]
L.append({"id": i, "property": prop, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (prop, c, what)})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in L) + "\n]\n")

#!/usr/bin/env python3
"""addfixed.py PROP COMMIT WHAT: record a repaired defect in known_findings.json."""
import json, sys
f = json.load(open("known_findings.json"))
f["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(f, open("known_findings.json", "w"), indent=1)

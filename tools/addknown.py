#!/usr/bin/env python3
"""addknown.py open <prop> <match> <match_detail> <what>  |  addknown.py fixed <prop> <commit> <what>"""
import json, sys, os
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
k = json.load(open(p)); k.setdefault("fixed", [])
if sys.argv[1] == "open":
    k["findings"].append(dict(property=sys.argv[2], status="open", match=sys.argv[3], match_detail=sys.argv[4], what=sys.argv[5]))
else:
    k["fixed"].append(f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}")
json.dump(k, open(p, "w"), indent=1)

"""tools/finding.py fixed PROP COMMIT "what failed"  |  tools/finding.py known ID PROP "what" : append to known_findings.json"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P))
if sys.argv[1] == "fixed":
    prop, com, what = sys.argv[2:5]
    d["findings"].append(dict(property=prop, status="fixed", commit=com, what=what, record="fixed: property=%s %s %s" % (prop, com, what)))
else:
    fid, prop, what = sys.argv[2:5]
    d["findings"].append(dict(id=fid, property=prop, status="known", what=what))
json.dump(d, open(P, "w"), indent=1)

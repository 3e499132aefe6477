"""tools/kf.py PROP COMMIT ID WHAT : record a repaired defect."""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
prop, commit, i, what = sys.argv[1:5]
k.append({"property": prop, "status": "fixed", "id": i, "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write("\n")

"""tools/kfo.py PROP ID HARNESS OBLIGATION WHAT : record an open finding (by hand)."""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
prop, i, h, o, what = sys.argv[1:6]
k.append({"property": prop, "status": "open", "id": i, "harness": h, "obligation": o, "match": "", "what": what})
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write("\n")

"""python -m tv.replay FILE : re-run a recorded violation on the code in TV_REPO (default /repo)."""
import sys, json, importlib
from tv import runner
d = json.load(open(sys.argv[1]))
if "harness" not in d or "seed" not in d:
    print(json.dumps(d, indent=1)); sys.exit(0)
mod = importlib.import_module(d["module"])
h = next(h for h in mod.H if h.name == d["harness"])
st, name, msg, W = runner.conc_one(h, d["seed"], d["dims"], forced=d.get("forced"))
print("harness", h.name, "instance", W.used)
for k, v in W.inputs.items():
    print("input", k, v.tolist())
print("outcome:", st, name or "", msg or "")
sys.exit(1 if st == "fail" else 0)

"""Make and confirm a planted bug: python3 tools/seed.py SPEC.py [--notest]
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import sys, os, json, subprocess, shutil, runpy
s = runpy.run_path(sys.argv[1])
ID = s["ID"]
work = f"/tmp/seedwork.{ID}"
shutil.rmtree(work, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", work], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
open(d + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + s["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
demo = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=work, capture_output=True, text=True, timeout=300)
r0 = demo()
for f, old, new in s["EDITS"]:
    p = f"{work}/{f}"
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old))
    open(p, "w").write(t.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
r1 = demo()
print("demo unchanged rc", r0.returncode, r0.stdout[-300:], r0.stderr[-500:])
print("demo patched   rc", r1.returncode, r1.stdout[-300:], r1.stderr[-400:])
# only original lines may be changed
blame = []
for f, old, new in s["EDITS"]:
    base = subprocess.run(["git", "show", "f91330e:" + f], cwd=work, capture_output=True, text=True).stdout
    blame.append(all(l in base for l in old.split("\n")))
print("touches original lines:", blame)
ok = r0.returncode == 0 and r1.returncode != 0
if "--notest" not in sys.argv:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", SPFLOW_TEST_DEVICE="cpu", OMP_NUM_THREADS="1")
    x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", f"--junitxml={work}.xml"], cwd=work, env=env, capture_output=True, text=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", work + ".json", f"junit:{work}.xml"])
    res = json.load(open(work + ".json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    miss = sorted(set(base["stable"]) - set(res["passed"]))
    print("stable tests not passing:", len(miss), miss[:5])
    ok = ok and not miss
    for e in (".xml", ".json"):
        os.path.exists(work + e) and os.remove(work + e)
shutil.rmtree(work)
print("OK" if ok else "NOT OK", ID)

"""plant.py SPEC.py: build /verif/seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS), run by hand.
Works in a scratch copy of /repo; confirms the demo, the stable tests and whether the check catches it."""
import json, os, shutil, subprocess, sys, runpy
S = runpy.run_path(sys.argv[1])
sid, prop = S["ID"], S["PROP"]
W = "/tmp/plant_" + sid
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
try:
    for f, old, new in S["EDITS"]:
        p = os.path.join(W, f)
        s = open(p, newline="").read()
        if s.count(old) != 1 and "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    patch = subprocess.check_output(["git", "-C", W, "diff", "--binary"])
    D = "/verif/seeded/" + sid
    os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "wb").write(patch)
    open(D + "/demo.py", "w").write(S["DEMO"].lstrip("\n"))
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(D + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["bash", D + "/demo.sh"], cwd=W, capture_output=True, text=True)
    print("demo unchanged", r0.returncode, r0.stderr[-300:]); print("demo patched", r1.returncode, r1.stderr.strip().splitlines()[-1:])
    c = subprocess.run(["./check", prop, "quick"], cwd="/verif", env=dict(os.environ, PM4PY_REPO=W, VERIF_SEED="1"), capture_output=True, text=True)
    print("check rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOL" in l][:3])
    if "notest" not in sys.argv:
        t = open("/opt/vp/test.sh").read().replace("/repo", W)
        open(W + "_t.sh", "w").write(t)
        subprocess.run(["bash", W + "_t.sh", W + "_o.json"], capture_output=True)
        b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; p = set(json.load(open(W + "_o.json"))["passed"])
        print("tests missing:", [x for x in b if x not in p])
        os.remove(W + "_t.sh"); os.remove(W + "_o.json")
finally:
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run("rm -f /verif/evidence/%s.json; git -C /verif status --short | head" % prop, shell=True)

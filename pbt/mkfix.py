"""mkfix.py PROP "subject" ["what failed"]: commit /repo's working tree as a fix and record it (run by hand, never by a check)"""
import json, os, subprocess, sys
R = os.environ.get("PM4PY_REPO", "/repo")
prop, subj = sys.argv[1:3]
what = sys.argv[3] if len(sys.argv) > 3 else subj
subprocess.check_call(["git", "-C", R, "add", "-A"])
subprocess.check_call(["git", "-C", R, "commit", "-qam", "fix: " + subj])
h = subprocess.check_output(["git", "-C", R, "rev-parse", "--short", "HEAD"], text=True).strip()
k = json.load(open("/verif/known_findings.json"))
k["fixed"].append("fixed: property=%s %s %s" % (prop, h, what))
json.dump(k, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=False)
print(k["fixed"][-1])

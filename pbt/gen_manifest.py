"""writes properties.jsonl and MANIFEST.json from the META of the property modules: python3 pbt/gen_manifest.py"""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("PM4PY_REPO", "/repo"))
import core, importlib
V = core.VERIF
props, checks = [], []
for p in sorted(glob.glob(os.path.join(V, "pbt/props/c[0-9]*.py"))):
    m = importlib.import_module("props." + os.path.basename(p)[:-3])
    M, pid = m.META, os.path.basename(p)[:-3].upper()
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    for f in M["files"] + [w for _, w in M["mech"]]:
        assert os.path.exists(os.path.join(core.REPO, f.split(":")[0])), (pid, f)
    props.append({"id": pid, "title": M["title"], "statement": M["statement"], "quantifier": {"over": M["over"], "text": M["quant"]},
                  "why_tests_cant": M["why"], "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mech"]],
                  "observe_at": M.get("observe", ["public API results"]), "hook_needed": None}})
    checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": M.get("technique", "property-based testing: generated inputs against an independent reference oracle, with shrinking"),
                   "level": "exploration",
                   "level_note": M.get("note", "Searches generated inputs of bounded size; units: %s. Trusts the reference oracles in /verif/pbt and Python/pandas/lxml." % ", ".join(u.name for u in m.UNITS))})
NA = json.load(open(os.path.join(V, "pbt/not_applicable.json")))
for n in NA:
    assert n["property"] not in {p["id"] for p in props}
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": NA,
           "notes": "Everything is driven by pbt/run.py under /opt/venv/bin/python with Hypothesis from the tools venv; known findings in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties")

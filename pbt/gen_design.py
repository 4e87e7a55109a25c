"""writes DESIGN.md: python3 pbt/gen_design.py"""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, importlib
V = core.VERIF
K = json.load(open(V + "/known_findings.json"))
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(V + "/pbt/design_head.md").read()]
for p in sorted(glob.glob(V + "/pbt/props/c[0-9]*.py")):
    m = importlib.import_module("props." + os.path.basename(p)[:-3])
    M, pid = m.META, os.path.basename(p)[:-3].upper()
    out.append("### %s %s\n\n%s\n\n" % (pid, M["title"], M["statement"]))
    out.append("* Oracle: %s.\n" % M.get("oracle", "reference model or differential relation; see the module text of `pbt/props/%s.py`" % pid.lower()).rstrip("."))
    out.append("* Generated: %s.\n" % M["quant"].rstrip("."))
    out.append("* Units (quick cases, non-trivial rule): %s.\n" % "; ".join("`%s` %d (%s)" % (u.name, u.quick, u.rule) for u in m.UNITS))
    out.append("* Why tests cannot settle it: %s.\n" % M["why"].rstrip("."))
    if M.get("limits"):
        out.append("* Limits: %s.\n" % M["limits"].rstrip("."))
    for l in K["fixed"]:
        if "property=%s " % pid in l:
            out.append("* Repaired: %s.\n" % l.split(" ", 2)[2])
    for l in K["findings"]:
        if l.get("property") == pid:
            out.append("* Known finding: %s.\n" % l.get("what", "").rstrip("."))
    for sid, s in seeds.get(pid, []):
        out.append("* Planted `%s` (%s; needs %s): %s.\n" % (sid, s["what_it_breaks"], s["needs"], s.get("caught", "caught by the quick check")))
    out.append("\n")
na = json.load(open(V + "/pbt/not_applicable.json"))
out.append("## Not applicable\n\n" + ("\n".join("* %s: %s" % (n["property"], n["reason"]) for n in na) or "None of the listed properties is out of reach of the technique.") + "\n")
open(V + "/DESIGN.md", "w").write("".join(out))
print(len("".join(out)))

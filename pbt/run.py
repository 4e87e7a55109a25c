"""usage: run.py CXX [--tier quick|thorough] [--unit NAME] [--n N] [--scale F]
         run.py --replay FILE
Exit 0: held; 1: VIOLATION line printed; 2: error of the check."""
import argparse, glob, json, resource, multiprocessing as mp, os, sys, time, hashlib, importlib, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import VERIF


def load(prop):
    return importlib.import_module("props." + prop.lower())


def shard_seed(prop, unit, shard, seed):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%d/%d" % (prop, unit, shard, seed)).encode(), digest_size=6).digest(), "big")


def worker(conn, prop, unit, shard, seed, n, budget, deadline):
    budget = max(5.0, min(budget, deadline - time.time()))
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        res = core.run_unit(unit, shard_seed(prop, unit.name, shard, seed), n, budget)
    except BaseException as e:
        res = {"unit": unit.name, "evaluations": 0, "skipped_budget": 0, "labels": {}, "samples": [], "fail": None,
               "error": "".join(traceback.format_exception(e))[-3000:], "distinct": 0, "nontrivial_hashes": [], "wall_s": 0}
    conn.send(res)
    conn.close()
    os._exit(0)


MEM = 10 << 30  # address space per worker: a case that needs more is a violation, not a dead machine


def run_all(prop, jobs, seed, budget, nproc, deadline):
    """jobs: list of (unit, shard, n)"""
    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = {}
    out = []
    failed = False
    while pending or running:
        while pending and len(running) < nproc and not failed:
            unit, shard, n = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, prop, unit, shard, seed, n, budget, deadline))
            p.start()
            b.close()
            running[a] = (p, unit, shard, time.time())
        if failed and not running:
            break
        for c in [c for c, v in running.items() if time.time() - v[3] > budget + 120]:
            # stuck inside native code (the CPU limit of a case cannot interrupt it): the shard is given up, not judged
            p, unit, shard, _ = running.pop(c)
            p.kill()
            p.join()
            print("unit %s (shard %s): stopped, stuck in native code" % (unit.name, shard))
            out.append({"unit": unit.name, "evaluations": 0, "skipped_budget": 1, "labels": {"shard stopped": 1}, "samples": [], "fail": None,
                        "error": None, "distinct": 0, "nontrivial_hashes": [], "wall_s": 0, "shard": shard})
        for c in mp.connection.wait(list(running), timeout=1.0):
            p, unit, shard, _ = running.pop(c)
            try:
                r = c.recv()
            except EOFError:
                p.join()
                r = {"unit": unit.name, "evaluations": 0, "skipped_budget": 0, "labels": {}, "samples": [], "fail": None,
                     "error": "worker died with exit code %s" % p.exitcode, "distinct": 0, "nontrivial_hashes": [], "wall_s": 0}
            p.join()
            r["shard"] = shard
            out.append(r)
            if r["fail"] or r["error"]:
                failed = True
                pending = []
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def replay(path):
    rec = json.load(open(path))
    core.setup_subject()
    mod = load(rec["property"])
    unit = [u for u in mod.UNITS if u.name == rec["unit"]][0]
    for i in range(int(os.environ.get("REPLAY_TRIES", "5"))):
        kind, msg, ctx = core.run_case(unit, rec["case"])
        if kind in ("violation", "timeout"):
            print(msg)
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
    print("held on this case")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--n", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop.upper()
    core.setup_subject()
    mod = load(prop)
    units = [u for u in mod.UNITS if not a.unit or u.name == a.unit]
    tier = "thorough" if a.tier == "thorough" else "quick"
    viol, errors = [], []
    known = load_known()
    # 1. known findings of this property: replay the listed input, report, never fail on it
    known_lines = []
    for k in known["findings"]:
        if k["property"] != prop or (a.unit and k["unit"] != a.unit):
            continue
        us = [u for u in mod.UNITS if u.name == k["unit"]]
        if us:
            kind, msg, _ = core.run_case(us[0], k["case"])
            if kind in ("violation", "timeout"):
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # 2. saved regression cases
    nreg = 0
    for path in sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.json"))):
        rec = json.load(open(path))
        us = [u for u in units if u.name == rec["unit"]]
        if not us:
            continue
        nreg += 1
        kind, msg, _ = core.run_case(us[0], rec["case"])
        if kind in ("violation", "timeout"):
            viol.append({"unit": rec["unit"], "case": rec["case"], "msg": msg, "shard": "corpus"})
    # 3. generated search
    res = []
    if not viol and not errors:
        jobs = []
        for u in units:
            n = a.n or (u.thorough if tier == "thorough" else u.quick)
            n = max(1, int(n * a.scale))
            sh = u.shards if tier == "quick" else max(u.shards, 4)
            for s in range(sh):
                jobs.append((u, s, max(1, -(-n // sh))))
        budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000"))
        res = run_all(prop, jobs, a.seed, budget, a.procs, t0 + (600 if tier == "quick" else 20000))
        for r in res:
            if r["fail"]:
                viol.append({"unit": r["unit"], "shard": r["shard"], **r["fail"]})
            elif r["error"]:
                errors.append("%s[%s]: %s" % (r["unit"], r["shard"], r["error"]))
    lines = []
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda v: len(core.canon(v["case"])))
        for v in viol[:5]:
            h = hashlib.blake2b(core.canon(v["case"]).encode(), digest_size=5).hexdigest()
            path = os.path.join(d, "%s_%s_%s.json" % (prop, v["unit"].replace(" ", "_"), h))
            json.dump({"property": prop, "unit": v["unit"], "msg": v["msg"], "case": v["case"]}, open(path, "w"), indent=1)
            lines.append((v, path))
    # evidence
    labels, ev, nt, per = {}, 0, set(), {}
    samples = []
    for r in res:
        ev += r["evaluations"]
        nt.update(r["unit"] + h for h in r["nontrivial_hashes"])
        p = per.setdefault(r["unit"], {"evaluations": 0, "distinct": 0, "nontrivial": 0, "skipped_budget": 0, "cpu_wall_s": 0.0, "labels": {}})
        p["evaluations"] += r["evaluations"]
        p["distinct"] += r["distinct"]
        p["nontrivial"] += len(r["nontrivial_hashes"])
        p["skipped_budget"] += r["skipped_budget"]
        p["cpu_wall_s"] = round(p["cpu_wall_s"] + r["wall_s"], 2)
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if r["shard"] == 0:
            for s in r["samples"][:2]:
                samples.append({"unit": r["unit"], "case": s})
    wall = time.time() - t0
    if not a.unit:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
                   "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt),
                                "rule": " | ".join("%s: %s" % (u.name, u.rule) for u in mod.UNITS),
                                "samples": samples[:16], "units": per, "regression_cases": nreg,
                                "known_findings": known_lines},
                   "assumptions": getattr(mod, "ASSUMPTIONS", []),
                   "wall_s": round(wall, 2), "violations": len(viol)},
                  open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, p in sorted(per.items()):
        print("%-28s ev=%-6d distinct=%-6d nontrivial=%-6d skip=%d t=%.1fs %s" % (
            k, p["evaluations"], p["distinct"], p["nontrivial"], p["skipped_budget"], p["cpu_wall_s"],
            " ".join("%s=%d" % kv for kv in sorted(p["labels"].items()))))
    for l in known_lines:
        print(l)
    for v, path in lines:
        print("unit %s (shard %s): %s" % (v["unit"], v["shard"], v["msg"]))
        print("case: %s" % core.short(v["case"], 1500))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d cases, %d non-trivial, %d regression, %.1f s" % (prop, tier, a.seed, ev, len(nt), nreg, wall))
    if viol:
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK ERROR", e)
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

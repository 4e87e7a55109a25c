"""C05 results do not depend on the representation of the log; C06 shares the table"""
from hypothesis import strategies as st
import gen, build, api, ref
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Results do not depend on how the log is represented",
    statement="For every log-based function of the public interface (discovery, statistics, filtering, conformance, organizational mining, feature extraction), a dataframe, the same dataframe with renamed case/activity/timestamp columns named by the key arguments, the same rows with the cases interleaved by time, and the corresponding event log give the same result.",
    over=["inputs"], quant="about 75 functions x logs of up to 6 cases with resources, four representations each",
    why="tests call each function on one representation of two example logs with default column names; divergence between code paths shows on other inputs",
    files=["pm4py/discovery.py", "pm4py/stats.py", "pm4py/filtering.py", "pm4py/conformance.py", "pm4py/org.py", "pm4py/ml.py", "pm4py/analysis.py", "pm4py/statistics", "pm4py/algo/filtering", "pm4py/algo/discovery/dfg"],
    mech=[("statistics on dataframes", "pm4py/statistics"), ("filters on dataframes", "pm4py/algo/filtering/pandas"), ("simplified interface", "pm4py/stats.py")])
STD = {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp", "s": "begin"}
REN = {"c": "cid", "a": "act", "t": "ts", "s": "begin"}
LOGK = {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp", "s": "begin"}


def models(log):
    trs = [[e["a"] for e in c["events"]] for c in log["cases"]]
    tl = build.elog(log)
    acts = sorted({a for t in trs for a in t})
    M = {"act": trs[0][0], "act2": trs[-1][-1], "case": log["cases"][0]["id"], "variant": tuple(trs[0]), "ncases": len(log["cases"]), "nacts": len(acts), "paths": any(len(t) > 1 for t in trs)}
    half = build.variants_log(trs[: max(1, len(trs) // 2)])
    M["net"] = pm4py.discover_petri_net_inductive(half)
    M["tree"] = pm4py.discover_process_tree_inductive(half)
    M["tp"] = {(a, b): (100.0, 10.0) for a in acts for b in acts}
    M["declare"] = pm4py.discover_declare(half)
    M["skel"] = pm4py.discover_log_skeleton(half)
    return M


def run(name, log, K, M):
    try:
        return api.API[name](log, K, M)
    except ref.Overflow:
        raise
    except Exception as e:
        return ("raised", type(e).__name__, e)


def reps(log, decoy):
    base = build.fdf(log, sk="begin")
    ren = build.df(log, ck="cid", ak="act", tk="ts", sk="begin").sort_values(["cid", "ts"], kind="stable").reset_index(drop=True)
    if decoy:
        ren["case:concept:name"] = "zzz"
        ren["concept:name"] = "decoy"
        ren["time:timestamp"] = ren["ts"].iloc[0]
    mix = base.sort_values(["time:timestamp", "@@index"], kind="stable")
    if decoy:
        mix = mix.reset_index(drop=True)
    L = build.elog(log, sk="begin")
    return [("dataframe", base, STD), ("renamed columns", ren, REN), ("interleaved rows", mix, STD), ("event log", L, LOGK)]


def make(names):
    def check(case, ctx):
        log = case["log"]
        M = models(log)
        ctx.nontrivial(len(log["cases"]) > 1 and len({e["a"] for c in log["cases"] for e in c["events"]}) > 1)
        R = reps(log, case["decoy"])
        for name in names:
            exp = None
            for rep, obj, K in R:
                if (name, rep) in EXCLUDE:
                    continue
                got = run(name, obj, K, M)
                if exp is None:
                    exp = got
                    if isinstance(exp, tuple) and exp and exp[0] == "raised":
                        require(name in MAY_RAISE, "%s raised on the %s: %s", name, rep, exp)
                else:
                    if isinstance(got, tuple) and got and got[0] == "raised" and not (isinstance(exp, tuple) and exp[:1] == ("raised",)):
                        raise Violation("%s raised on the %s but not on the dataframe: %r" % (name, rep, got[2]))
                    if isinstance(exp, tuple) and exp and exp[0] == "raised":
                        require(isinstance(got, tuple) and got[:2] == exp[:2], "%s raised on the dataframe but not on the %s", name, rep)
                    else:
                        req_eq(got, exp, "%s on the %s (expected: as on the dataframe)" % (name, rep))
    return check


EXCLUDE = {("features", "event log"), ("project_on_event_attribute", "renamed columns")}
MAY_RAISE = set()
NAMES = sorted(api.API)
GROUPS = {
    "discovery": [n for n in NAMES if n.startswith("discover") or n in ("heuristics_net", "derive_minimum_self_distance")],
    "filtering": [n for n in NAMES if n.startswith("filter")],
    "conformance": ["token_based_replay", "alignments", "alignments_tree", "fitness_tbr", "fitness_alignments", "precision_tbr", "precision_alignments", "generalization_tbr", "conformance_temporal_profile", "conformance_declare", "conformance_log_skeleton"],
}
GROUPS["statistics"] = [n for n in NAMES if not any(n in g for g in GROUPS.values())]
S = st.fixed_dictionaries({"log": gen.log(n_act=3, max_len=4, max_traces=5, min_traces=2, equal_ts=False, resources=True, start_ts="mono"), "decoy": st.booleans()})
UNITS = [Unit(k, S, make(v), {"discovery": 45, "filtering": 60, "conformance": 45, "statistics": 60}[k], shards=2, rule="logs with resources; every function of the group on four representations; non-trivial: > 1 case and > 1 activity") for k, v in GROUPS.items()]

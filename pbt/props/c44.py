"""C44 features, targets and splits for machine learning"""
import warnings, random, datetime, math
from collections import Counter, defaultdict
import numpy as np, pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, build
from build import ts
from pm4py.util import constants as K
from pm4py.algo.transformation.log_to_features import algorithm as ltf
from pm4py.algo.transformation.log_to_features.variants import trace_based as tb, event_based as eb
from pm4py.algo.transformation.log_to_target import algorithm as ltt
from pm4py.objects.log.util import dataframe_utils

META = dict(
    title="Feature tables, target vectors and train/test splits mirror the log exactly",
    statement="Every row of a feature table describes its own case: attribute values and successions one-hot encoded, numeric attributes by their last value, durations, times to first/last occurrences, path times, work in progress, resource workload, indices and concurrency as defined; dataframes give the same kind of table, one row per case in the order of the case identifiers, and temporal features aggregate arrival, finish, waiting, sojourn and service times per period. "
              "Targets give the next activity, the next time and the remaining time of every event; splits and prefixes partition or cut the cases without changing them; no function changes its input.",
    over=["inputs"], quant="logs with missing attributes, equal timestamps, overlapping cases, starts x options, key names, frequencies",
    why="tests only check sizes of a table on one log; every cell must be right for every log",
    oracle="direct evaluation of the definitions on the generated cases",
    limits="Numeric attributes missing from a whole case are out of the domain of the event log features; concurrency features are judged on traces ordered by start.",
    files=["pm4py/ml.py", "pm4py/algo/transformation/log_to_features", "pm4py/algo/transformation/log_to_target", "pm4py/objects/log/util/dataframe_utils.py"],
    mech=[("event log features", "pm4py/algo/transformation/log_to_features/variants/trace_based.py"), ("dataframe features", "pm4py/objects/log/util/dataframe_utils.py"), ("temporal features", "pm4py/algo/transformation/log_to_features/variants/temporal.py"), ("targets", "pm4py/algo/transformation/log_to_target/variants/next_activity.py")])
warnings.simplefilter("ignore")
KEYS = {False: ("case:concept:name", "concept:name", "time:timestamp", "org:resource", "start_timestamp"), True: ("cid", "act", "when", "who", "begin")}
VALS = ["red", "blue", "dark red", "vert é", "vert e"]


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def enrich(c):
    """cases with generated attributes: events get kind/cost (or none), cases get cat/amt"""
    ex = c["ex"]
    n, out = 0, []
    for i, x in enumerate(c["log"]["cases"]):
        evs = []
        for j, e in enumerate(x["events"]):
            e = dict(e)
            if not c["start"]:
                e.pop("s", None)
            v = ex[n % len(ex)]
            n += 1
            if v[0] < 5:
                e["kind"] = VALS[v[0]]
            if v[1] < 5 or c["nums"]:
                e["cost"] = v[1] + 0.5
            evs.append(e)
        if c["start"] and c["bystart"]:
            evs.sort(key=lambda e: e["s"])
        v = ex[(i * 3) % len(ex)]
        r = {"id": x["id"], "events": evs, "amt": v[1]}
        if v[0] < 5:
            r["cat"] = VALS[v[0]]
        out.append(r)
    return out


def objs(c, cases, rep):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    if rep == "log":
        o = build.elog({"cases": cases}, ak=ak, tk=tk, rk=rk, sk=sk)
        for t, x in zip(o, cases):
            for k in ("cat", "amt"):
                if k in x:
                    t.attributes[k] = x[k]
            for ev, e in zip(t, x["events"]):
                for k in ("kind", "cost"):
                    if k in e:
                        ev[k] = e[k]
        return o
    d = build.df({"cases": cases}, ck=ck, ak=ak, tk=tk, rk=rk, sk=sk)
    rows = [(x, e) for x in cases for e in x["events"]]
    d["kind"] = [e.get("kind") for _, e in rows]
    d["cost"] = [e.get("cost", np.nan) for _, e in rows]
    d["case:cat"] = [x.get("cat") for x, _ in rows]
    d["case:amt"] = [x["amt"] for x, _ in rows]
    if c["strdt"]:
        d["kind"] = d["kind"].astype("string")
        d["case:cat"] = d["case:cat"].astype("string")
    return d


def snap(o):
    return o.copy() if isinstance(o, pd.DataFrame) else repr([(dict(t.attributes), [dict(e) for e in t]) for t in o])


def unchanged(o, s):
    require(s.equals(o) and list(s.columns) == list(o.columns) if isinstance(o, pd.DataFrame) else s == snap(o), "the input changed")


def P(c, rep):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    p = {K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk, K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_CASEID_KEY: ck if rep == "df" else "concept:name"}
    if c["start"]:
        p[K.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = sk
    return p


def table(data, names, n):
    req_eq(len(names), len(set(names)), "feature names are distinct")
    req_eq(len(data), n, "one row per case")
    for r in data:
        req_eq(len(r), len(names), "one value per feature")
    return [dict(zip(names, r)) for r in data]


def compare(rows, exp, cases):
    for r, e, x in zip(rows, exp, cases):
        req_eq(sorted(r), sorted(e), "features of case %s" % x["id"])
        for k in e:
            ok = r[k] == e[k] if isinstance(e[k], str) else close(r[k], e[k])
            require(ok, "feature %s of case %s: got %s expected %s", k, x["id"], r[k], e[k])


def attr_features(cases, c, ak, which):
    g = lambda e, k: e["a"] if k == ak else e.get(k)
    exp = [{} for _ in cases]
    for k in which["str_tr"]:
        f = lambda x: "trace:%s@%s" % (k, x[k] if k in x else "UNDEFINED")
        vs = {f(x) for x in cases}
        for x, r in zip(cases, exp):
            r.update({v: float(v == f(x)) for v in vs})
    for k in which["str_ev"]:
        f = lambda x: {"event:%s@%s" % (k, g(e, k)) for e in x["events"] if g(e, k) is not None} or {"event:%s@UNDEFINED" % k}
        vs = set().union(*[f(x) for x in cases])
        for x, r in zip(cases, exp):
            r.update({v: float(v in f(x)) for v in vs})
    for k in which["num_tr"]:
        for x, r in zip(cases, exp):
            r["trace:" + k] = float(x[k])
    for k in which["num_ev"]:
        for x, r in zip(cases, exp):
            r["event:" + k] = [e[k] for e in x["events"] if k in e][-1]
    for k in which["succ"]:
        f = lambda x: {"succession:%s@%s#%s" % (k, g(p, k), g(q, k)) for p, q in zip(x["events"], x["events"][1:]) if g(p, k) is not None and g(q, k) is not None} or {"succession:%s@UNDEFINED" % k}
        vs = set().union(*[f(x) for x in cases])
        for x, r in zip(cases, exp):
            r.update({v: float(v in f(x)) for v in vs})
    return exp


def features(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    cases = enrich(c)
    o = objs(c, cases, "log")
    s0 = snap(o)
    p = P(c, "log")
    S = lambda e: e.get("s", e["t"])
    numok = all(any("cost" in e for e in x["events"]) for x in cases)
    exp = None
    if c["mode"] == "default":
        which = {"str_tr": ["cat"] if all("cat" in x for x in cases) else [], "num_tr": ["amt"], "num_ev": ["cost"] if numok else [], "str_ev": [], "succ": [ak]}
        which["str_ev"] = sorted({ak} | ({rk} if all(any("r" in e for e in x["events"]) for x in cases) else set()) | ({"kind"} if all(any("kind" in e for e in x["events"]) for x in cases) else set()))
        exp = attr_features(cases, c, ak, dict(which, str_ev=[k for k in which["str_ev"] if k != rk]))
        if rk in which["str_ev"]:
            for i, r in enumerate(attr_features([dict(x, events=[dict(e, **{rk: e["r"]}) for e in x["events"]]) for x in cases], c, ak, {"str_tr": [], "num_tr": [], "num_ev": [], "succ": [], "str_ev": [rk]})):
                exp[i].update(r)
    else:
        which = {"str_tr": ["cat"] if c["pick"][0] else [], "num_tr": ["amt"] if c["pick"][1] else [], "num_ev": ["cost"] if c["pick"][2] and numok else [], "str_ev": [ak] + (["kind"] if c["pick"][3] else []), "succ": [ak] + (["kind"] if c["pick"][0] else []) if c["pick"][4] else []}
        exp = attr_features(cases, c, ak, which)
        p.update({"str_tr_attr": which["str_tr"], "num_tr_attr": which["num_tr"], "num_ev_attr": which["num_ev"], "str_ev_attr": which["str_ev"], "str_evsucc_attr": which["succ"]})
        if c["mode"] == "names":  # the features of one part of the log, taken from another
            names = sorted({k for r in exp for k in r})[::2] + ["event:%s@never" % ak]
            p["feature_names"] = list(names)
            exp = [{k: r.get(k, 0.0) for k in names} for r in exp]
    x_ = c["extra"]
    if x_["ids"]:
        p["add_case_identifier_column"] = True
        for r, x in zip(exp, cases):
            r["@@case_id_column"] = x["id"]
    if x_["all"]:
        p["enable_all_extra_features"] = True
        on = lambda k: True
    else:
        on = lambda k: x_["on"][k]
        for i, k in enumerate(["enable_case_duration", "enable_times_from_first_occurrence", "enable_times_from_last_occurrence", "enable_direct_paths_times_last_occ", "enable_indirect_paths_times_last_occ", "enable_work_in_progress", "enable_resource_workload", "enable_first_last_activity_index", "enable_max_concurrent_events", "enable_max_concurrent_events_per_activity"]):
            p[k] = x_["on"][i]
    A = sorted({e["a"] for x in cases for e in x["events"]})
    R = sorted({e["r"] for x in cases for e in x["events"]})
    dp = sorted({(a["a"], b["a"]) for x in cases for a, b in zip(x["events"], x["events"][1:])})
    ip = sorted({(x["events"][i]["a"], x["events"][j]["a"]) for x in cases for i in range(len(x["events"])) for j in range(i + 2, len(x["events"]))})
    span = [(S(x["events"][0]), x["events"][-1]["t"]) for x in cases]
    judge_conc = all(S(u) <= S(v) for x in cases for u, v in zip(x["events"], x["events"][1:]))
    for (x, r), (b, f) in zip(zip(cases, exp), span):
        E = x["events"]
        if on(0):
            r["@@caseDuration"] = f - b
        for q, (nm1, nm2), pick in ((1, ("startToFirstOcc@@", "firstOccToEnd@@"), 0), (2, ("startToLastOcc@@", "lastOccToEnd@@"), -1)):
            if on(q):
                for a in A:
                    occ = [e for e in E if e["a"] == a]
                    r[nm1 + a] = S(occ[pick]) - E[0]["t"] if occ else 0
                    r[nm2 + a] = S(E[-1]) - occ[pick]["t"] if occ else 0
        if on(3):
            for u, v in dp:
                w = [S(E[i + 1]) - E[i]["t"] for i in range(len(E) - 1) if (E[i]["a"], E[i + 1]["a"]) == (u, v)]
                w = [y for y in w if y > 0]
                r["directPathPerformanceLastOcc@@%s##%s" % (u, v)] = w[-1] if w else 0
        if on(4):
            for u, v in ip:
                w = [S(E[j]) - E[i]["t"] for i in range(len(E)) for j in range(i + 2, len(E)) if (E[i]["a"], E[j]["a"]) == (u, v)]
                w = [y for y in w if y > 0]
                r["indirectPathPerformanceLastOcc@@%s##%s" % (u, v)] = w[-1] if w else 0
        if on(5):
            r["@@work_in_progress"] = sum(b2 <= f and b <= f2 for b2, f2 in span)
        if on(6):
            for z in R:
                mine = [sp for sp, y in zip(span, cases) if any(e["r"] == z for e in y["events"])]
                r["resource_workload@@" + z] = sum(b2 <= f and b <= f2 for b2, f2 in mine) if any(e["r"] == z for e in E) else 0
        if on(7):
            for a in A:
                ix = [i for i, e in enumerate(E) if e["a"] == a]
                r["firstIndexAct@@" + a] = ix[0] if ix else -1
                r["lastIndexAct@@" + a] = ix[-1] if ix else -1
        ov = [(i, j) for i in range(len(E)) for j in range(i + 1, len(E)) if S(E[j]) <= E[i]["t"]]
        if on(8):
            r["@@max_concurrent_activities_general"] = max([0] + [sum(i == k for i, j in ov) for k in range(len(E))])
        if on(9):
            for a in A:
                r["@@max_concurrent_activities_like_" + a] = max([0] + [sum(i == k and E[j]["a"] == a for i, j in ov) for k in range(len(E)) if E[k]["a"] == a])
    data, names = ltf.apply(o, parameters=p)
    rows = table(data, names, len(cases))
    if not judge_conc:
        for z in rows + exp:
            for k in [k for k in z if k.startswith("@@max_conc")]:
                del z[k]
    ctx.label(c["mode"], "concurrency judged" if judge_conc else "concurrency not judged")
    ctx.nontrivial(len(cases) > 1 and len(exp[0]) > 5)
    compare(rows, exp, cases)
    unchanged(o, s0)


def asc(v):
    return v.encode("ascii", errors="ignore").decode("ascii").replace(" ", "")


def frame(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    cases = enrich(c)
    o = objs(c, cases, "df")
    s0 = snap(o)
    p = P(c, "df")
    evs = [(x, e) for x in cases for e in x["events"]]
    if c["mode"] == "default":
        lo, hi = c["occ"]
        p[dataframe_utils.Parameters.MIN_DIFFERENT_OCC_STR_ATTR] = lo
        p[dataframe_utils.Parameters.MAX_DIFFERENT_OCC_STR_ATTR] = hi
        cols = [ak]
        for k, f in (("kind", lambda x, e: e.get("kind")), (rk, lambda x, e: e["r"]), ("case:cat", lambda x, e: x.get("cat"))):
            vs = [(x["id"], f(x, e)) for x, e in evs]
            if {i for i, v in vs if v is not None} == {x["id"] for x in cases} and lo <= len({v for _, v in vs if v is not None}) <= hi:
                cols.append(k)
        if {x["id"] for x, e in evs if "cost" in e} == {x["id"] for x in cases}:
            cols.append("cost")
        cols.append("case:amt")
    else:
        pk = c["pick"]
        cols = [ak] + (["kind"] if pk[3] else []) + (["cost"] if pk[2] else []) + (["case:cat"] if pk[0] else []) + (["case:amt"] if pk[1] else [])
        p.update({"str_ev_attr": [ak] + (["kind"] if pk[3] else []), "num_ev_attr": ["cost"] if pk[2] else [], "str_tr_attr": ["cat"] if pk[0] else [], "num_tr_attr": ["amt"] if pk[1] else []})
    val = {ak: lambda x, e: e["a"], rk: lambda x, e: e["r"], "kind": lambda x, e: e.get("kind"), "cost": lambda x, e: e.get("cost"), "case:cat": lambda x, e: x.get("cat"), "case:amt": lambda x, e: x["amt"]}
    if c["extra"]["ids"]:
        p["add_case_identifier_column"] = True
    if c["mode"] == "default":
        data, names = ltf.apply(o, parameters=p)
        d = data
    else:
        d = pm4py.extract_features_dataframe(o, activity_key=ak, timestamp_key=tk, case_id_key=ck, resource_key=rk, include_case_id=c["extra"]["ids"], **{k: p[k] for k in ("str_ev_attr", "num_ev_attr", "str_tr_attr", "num_tr_attr")})
    ctx.label(c["mode"], "missing values" if any("kind" not in e for _, e in evs) and "kind" in cols else "complete")
    ctx.nontrivial(len(cases) > 1 and len(cols) > 2)
    order = sorted(cases, key=lambda x: x["id"])
    req_eq(len(d), len(cases), "one row per case")
    if c["extra"]["ids"]:
        req_eq(list(d[ck]), [x["id"] for x in order], "the rows follow the case identifiers")
    got = {k: list(d[k]) for k in d.columns if k != ck} if d.columns.is_unique else None
    require(got is not None, "column names are distinct: %s", list(d.columns))
    seen = set()
    for k in cols:
        if k in ("cost", "case:amt"):
            e = [([val[k](x, e) for e in x["events"] if val[k](x, e) is not None] or [None])[-1] for x in order]
            require(k in got, "numeric column %s", k)
            for a, b, x in zip(got[k], e, order):
                require(a != a if b is None else close(a, b), "feature %s of %s: got %s expected %s", k, x["id"], a, b)
            seen.add(k)
            continue
        vs = list(dict.fromkeys(val[k](x, e) for x, e in evs if val[k](x, e) is not None))
        byname = defaultdict(list)
        for v in vs:
            byname[k + "_" + asc(v)].append(v)
        for nm, group in byname.items():
            e = [float(any(val[k](x, e) == group[0] for e in x["events"])) for x in order]
            if len(group) == 1:
                req_eq(got.get(nm), e, "feature %s" % nm)
                seen.add(nm)
            else:  # values with the same short name: one column each
                ctx.label("same short name")
                gc = [n for n in got if n == nm or (n.startswith(nm) and n not in byname)]
                E = sorted([float(any(val[k](x, e) == v for e in x["events"])) for x in order] for v in group)
                req_eq(sorted(got[n] for n in gc), E, "features of %s" % group)
                seen.update(gc)
    req_eq(sorted(set(got) - seen), [], "other features")
    unchanged(o, s0)


def stats(cases, c):
    S = lambda e: e["s"] if c["start"] else e["t"]
    arr = {x["id"]: min(S(e) for e in x["events"]) for x in cases}
    fin = {x["id"]: max(e["t"] for e in x["events"]) for x in cases}
    ser = {x["id"]: sum(e["t"] - S(e) for e in x["events"]) for x in cases}
    out = {}
    for nm, m in (("arr", arr), ("fin", fin)):
        o = sorted(m, key=lambda i: (m[i], i))
        out[nm] = {i: (m[i] - m[o[k - 1]] if k else 0) for k, i in enumerate(o)}
    out["ser"] = ser
    out["soj"] = {i: fin[i] - arr[i] for i in arr}
    out["wai"] = {i: out["soj"][i] - ser[i] for i in arr}
    return out


def temporal(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    cases = enrich(c)
    o = objs(c, cases, c["rep"])
    s0 = snap(o)
    S = lambda e: e["s"] if c["start"] else e["t"]
    st_ = stats(cases, c)
    if c["rep"] == "log":
        ck, idk = "case:concept:name", "case:concept:name"
    d = pm4py.extract_temporal_features_dataframe(o, grouper_freq=c["freq"], activity_key=ak, timestamp_key=tk, case_id_key=ck, start_timestamp_key=sk if c["start"] else tk, resource_key=rk)
    def label(e):
        t = ts(S(e))
        if c["freq"] == "h":
            return t.replace(minute=0, second=0)
        t = t.replace(hour=0, minute=0, second=0)
        return t if c["freq"] == "D" else t + datetime.timedelta(days=6 - t.weekday())
    G = defaultdict(list)
    for x in cases:
        for e in x["events"]:
            G[label(e)].append((x["id"], e))
    step = {"h": datetime.timedelta(hours=1), "D": datetime.timedelta(days=1), "W": datetime.timedelta(days=7)}[c["freq"]]
    L, t = [], min(G)
    while t <= max(G):
        L.append(t)
        t += step
    req_eq([x.to_pydatetime() for x in d["timestamp"]], L, "periods")
    ctx.nontrivial(len(G) > 1 and len(cases) > 1)
    ctx.label(c["rep"], c["freq"], "start" if c["start"] else "no start")
    for r, l in zip(d.to_dict("records"), L):
        g = G[l]
        ids = {i for i, _ in g}
        e = {"unique_resources": len({z["r"] for _, z in g}), "unique_cases": len(ids), "unique_activities": len({z["a"] for _, z in g}), "num_events": len(g)}
        for k, nm in (("arr", "arrival_rate"), ("fin", "finish_rate"), ("wai", "waiting_time"), ("soj", "sojourn_time"), ("ser", "service_time")):
            e["average_" + nm] = sum(st_[k][i] for i in ids) / len(ids) if ids else 0.0
        for k in e:
            require(close(r[k], e[k]), "%s in the period %s: got %s expected %s", k, l, r[k], e[k])
    unchanged(o, s0)
    # the outcome-enriched table
    w = pm4py.extract_outcome_enriched_dataframe(o, activity_key=ak, timestamp_key=tk, case_id_key=ck, start_timestamp_key=sk if c["start"] else tk)
    rows = [(x, e) for x in cases for e in x["events"]]
    req_eq([(a, b) for a, b in zip(w[ck], w[ak])], [(x["id"], e["a"]) for x, e in rows], "outcome-enriched table: one row per event")
    for col, k in (("@@arrival_rate", "arr"), ("@@finish_rate", "fin"), ("@@service_time", "ser"), ("@@waiting_time", "wai"), ("@@sojourn_time", "soj")):
        for v, (x, e) in zip(w[col], rows):
            require(close(v, st_[k][x["id"]]), "%s of case %s: got %s expected %s", col, x["id"], v, st_[k][x["id"]])
    for a in {e["a"] for _, e in rows}:
        req_eq(list(w["%s_%s" % (ak, asc(a))]), [float(any(e["a"] == a for e in x["events"])) for x, _ in rows], "outcome-enriched table: activity %s" % a)
    unchanged(o, s0)


def targets(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    cases = enrich(dict(c, start=False))
    rep = c["rep"]
    o = objs(c, cases, rep)
    s0 = snap(o)
    A = sorted({e["a"] for x in cases for e in x["events"]})
    L = max(len(x["events"]) for x in cases)
    ctx.label(rep, "padding" if c["pad"] else "no padding")
    ctx.nontrivial(len(cases) > 1 and L > 1)
    k3 = dict(activity_key=ak, timestamp_key=tk, case_id_key=ck if rep == "df" else "case:concept:name")
    t, cl = pm4py.extract_target_vector(o, "next_activity", **k3)
    req_eq(cl, A, "classes")
    one = lambda a, acts: [float(a == b) for b in acts]
    req_eq(t, [[one(E[i + 1]["a"] if i + 1 < len(E) else None, A) for i in range(len(E))] for E in (x["events"] for x in cases)], "next activity")
    t, _ = pm4py.extract_target_vector(o, "next_time", **k3)
    req_eq(t, [[float(E[min(i + 1, len(E) - 1)]["t"] - E[i]["t"]) for i in range(len(E))] for E in (x["events"] for x in cases)], "next time")
    t, _ = pm4py.extract_target_vector(o, "remaining_time", **k3)
    req_eq(t, [[float(E[-1]["t"] - E[i]["t"]) for i in range(len(E))] for E in (x["events"] for x in cases)], "remaining time")
    if c["pad"]:
        size = L if c["pad"] == 1 else L + 2
        sub = A[::2]
        p = {**P(dict(c, start=False), rep), "enable_padding": True}
        if c["pad"] != 1:
            p["pad_size"] = size
        t, cl = ltt.apply(o, variant=ltt.Variants.NEXT_ACTIVITY, parameters={**p, "activities": list(sub)})
        req_eq(cl, sub, "given classes")
        req_eq(t, [[one(E[i + 1]["a"] if i + 1 < len(E) else None, sub) for i in range(size)] for E in (x["events"] for x in cases)], "padded next activity")
        t, _ = ltt.apply(o, variant=ltt.Variants.REMAINING_TIME, parameters=dict(p))
        req_eq(t, [[float(E[-1]["t"] - E[i]["t"]) if i < len(E) else 0.0 for i in range(size)] for E in (x["events"] for x in cases)], "padded remaining time")
        t, _ = ltt.apply(o, variant=ltt.Variants.NEXT_TIME, parameters=dict(p))
        req_eq(t, [[float(E[min(i + 1, len(E) - 1)]["t"] - E[i]["t"]) if i < len(E) else 0.0 for i in range(size)] for E in (x["events"] for x in cases)], "padded next time")
    # event-based features
    el = o if rep == "log" else None
    if el is not None:
        p = {}
        lo, hi = c["occ"]
        p[eb.Parameters.MIN_NUM_DIFF_STR_VALUES] = lo
        p[eb.Parameters.MAX_NUM_DIFF_STR_VALUES] = hi
        sel, num = [ak, "kind", rk], ["cost"]
        if c["sel"]:
            sel, num = [ak], []
        if c["sel"]:
            p["str_ev_attr"], p["num_ev_attr"] = sel, num
        g = lambda e, k: e["a"] if k == ak else e["r"] if k == rk else e.get(k)
        ex = set()
        for k in sel:
            vs = {g(e, k) for x in cases for e in x["events"]} - {None}
            if lo <= len(vs) <= hi:
                ex |= {"event:%s@%s" % (k, v) for v in vs}
        for k in num:
            if all(k in e for x in cases for e in x["events"]):
                ex.add("event:" + k)
        data, names = ltf.apply(el, variant=ltf.Variants.EVENT_BASED, parameters=p)
        req_eq(names, sorted(ex), "event-based features")
        req_eq(data.shape, (len(cases), L, len(names)), "shape")
        for i, x in enumerate(cases):
            for j in range(L):
                e = x["events"][j] if j < len(x["events"]) else {}
                for q, nm in enumerate(names):
                    v = 0.0
                    if e:
                        v = float(e.get("cost", 0)) if nm == "event:cost" else float(any(g(e, k) is not None and nm == "event:%s@%s" % (k, g(e, k)) for k in sel))
                    require(close(float(data[i, j, q]), v), "feature %s of event %d of case %s: got %s expected %s", nm, j, x["id"], data[i, j, q], v)
    # prefixes
    n = c["n"]
    pr = pm4py.get_prefixes_from_log(o, n, case_id_key=ck)
    if rep == "log":
        req_eq([(dict(t.attributes), [dict(e) for e in t]) for t in pr], [(dict(t.attributes), [dict(e) for e in t][:n]) for t in o], "prefixes of length %d" % n)
        full = lambda l: [(dict(t.attributes), [dict(e) for e in t]) for t in l]
    else:
        keep = [j < n for x in cases for j in range(len(x["events"]))]
        require(o[keep].equals(pr[list(o.columns)]), "prefixes of length %d: %s", n, pr)
    # split
    random.seed(c["seed"])
    pc = c["pc"]
    a, b = pm4py.split_train_test(o, train_percentage=pc, case_id_key=ck)
    if rep == "log":
        ids = [t.attributes["concept:name"] for t in o]
        ia, ib = [t.attributes["concept:name"] for t in a], [t.attributes["concept:name"] for t in b]
        req_eq(sorted(ia + ib), sorted(ids), "the split partitions the cases")
        m = {t.attributes["concept:name"]: repr((t.attributes, [dict(e) for e in t])) for t in o}
        req_eq([repr((t.attributes, [dict(e) for e in t])) for l in (a, b) for t in l], [m[i] for i in ia + ib], "cases of the split")
        require(abs(len(ia) - pc * len(ids)) <= 1, "the training part has %d cases of %d for %s", len(ia), len(ids), pc)
    else:
        ia, ib = set(a[ck]), set(b[ck])
        require(not ia & ib and ia | ib == {x["id"] for x in cases}, "the split partitions the cases")
        require(o[o[ck].isin(ia)].equals(a) and o[o[ck].isin(ib)].equals(b), "cases of the split")
        if pc == 1.0:
            require(not ib, "everything is in the training part")
    unchanged(o, s0)


BASE = {"log": gen.log(4, 5, 5, resources=True, start_ts=True, gap=3000), "keys": st.booleans(), "start": st.booleans(), "bystart": st.booleans(), "nums": st.sampled_from([True, True, False]), "strdt": st.booleans(),
        "ex": st.lists(st.tuples(st.integers(0, 6), st.integers(0, 5)).map(list), min_size=3, max_size=9), "pick": st.lists(st.booleans(), min_size=5, max_size=5), "mode": st.sampled_from(["default", "given", "names"]),
        "extra": st.fixed_dictionaries({"ids": st.booleans(), "all": st.booleans(), "on": st.lists(st.booleans(), min_size=10, max_size=10)})}
REP = st.sampled_from(["log", "df"])
D = lambda **k: st.fixed_dictionaries({**BASE, **k})
OCC = st.sampled_from([(1, 50), (2, 3), (5, 50), (3, 4)]).map(list)
UNITS = [
    Unit("log_features", D(), features, 500, shards=2, rule="non-trivial: > 1 case and > 5 features"),
    Unit("frame_features", D(occ=OCC), frame, 400, shards=2, rule="non-trivial: > 1 case and > 2 columns"),
    Unit("temporal", D(rep=REP, freq=st.sampled_from(["D", "h", "W"]), log=gen.log(4, 5, 5, resources=True, start_ts=True, gap=40000)), temporal, 300, shards=2, rule="non-trivial: > 1 period and case"),
    Unit("targets", D(rep=REP, pad=st.sampled_from([0, 1, 2]), occ=OCC, sel=st.booleans(), n=st.integers(1, 6), seed=st.integers(0, 99), pc=st.sampled_from([0.8, 0.5, 1.0, 0.0, 0.3])), targets, 400, shards=1, rule="non-trivial: > 1 case, a case with > 1 event"),
]

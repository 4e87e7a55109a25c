"""C45 event-log utilities"""
import random
from collections import Counter, defaultdict
from datetime import datetime, timedelta, timezone
import pandas as pd
from hypothesis import strategies as st
import gen, build
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
from props.c28 import working, slots_, T0

META = dict(
    title="Log utilities: lifecycles and intervals, lead times, splits, sorts, tables",
    statement="Turning a lifecycle log into an interval log pairs every completion with the earliest open start of its activity (and instance), turning it back restores starts and completions in time order, and the annotated cycle, lead and wasted times are the working time of the union of the intervals, of that union plus the gaps between them, and of the gaps. "
              "Artificial start and end events become the first and last event of every case in each representation; sorting, sampling, prefixes, cuts before an activity, partitions, activity and case tables, alphabets, classifiers, indexes and attributes moved between levels keep every other event and attribute and compute exactly what they say, on copies where they return a new log.",
    over=["inputs"], quant="generated logs with overlapping, repeated and instantaneous intervals, ties, missing attributes and instances, in event-log, stream and dataframe form",
    why="tests call these helpers on a log or two without looking at the values; pairing, ties, adjacency of intervals and missing values decide the rest",
    files=["pm4py/objects/log/util", "pm4py/util/business_hours.py", "pm4py/utils.py", "pm4py/ml.py"],
    mech=[("to_interval", "pm4py/objects/log/util/interval_lifecycle.py"), ("assign_lead_cycle_time", "pm4py/objects/log/util/interval_lifecycle.py"), ("insert_artificial_start_end", "pm4py/objects/log/util/dataframe_utils.py"), ("sort_timestamp_log", "pm4py/objects/log/util/sorting.py"), ("move_attrs_to_trace", "pm4py/objects/log/util/move_attrs_to_trace.py")],
    limits="Interval logs given to the lead-time annotation are ordered by start; get_log_encoded and the prefix-enriched logs are not judged.")
FLAG = st.sampled_from([False] * 4 + [True])


@st.composite
def life_st(draw):
    acts = gen.ACTS[:draw(st.integers(1, 3))]
    scale = draw(st.sampled_from([1, 600, 7200, 90000]))
    inst = draw(st.booleans())
    cases = []
    for _ in range(draw(st.integers(1, 3))):
        t, evs = draw(st.integers(0, 3)) * scale, []
        for _ in range(draw(st.integers(0, 7))):
            t += draw(st.sampled_from([0, 1, 1, 2, 5])) * scale
            e = {"a": draw(st.sampled_from(acts)), "t": t, "k": draw(st.sampled_from(["start", "complete", "complete", "start", "START", "Complete", None, "schedule"]))}
            if inst and draw(st.booleans()):
                e["i"] = draw(st.sampled_from(["1", "2"]))
            if draw(st.booleans()):
                e["x"] = draw(st.integers(0, 5))
            evs.append(e)
        cases.append(evs)
    return {"cases": cases, "slots": draw(slots_()), "bh": draw(st.booleans()), "keys": draw(FLAG)}


def dt(t):
    return T0 + timedelta(seconds=t)


def check_life(case, ctx):
    from pm4py.objects.log.util import interval_lifecycle as IL
    ak, tk, sk, lk = ("concept:name", "time:timestamp", "start_timestamp", "lifecycle:transition") if not case["keys"] else ("act", "when", "begin", "phase")
    log = EventLog(attributes={"origin": "z"})
    for i, c in enumerate(case["cases"]):
        t = Trace(attributes={"concept:name": str(i), "y": i})
        for e in c:
            ev = {ak: e["a"], tk: dt(e["t"])}
            if e["k"]:
                ev[lk] = e["k"]
            if "i" in e:
                ev["concept:instance"] = e["i"]
            if "x" in e:
                ev["x"] = e["x"]
            t.append(Event(ev))
        log.append(t)
    before = [[dict(e) for e in t] for t in log]
    par = {} if not case["keys"] else {"pm4py:param:activity_key": ak, "pm4py:param:timestamp_key": tk, "pm4py:param:start_timestamp_key": sk, "pm4py:param:transition_key": lk}
    if case["bh"]:
        par["business_hours"] = True
        if case["slots"]:
            par["business_hour_slots"] = case["slots"]
    res = IL.to_interval(log, parameters=dict(par))
    req_eq([[dict(e) for e in t] for t in log], before, "the lifecycle log")
    req_eq(len(res), len(log), "cases of the interval log")
    req_eq(res.attributes.get("origin"), "z", "log attributes")
    exp_all, expi = [], []
    for i, c in enumerate(case["cases"]):
        op, out = defaultdict(list), []
        for e in c:
            k = (e["a"], e.get("i"))
            ph = (e["k"] or "complete").lower()
            if ph == "start":
                op[k].append(e)
            elif ph == "complete":
                s = op[k].pop(0) if op[k] else None
                d = {ak: e["a"], tk: dt(e["t"]), sk: dt((s or e)["t"]), "@@duration": float(e["t"] - (s or e)["t"])}
                for src, pre in ((e, ""), (s, "@@startevent_")):
                    if src:
                        if pre:
                            d[pre + ak] = src["a"]
                        if "i" in src:
                            d[pre + "concept:instance"] = src["i"]
                        if "x" in src:
                            d[pre + "x"] = src["x"]
                if case["bh"]:
                    d["@@approx_bh_duration"] = working(d[sk], d[tk], case["slots"])
                out.append(d)
        out.sort(key=lambda d: d[sk])
        expi.append(out)
        got = [dict(e) for e in res[i]]
        if case["bh"]:
            for g, x in zip(got, out):
                require(abs(g.pop("@@approx_bh_duration") - x.pop("@@approx_bh_duration")) < 1e-3, "business duration of %s", g)
        req_eq(got, out, "intervals of case %s" % i)
        req_eq(dict(res[i].attributes), dict(log[i].attributes), "case attributes")
        if any(d[sk] < d[tk] for d in out) and len(out) > 1:
            ctx.nontrivial()
    if not expi or not expi[0]:
        ctx.label("first case empty")
    # already intervals: unchanged
    if case["bh"]:
        del res.attributes["PM4PY_TYPE"]
    again = IL.to_interval(res, parameters=dict(par))
    req_eq([[dict(e) for e in t] for t in again], [[dict(e) for e in t] for t in res], "interval log converted again")
    # and back
    lc = IL.to_lifecycle(res, parameters=dict(par))
    for i, t in enumerate(lc):
        exp = []
        for j, d in enumerate(expi[i]):
            base = {k: v for k, v in dict(res[i][j]).items() if k not in (tk, sk)}
            exp.append((d[sk], j, 0, {**base, tk: d[sk], lk: "start"}))
            exp.append((d[tk], j, 1, {**base, tk: d[tk], lk: "complete"}))
        exp.sort(key=lambda x: x[:3])
        req_eq([{k: v for k, v in dict(e).items() if k not in ("@@custom_lif_id", "@@origin_ev_idx")} for e in t], [x[3] for x in exp], "lifecycle events of case %s" % i)
        req_eq(dict(t.attributes), dict(log[i].attributes), "case attributes after both conversions")
    back = IL.to_interval(lc, parameters=dict(par))
    for i, t in enumerate(back):
        req_eq(sorted((e[ak], e[tk]) for e in t), sorted((d[ak], d[tk]) for d in expi[i]), "completions after the round trip, case %s" % i)
        req_eq(sorted((e[ak], e[sk]) for e in t), sorted((d[ak], d[sk]) for d in expi[i]), "starts after the round trip, case %s" % i)


@st.composite
def lead_st(draw):
    scale = draw(st.sampled_from([1, 600, 7200, 90000]))
    cases = []
    for _ in range(draw(st.integers(1, 3))):
        t, end, evs = draw(st.integers(0, 3)) * scale, 0, []
        for _ in range(draw(st.integers(1, 6))):
            t = max(t, draw(st.sampled_from([t, t + scale, end, end, end + scale, t + 3 * scale])))
            e = t + draw(st.sampled_from([0, 1, 1, 2, 4, 9])) * scale
            evs.append([t, e])
            end = max(end, e)
        cases.append(evs)
    return {"cases": cases, "slots": draw(slots_())}


def check_lead(case, ctx):
    from pm4py.objects.log.util import interval_lifecycle as IL
    log = EventLog()
    for c in case["cases"]:
        log.append(Trace([Event({"concept:name": "a", "start_timestamp": dt(s), "time:timestamp": dt(e)}) for s, e in c]))
    par = {"business_hour_slots": case["slots"]} if case["slots"] else {}
    res = IL.assign_lead_cycle_time(log, parameters=par)
    w = lambda a, b: working(dt(a), dt(b), case["slots"])
    for i, c in enumerate(case["cases"]):
        cyc = was = 0.0
        end = None
        for j, (s, e) in enumerate(c):
            this = 0.0
            if end is None:
                cyc += w(s, e)
                end = e
            else:
                if s > end:
                    this = w(end, s)
                    was += this
                if e > end:
                    cyc += w(max(s, end), e)
                    end = e
            ev = res[i][j]
            got = [ev["@@approx_bh_partial_cycle_time"], ev["@@approx_bh_partial_lead_time"], ev["@@approx_bh_overall_wasted_time"], ev["@@approx_bh_this_wasted_time"], ev["@approx_bh_ratio_cycle_lead_time"]]
            exp = [cyc, cyc + was, was, this, cyc / (cyc + was) if cyc + was > 0 else 1]
            require(all(abs(a - b) < 1e-3 for a, b in zip(got, exp)), "cycle, lead, wasted, this wasted time, ratio of event %s of %s: got %s expected %s", j, c, got, exp)
            if j and s == c[j - 1][1]:
                ctx.label("adjacent")
        if was and cyc:
            ctx.nontrivial()


def evs(log):
    return [[dict(e) for e in t] for t in log]


@st.composite
def ext_st(draw):
    log = draw(gen.log(n_act=draw(st.sampled_from([3, 6])), max_len=5, max_traces=5, extra=True))
    return {"log": log, "perm": draw(st.lists(st.integers(0, 9), min_size=1, max_size=8)), "keys": draw(st.booleans()), "ext": draw(FLAG), "np": draw(st.integers(1, 4)), "n": draw(st.integers(0, 6)), "fmt": draw(st.booleans()), "det": draw(st.booleans())}


def check_ext(case, ctx):
    from pm4py.objects.log.util import dataframe_utils as DU, pandas_numpy_variants as NV, activities_to_alphabet as AA
    kk = dict(ck="case:concept:name", ak="concept:name", tk="time:timestamp") if not case["keys"] else dict(ck="cid", ak="act", tk="when")
    d0 = build.df(case["log"], **kk)
    order = sorted(range(len(d0)), key=lambda i: (case["perm"][i % len(case["perm"])], i))
    ck, ak, tk = kk["ck"], kk["ak"], kk["tk"]
    # same-time events of a case keep their order
    rank = {}
    d = d0.iloc[order].reset_index(drop=True) if not case["fmt"] else d0
    d["amount"] = [float(i) for i in range(len(d))]
    d["case:kind"] = d[ck].map(lambda x: "k" + str(x)[-1])
    before = d.copy()
    ref_cases = {c: g.sort_values(tk, kind="stable") for c, g in d.groupby(ck)}
    P = {"pm4py:param:case_id_key": ck, "pm4py:param:activity_key": ak, "pm4py:param:timestamp_key": tk}
    if len(ref_cases) > 1:
        ctx.nontrivial()
    # artificial start and end
    if case["ext"] and d[tk].dt.unit == "ns":
        r = DU.insert_artificial_start_end(d, parameters={**P, "use_extremes_timestamp": True})
    else:
        r = pm4py.insert_artificial_start_end(d, activity_key=ak, timestamp_key=tk, case_id_key=ck)
    pd.testing.assert_frame_equal(d, before)
    req_eq(list(dict.fromkeys(r[ck])), sorted(ref_cases), "cases with artificial activities")
    for c, g in r.groupby(ck):
        x = ref_cases[c]
        req_eq(list(g[ak]), ["\u25b6"] + list(x[ak]) + ["\u25a0"], "activities with artificial start and end")
        req_eq(list(g["amount"])[1:-1], list(x["amount"]), "attributes of the kept events")
        req_eq(list(g[tk])[1:-1], list(x[tk]), "timestamps of the kept events")
        require(g[tk].iloc[0] < x[tk].iloc[0] and g[tk].iloc[-1] > x[tk].iloc[-1], "timestamps of the artificial events")
    # tables
    a, cse = DU.dataframe_to_activity_case_table(d, parameters={**P})
    casecols = [x for x in d.columns if x.startswith("case:")]
    req_eq(sorted(a.columns), sorted(set(x for x in d.columns if x not in casecols) | {ck}), "columns of the activity table")
    req_eq(sorted(cse.columns), sorted(set(casecols) | {ck}), "columns of the case table")
    for col in a.columns:
        req_eq(list(a[col]), list(d[col]), "column %s of the activity table" % col)
    req_eq({c: k for c, k in zip(cse[ck], cse["case:kind"])}, {c: g["case:kind"].iloc[0] for c, g in ref_cases.items()}, "case table")
    req_eq(len(cse), len(ref_cases), "rows of the case table")
    # partitions
    if not case["keys"]:
        p = DU.insert_partitioning(d.copy(), case["np"], parameters={**P})
        part = p.groupby(ck)["@@partitioning"].agg(lambda s: sorted(set(s)))
        require(all(len(x) == 1 and 0 <= x[0] < case["np"] for x in part), "partitions %s", dict(part))
        sz = Counter(x[0] for x in part)
        require(max(sz.values()) - min(sz.get(i, 0) for i in range(case["np"])) <= 1, "sizes of the partitions %s", sz)
        req_eq(list(p["amount"]), list(d["amount"]), "rows with partitions")
    # sample
    random.seed(case["n"])
    s = DU.sample_dataframe(d, parameters={**P, "max_no_cases": case["n"] + 1, "deterministic": case["det"]})
    kept = set(s[ck])
    req_eq(len(kept), min(case["n"] + 1, len(ref_cases)), "number of sampled cases")
    req_eq(list(s["amount"]), [x for x, c in zip(d["amount"], d[ck]) if c in kept], "rows of the sample")
    # variants by arrays
    v, cv = NV.apply(d, parameters=P)
    exp = {c: tuple(g[ak]) for c, g in ref_cases.items()}
    req_eq({k: tuple(x) for k, x in cv.items()}, exp, "variant per case")
    req_eq({tuple(k): n for k, n in v.items()}, dict(Counter(exp.values())), "variant counts")
    # alphabet
    al, inv = AA.apply(d.copy(), parameters={"activity_key": ak, "return_mapping": True})
    req_eq([inv[x] for x in al[ak]], list(d[ak]), "activities after the inverse of the alphabet")
    req_eq(sorted(inv), sorted(set(al[ak])), "letters of the alphabet")
    cnt = Counter(d[ak])
    by = sorted(inv, key=lambda l: (len(l), l))
    require(all(cnt[inv[x]] >= cnt[inv[y]] for x, y in zip(by, by[1:])), "letters by decreasing frequency: %s", {x: cnt[inv[x]] for x in by})


@st.composite
def many_st(draw):
    return {"n": draw(st.integers(1, 900))}


def check_many(case, ctx):
    from pm4py.objects.log.util import activities_to_alphabet as AA
    d = pd.DataFrame({"concept:name": ["act %d" % i for i in range(case["n"])]})
    al, inv = AA.apply(d.copy(), parameters={"return_mapping": True})
    req_eq(len(set(al["concept:name"])), case["n"], "distinct letters")
    req_eq([inv[x] for x in al["concept:name"]], list(d["concept:name"]), "activities after the inverse of the alphabet")
    if case["n"] > 702:
        ctx.nontrivial()


@st.composite
def tr_st(draw):
    log = draw(gen.log(n_act=3, max_len=5, max_traces=5, extra=True, resources=True))
    return {"log": log, "shuf": draw(st.lists(st.integers(0, 9), min_size=1, max_size=9)), "miss": draw(st.lists(st.booleans(), min_size=1, max_size=7)), "const": draw(st.lists(st.sampled_from([0, 0, 1]), min_size=1, max_size=5)),
            "n": draw(st.integers(0, 7)), "act": draw(st.sampled_from(gen.ACTS[:3])), "rev": draw(st.booleans()), "stream": draw(st.booleans()), "future": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "keep": draw(st.booleans())}


def mklog(case):
    log, k = EventLog(attributes={"o": "1"}, classifiers={"Activity classifier": ["concept:name", "org:resource"], "cc": ["concept:name", "kind"]}), 0
    for i, c in enumerate(case["log"]["cases"]):
        t = Trace(attributes={"concept:name": c["id"], "kind": "k%d" % (i % 2)})
        es = sorted(enumerate(c["events"]), key=lambda p: (case["shuf"][p[0] % len(case["shuf"])], p[0]))
        for j, e in es:
            ev = {"concept:name": e["a"], "time:timestamp": build.ts(e["t"]), "org:resource": e["r"], "x": e["x"], "uid": k, "same": case["const"][i % len(case["const"])], "mix": case["const"][k % len(case["const"])]}
            if not case["miss"][k % len(case["miss"])]:
                ev["opt"] = "v"
            k += 1
            t.append(Event(ev))
        log.append(t)
    return log


def check_tr(case, ctx):
    from pm4py.objects.log.util import sorting as S, sampling as SA, get_prefixes as GP, move_attrs_to_trace as MV, insert_classifier as IC, index_attribute as IX, log as LU, artificial as AR, basic_filter as BF, get_class_representation as CR
    import copy
    log = mklog(case)
    base = evs(log)
    tk, ak = "time:timestamp", "concept:name"
    ids = [t.attributes["concept:name"] for t in log]
    if len(base) > 1 and any(len(t) > 2 for t in base):
        ctx.nontrivial()
    same = lambda what: req_eq((evs(log), [dict(t.attributes) for t in log]), (base, [{"concept:name": i, "kind": "k%d" % (n % 2)} for n, i in enumerate(ids)]), "%s: the log handed in" % what)
    # sorting
    s = S.sort_timestamp(log, reverse_sort=case["rev"])
    same("sort")
    exp = [(sorted(t, key=lambda e: e[tk], reverse=case["rev"]), i) for t, i in zip(base, ids) if t]
    exp.sort(key=lambda p: p[0][0][tk], reverse=case["rev"])
    req_eq([(evs([t])[0], t.attributes["concept:name"]) for t in s], exp, "sorted log")
    req_eq(dict(s.attributes), {"o": "1"}, "attributes of the sorted log")
    stream = EventStream([Event(e) for t in base for e in t])
    ss = S.sort_timestamp(stream, reverse_sort=case["rev"])
    req_eq([dict(e) for e in ss], sorted([e for t in base for e in t], key=lambda e: e[tk], reverse=case["rev"]), "sorted stream")
    sl = S.sort_lambda(log, lambda t: (len(t), t.attributes["concept:name"]), reverse=case["rev"])
    req_eq([t.attributes["concept:name"] for t in sl], [i for _, i in sorted(((len(t), i) for t, i in zip(base, ids)), reverse=case["rev"])], "log sorted by a function")
    sl = S.sort_lambda(stream, lambda e: -e["uid"], reverse=case["rev"])
    req_eq([e["uid"] for e in sl], sorted([e["uid"] for t in base for e in t], reverse=not case["rev"]), "stream sorted by a function")
    # sampling
    random.seed(case["seed"])
    sm = SA.sample(log, n=case["n"])
    req_eq(len(sm), min(case["n"], len(log)), "sampled cases")
    pool = Counter(map(repr, base))
    require(not Counter(map(repr, evs(sm))) - pool, "sampled cases are cases of the log")
    sm = SA.sample(stream, n=case["n"])
    u = [e["uid"] for e in sm]
    require(len(u) == len(set(u)) == min(case["n"], len(stream)), "sampled events %s", u)
    same("sample")
    # prefixes
    p = GP.get_prefixes_from_log(log, case["n"])
    req_eq([(evs([t])[0], dict(t.attributes)) for t in p], [(t[:case["n"]], dict(l.attributes)) for t, l in zip(base, log)], "prefixes")
    same("prefixes")
    # cut before the first occurrence of an activity
    r, times = GP.get_log_traces_until_activity(log, case["act"], parameters={"use_future_attributes": case["future"]})
    exp, et = [], []
    for t, l in zip(base, log):
        j = next((j for j, e in enumerate(t) if e[ak] == case["act"]), None)
        if j:
            fut = [{k: v for k, v in e.items() if k != ak} for e in t[j + 1:]] if case["future"] else []
            exp.append((t[:j] + fut, dict(l.attributes)))
            et.append((t[j][tk] - t[j - 1][tk]).total_seconds())
    req_eq([(evs([t])[0], dict(t.attributes)) for t in r], exp, "traces until %s" % case["act"])
    req_eq(times, et, "times to %s" % case["act"])
    same("traces until")
    acts3 = gen.ACTS[:3]
    ll, ca = GP.get_log_traces_to_activities(log, acts3[:2], parameters={})
    exp = []
    for a in acts3[:2]:
        o = [x for x in acts3[:2] if x != a]
        f = [t[:next(j for j, e in enumerate(t) if e[ak] == a)] for t in base if any(e[ak] == a for e in t) and not any(e[ak] in o for e in t) and t[0][ak] != a]
        if f:
            exp.append((a, f))
    req_eq(list(zip(ca, [evs(x) for x in ll])), exp, "traces to the activities")
    same("traces to activities")
    # artificial start and end
    r = AR.insert_artificial_start_end(log)
    same("artificial")
    for t, b, l in zip(r, base, log):
        req_eq([e[ak] for e in t], ["\u25b6"] + [e[ak] for e in b] + ["\u25a0"], "log with artificial start and end")
        req_eq(evs([t])[0][1:-1], b, "events between the artificial ones")
        req_eq(dict(t.attributes), dict(l.attributes), "case attributes with artificial events")
        if b:
            require(t[0][tk] < b[0][tk] and t[-1][tk] > b[-1][tk], "artificial timestamps")
    r = LU.add_artficial_start_and_end(copy.deepcopy(log), start="S", end="E")
    req_eq([[e[ak] for e in t] for t in r], [["S"] + [e[ak] for e in b] + ["E"] for b in base], "artificial start and end (log utilities)")
    # labels, variants, projections
    for key in (ak, "opt", "x"):
        vals = [e[key] for t in base for e in t if key in e]
        req_eq(LU.get_event_labels(log, key), list(dict.fromkeys(vals)), "labels of %s" % key)
        req_eq(LU.get_event_labels_counted(log, key), dict(Counter(vals)), "counted labels of %s" % key)
    vs, vm = LU.get_trace_variants(log)
    req_eq(vs, [list(v) for v in dict.fromkeys(tuple(e[ak] for e in t) for t in base)], "variants")
    for i, v in enumerate(vs):
        req_eq([evs([t])[0] for t in vm[i]], [t for t in base if [e[ak] for e in t] == v], "traces of the variant %s" % v)
    req_eq(LU.project_traces(log), [[e[ak] for e in t] for t in base], "projection on the activity")
    req_eq(LU.project_traces(log, keys=[ak, "x"]), [[{ak: e[ak], "x": e["x"]} for e in t] for t in base], "projection on two attributes")
    # basic filters
    vals = [case["act"]]
    req_eq(evs(BF.filter_log_traces_attr(log, vals, parameters={"positive": case["rev"]})), [t for t in base if t and any(e[ak] in vals for e in t) == case["rev"]], "traces with the attribute value")
    same("filter")
    # classes
    tg, cl = CR.get_class_representation_by_str_ev_attr_value_presence(log, ak, case["act"])
    req_eq([cl[i] for i in tg], [str(any(e[ak] == case["act"] for e in t)) for t in base], "classes by presence")
    tg, cl = CR.get_class_representation_by_str_ev_attr_value_value(log, "opt")
    req_eq([cl[i] for i in tg], [next((e["opt"] for e in reversed(t) if "opt" in e), "UNDEFINED") for t in base], "classes by value")
    tgt = case["n"] * 700
    tg, cl = CR.get_class_representation_by_trace_duration(log, tgt)
    req_eq([cl[i] for i in tg], ["GREATER" if t and (t[-1][tk] - t[0][tk]).total_seconds() > tgt else "LESSEQUAL" for t in base], "classes by duration")
    # attributes moved to the case
    m = MV.apply(log, parameters={"enable_deepcopy": True})
    same("move attributes")
    keys = {"x", "uid", "same", "mix", "opt"}
    cand = {k for k in keys if all(t and all(k in e for e in t) and len({e[k] for e in t}) == 1 for t in base)}
    for t, b, i in zip(m, base, ids):
        req_eq(evs([t])[0], [{k: v for k, v in e.items() if k not in cand} for e in b], "events after moving %s" % sorted(cand))
        req_eq({k: v for k, v in t.attributes.items() if k not in ("concept:name", "kind")}, {k: b[0][k] for k in cand}, "moved attributes")
    if cand:
        ctx.label("moved")
    if all(base):
        m = LU.derive_and_lift_trace_attributes_from_event_attributes(copy.deepcopy(log), ignore={ak}, retain_on_event_level=case["keep"])
        cand = {k for k in base[0][0] if k != ak and all(all(k in e for e in t) and len({e[k] for e in t}) == 1 for t in base)}
        for t, b in zip(m, base):
            req_eq(evs([t])[0], [{k: v for k, v in e.items() if case["keep"] or k not in cand} for e in b], "events after lifting %s" % sorted(cand))
            req_eq({k: v for k, v in t.attributes.items() if k not in ("concept:name", "kind")}, {k: b[0][k] for k in cand}, "lifted attributes")
    # classifiers and indexes (they edit the log)
    w = copy.deepcopy(log)
    w, key = IC.search_act_class_attr(w)
    req_eq([[e[key] for e in t] for t in w], [[e[ak] + "+" + e["org:resource"] for e in t] for t in base], "activity classifier")
    w, key = IC.insert_trace_classifier_attribute(w, "cc")
    req_eq([t.attributes[key] for t in w], [t.attributes["concept:name"] + "+" + t.attributes["kind"] for t in log], "case classifier")
    w = IX.insert_trace_index_as_event_attribute(copy.deepcopy(log))
    req_eq([[e["@@traceindex"] for e in t] for t in w], [[i + 1] * len(t) for i, t in enumerate(base)], "case index")
    w = IX.insert_event_index_as_event_attribute(EventStream([Event(e) for t in base for e in t]))
    req_eq([e["@@eventindex"] for e in w], list(range(1, sum(map(len, base)) + 1)), "event index")


UNITS = [
    Unit("lifecycle", life_st(), check_life, quick=480, shards=4, rule="a case with two intervals, one of positive length"),
    Unit("lead_time", lead_st(), check_lead, quick=480, shards=4, rule="a case with a working-time gap and working time"),
    Unit("tables", ext_st(), check_ext, quick=240, shards=4, rule="two or more cases"),
    Unit("alphabet", many_st(), check_many, quick=24, shards=1, rule="more than 702 activities (three letters)"),
    Unit("traces", tr_st(), check_tr, quick=480, shards=4, rule="two or more cases, one with three or more events"),
]

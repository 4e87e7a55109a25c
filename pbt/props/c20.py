"""C20 directly-follows / eventually-follows graphs count exactly what the cases contain"""
from collections import Counter, defaultdict
import statistics as stt
from hypothesis import strategies as st
import gen, build
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Directly-follows and eventually-follows graphs equal their definition",
    statement="For every log, the directly-follows graph has exactly the couples of activities that follow each other in a case, each with its number of occurrences, the start and end activities are counted once per case, and the performance graph holds for each couple the mean, median, min, max, sum and standard deviation of the elapsed times of exactly those occurrences (never negative; from completion to the next start where start timestamps are given). The eventually-follows graph counts all couples of events of a case, in order, the second of which does not start before the completion of the first, and the options (window, once per case, cost, triples, first follower only) select exactly the occurrences they describe.",
    over=["inputs"], quant="logs with repetitions, equal timestamps, single-event cases and overlapping intervals, as dataframes and as event logs, against counting loops",
    why="unit tests compare a few totals on fixed logs; off-by-one at case borders, equal timestamps and overlapping intervals need generated logs and an independent count",
    files=["pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/algo/discovery/dfg/adapters/pandas/freq_triples.py", "pm4py/algo/discovery/dfg/variants", "pm4py/statistics/eventually_follows", "pm4py/statistics/start_activities", "pm4py/statistics/end_activities", "pm4py/discovery.py"],
    mech=[("directly-follows on dataframes", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py"), ("directly-follows on event logs", "pm4py/algo/discovery/dfg/variants/native.py"), ("performance", "pm4py/algo/discovery/dfg/variants/performance.py"), ("typed graph", "pm4py/algo/discovery/dfg/variants/clean.py"), ("eventually follows", "pm4py/statistics/eventually_follows/pandas/get.py")])


def near(a, b, what):
    a, b = float(a), float(b)
    require(abs(a - b) <= 1e-6 * max(1, abs(b)), "%s: got %r expected %r", what, a, b)


def eq_counts(got, exp, what):
    req_eq({k: int(v) for k, v in got.items()}, dict(exp), what)


def agg(xs):
    return {"mean": sum(xs) / len(xs), "median": stt.median(xs), "max": max(xs), "min": min(xs), "sum": sum(xs), "stdev": stt.stdev(xs) if len(xs) > 1 else 0.0}


def eq_perf(got, exp, what):
    req_eq(set(got), set(exp), what + " couples")
    for k, xs in exp.items():
        a = agg(xs)
        req_eq(set(got[k]), set(a), what + " measures")
        for m in a:
            v = got[k][m]
            near(0.0 if v != v else v, a[m], "%s %s of %s" % (what, m, k))


def chk_graph(case, ctx):
    log = case["log"]
    trs = [c["events"] for c in log["cases"]]
    acts = [[e["a"] for e in t] for t in trs]
    df, el = build.fdf(log), build.elog(log)
    ctx.nontrivial(any(len(t) > 2 for t in acts))
    exp = Counter((x, y) for t in acts for x, y in zip(t, t[1:]))
    sa, ea = Counter(t[0] for t in acts), Counter(t[-1] for t in acts)
    perf = defaultdict(list)
    for t in trs:
        for e, f in zip(t, t[1:]):
            perf[(e["a"], f["a"])].append(f["t"] - e["t"])
    efg = Counter((t[i], t[j]) for t in acts for i in range(len(t)) for j in range(i + 1, len(t)))
    for nm, o in (("dataframe", df), ("event log", el)):
        g, s, e = pm4py.discover_dfg(o)
        eq_counts(g, exp, "dfg of the " + nm)
        eq_counts(s, sa, "start activities of the " + nm)
        eq_counts(e, ea, "end activities of the " + nm)
        eq_counts(pm4py.get_start_activities(o), sa, "get_start_activities of the " + nm)
        eq_counts(pm4py.get_end_activities(o), ea, "get_end_activities of the " + nm)
        g, s, e = pm4py.discover_performance_dfg(o)
        eq_perf(g, perf, "performance dfg of the " + nm)
        eq_counts(s, sa, "start activities (performance) of the " + nm)
        eq_counts(e, ea, "end activities (performance) of the " + nm)
        eq_counts(pm4py.discover_eventually_follows_graph(o), efg, "efg of the " + nm)
    t = pm4py.discover_dfg_typed(df)
    eq_counts(t.graph, exp, "typed dfg")
    eq_counts(t.start_activities, sa, "typed dfg start")
    eq_counts(t.end_activities, ea, "typed dfg end")


def chk_options(case, ctx):
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics, freq_triples
    from pm4py.algo.discovery.dfg import algorithm as dfg_alg
    from pm4py.statistics.eventually_follows.log import get as efg_log
    from pm4py.statistics.eventually_follows.pandas import get as efg_df
    log, w = case["log"], case["w"]
    trs = [c["events"] for c in log["cases"]]
    acts = [[e["a"] for e in t] for t in trs]
    df, el = build.fdf(log), build.elog(log)
    ctx.nontrivial(any(len(t) > w for t in acts))
    exp = Counter((t[i], t[i + w]) for t in acts for i in range(len(t) - w))
    eq_counts(df_statistics.get_dfg_graph(df, window=w), exp, "dataframe dfg, window %d" % w)
    eq_counts(dfg_alg.apply(el, parameters={"window": w}), exp, "event log dfg, window %d" % w)
    once = Counter(p for t in acts for p in {(t[i], t[i + w]) for i in range(len(t) - w)})
    eq_counts(df_statistics.get_dfg_graph(df, window=w, keep_once_per_case=True), once, "dataframe dfg, window %d once per case" % w)
    eq_counts(dfg_alg.apply(el, parameters={"window": w, "keep_once_per_case": True}), once, "event log dfg, window %d once per case" % w)
    tri = Counter(x for t in acts for x in zip(t, t[1:], t[2:]))
    eq_counts(freq_triples.get_freq_triples(df), tri, "dataframe triples")
    eq_counts(dfg_alg.apply(el, variant=dfg_alg.Variants.FREQ_TRIPLES), tri, "event log triples")
    # dataframe measures with window
    perf = defaultdict(list)
    for t in trs:
        for i in range(len(t) - w):
            perf[(t[i]["a"], t[i + w]["a"])].append(t[i + w]["t"] - t[i]["t"])
    for m in ("mean", "median", "min", "max", "sum"):
        g = df_statistics.get_dfg_graph(df, measure="performance", perf_aggregation_key=m, window=w)
        req_eq(set(g), set(perf), "couples of " + m)
        for k in perf:
            near(g[k], agg(perf[k])[m], "%s of %s" % (m, k))
        if w == 1:
            g = dfg_alg.apply(el, variant=dfg_alg.Variants.PERFORMANCE, parameters={"aggregationMeasure": m})
            req_eq(set(g), set(perf), "event log couples of " + m)
            for k in perf:
                near(g[k], agg(perf[k])[m], "event log %s of %s" % (m, k))
    raw = df_statistics.get_dfg_graph(df, measure="performance", perf_aggregation_key="raw_values", window=w)
    req_eq({k: sorted(map(float, v)) for k, v in raw.items()}, {k: sorted(map(float, v)) for k, v in perf.items()}, "raw values")
    f, p = df_statistics.get_dfg_graph(df, measure="both", window=w)
    eq_counts(f, exp, "both: frequency")
    for k in perf:
        near(p[k], agg(perf[k])["mean"], "both: mean of %s" % (k,))
    # cost of the second event
    cost = defaultdict(list)
    for t in trs:
        for i in range(len(t) - w):
            cost[(t[i]["a"], t[i + w]["a"])].append(t[i + w]["x"])
    g = df_statistics.get_dfg_graph(df, measure="cost", cost_attribute="x", perf_aggregation_key="sum", window=w)
    req_eq({k: float(v) for k, v in g.items()}, {k: float(sum(v)) for k, v in cost.items()}, "cost dfg")
    # missing costs are 0
    d2 = df.copy()
    d2["x"] = d2["x"].where(d2["x"] % 3 != 0)
    g = df_statistics.get_dfg_graph(d2, measure="cost", cost_attribute="x", perf_aggregation_key="sum", window=w)
    req_eq({k: float(v) for k, v in g.items()}, {k: float(sum(x for x in v if x % 3)) for k, v in cost.items()}, "cost dfg with missing costs")
    # once per case: the first occurrence
    o_t, o_c = defaultdict(list), defaultdict(list)
    for t in trs:
        seen = set()
        for i in range(len(t) - w):
            k = (t[i]["a"], t[i + w]["a"])
            if k not in seen:
                seen.add(k)
                o_t[k].append(t[i + w]["t"] - t[i]["t"])
                o_c[k].append(t[i + w]["x"])
    g = df_statistics.get_dfg_graph(df, measure="performance", perf_aggregation_key="sum", window=w, keep_once_per_case=True)
    req_eq(set(g), set(o_t), "couples once per case")
    for k in o_t:
        near(g[k], sum(o_t[k]), "time once per case of %s" % (k,))
    g = df_statistics.get_dfg_graph(df, measure="cost", cost_attribute="x", perf_aggregation_key="sum", window=w, keep_once_per_case=True)
    req_eq({k: float(v) for k, v in g.items()}, {k: float(sum(v)) for k, v in o_c.items()}, "cost once per case")
    # case attributes
    g, n = dfg_alg.apply(el, variant=dfg_alg.Variants.CASE_ATTRIBUTES, parameters={"return_nodes_attributes": True})
    ref = {}
    for c, t in zip(log["cases"], acts):
        for x in zip(t, t[1:]):
            d = ref.setdefault(x, {"concept:name": {}})["concept:name"]
            d[c["id"]] = d.get(c["id"], 0) + 1
    req_eq({k: {a: dict(v) for a, v in d.items()} for k, d in g.items()}, ref, "dfg with case attributes")
    refn = {}
    for c, t in zip(log["cases"], acts):
        for x in t:
            d = refn.setdefault(x, {"concept:name": {}})["concept:name"]
            d[c["id"]] = d.get(c["id"], 0) + 1
    req_eq(n, refn, "activities with case attributes")
    # first follower only: the next event (all events are points)
    first = Counter(x for t in acts for x in zip(t, t[1:]))
    eq_counts(efg_df.apply(df, parameters={"keep_first_following": True}), first, "dataframe efg, first follower")
    eq_counts(efg_log.apply(el, parameters={"keep_first_following": True}), first, "event log efg, first follower")


def chk_interval(case, ctx):
    """start timestamps: events ordered by (start, completion); distances from completion to next start"""
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics
    from pm4py.algo.discovery.dfg import algorithm as dfg_alg
    from pm4py.statistics.eventually_follows.log import get as efg_log
    from pm4py.statistics.eventually_follows.pandas import get as efg_df
    from pm4py.statistics.concurrent_activities.log import get as conc_log
    from pm4py.statistics.concurrent_activities.pandas import get as conc_df
    log = case["log"]
    srt = {"cases": [{"id": c["id"], "events": sorted(c["events"], key=lambda e: (e["s"], e["t"]))} for c in log["cases"]]}
    df = build.df(log, sk="begin")  # a dataframe with its own event index keeps that order between events at the same instant
    el = build.elog(srt, sk="begin")
    trs = [c["events"] for c in srt["cases"]]
    perf, fr, efg, first, conc, sconc = defaultdict(list), Counter(), Counter(), Counter(), Counter(), Counter()
    for t in trs:
        for e, f in zip(t, t[1:]):
            perf[(e["a"], f["a"])].append(max(0, f["s"] - e["t"]))
            fr[(e["a"], f["a"])] += 1
        for i, e in enumerate(t):
            fol = [f for f in t[i + 1:] if f["s"] >= e["t"]]
            for f in fol:
                efg[(e["a"], f["a"])] += 1
            if fol:
                first[(e["a"], fol[0]["a"])] += 1
            for f in t[i + 1:]:
                inter = min(e["t"], f["t"]) - max(e["s"], f["s"])
                k = tuple(sorted((e["a"], f["a"])))
                conc[k] += inter >= 0
                sconc[k] += inter > 0
    ctx.nontrivial(any(f["s"] < e["t"] for t in trs for e, f in zip(t, t[1:])))
    P = {"start_timestamp_key": "begin", "pm4py:param:start_timestamp_key": "begin"}
    eq_counts(df_statistics.get_dfg_graph(df, start_timestamp_key="begin"), fr, "dfg by start")
    eq_perf(rename(df_statistics.get_dfg_graph(df, measure="performance", perf_aggregation_key="all", start_timestamp_key="begin")), perf, "interval performance of the dataframe")
    eq_perf(dfg_alg.apply(el, variant=dfg_alg.Variants.PERFORMANCE, parameters={"pm4py:param:start_timestamp_key": "begin", "aggregationMeasure": "all"}), perf, "interval performance of the event log")
    for key, ref in ((False, efg), (True, first)):
        eq_counts(efg_df.apply(df, parameters={efg_df.Parameters.START_TIMESTAMP_KEY: "begin", "keep_first_following": key}), ref, "interval efg of the dataframe, first=%s" % key)
        eq_counts(efg_log.apply(el, parameters={efg_log.Parameters.START_TIMESTAMP_KEY: "begin", "keep_first_following": key}), ref, "interval efg of the event log, first=%s" % key)
    for strict, ref in ((False, conc), (True, sconc)):
        ref = {k: v for k, v in ref.items() if v}
        eq_counts(conc_df.apply(df, parameters={conc_df.Parameters.START_TIMESTAMP_KEY: "begin", "strict": strict}), ref, "concurrent activities of the dataframe, strict=%s" % strict)
        eq_counts(conc_log.apply(el, parameters={conc_log.Parameters.START_TIMESTAMP_KEY: "begin", "strict": strict}), ref, "concurrent activities of the event log, strict=%s" % strict)


def rename(g):
    return g


LOG = gen.log(max_len=7, odd=0.2, extra=True)
UNITS = [
    Unit("graphs", st.fixed_dictionaries({"log": LOG}), chk_graph, 200, shards=2, rule="a case with more than two events"),
    Unit("options", st.fixed_dictionaries({"log": gen.log(max_len=7, extra=True, min_traces=1), "w": st.integers(1, 3)}), chk_options, 160, shards=2, rule="a case longer than the window"),
    Unit("intervals", st.fixed_dictionaries({"log": gen.log(max_len=6, start_ts=True, gap=6)}), chk_interval, 200, shards=2, rule="two consecutive events of a case overlap"),
]

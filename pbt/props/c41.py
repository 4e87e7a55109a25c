"""C41 time statistics"""
from collections import Counter, defaultdict
from hypothesis import strategies as st
import statistics
import gen, build
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Durations, service, cycle, arrival times and overlaps are exact",
    statement="For every event log and dataframe (any timestamp resolution, interval events, rows of different cases interleaved), the case durations, start and end times, the case listing (sorting, limit), the average arrival and dispersion times, the service time per activity under each aggregation, the cycle time (union of the busy intervals divided by the number of cases) and the passed times before/after an activity are the ones computed from the timestamps of the events of each case. "
              "The overlap of a case or event is the number of cases or events, itself included, whose closed interval intersects its own.",
    over=["inputs"], quant="generated logs with equal instants, intervals, gaps and several timestamp resolutions",
    why="tests compare few numbers on the same logs; ties, single cases, nested or touching intervals and non-nanosecond columns are not sampled",
    files=["pm4py/statistics/traces", "pm4py/statistics/service_time", "pm4py/statistics/overlap", "pm4py/statistics/passed_time", "pm4py/stats.py"],
    mech=[("get_cases_description", "pm4py/statistics/traces/generic/pandas/case_statistics.py"), ("cycle_time", "pm4py/statistics/traces/cycle_time/util/compute.py"), ("overlap.apply", "pm4py/statistics/overlap/utils/compute.py")])


@st.composite
def case_st(draw, start=None):
    s = draw(st.sampled_from([False, True, "mono"])) if start is None else start
    log = draw(gen.log(n_act=3, max_len=5, max_traces=6, min_traces=1, equal_ts=0.3, start_ts=s, gap=draw(st.sampled_from([3, 50, 5000]))))
    n = sum(len(c["events"]) for c in log["cases"])
    return {"log": log, "form": draw(st.sampled_from(["log", "df", "raw", "shuffled"])), "order": draw(st.permutations(range(n))), "pick": draw(st.integers(0, 20)),
            "unit": draw(st.sampled_from(["ns", "ns", "us", "ms", "s"]))}


def make(case):
    log = case["log"]
    if case["form"] == "log":
        return build.elog(log, sk="begin")
    d = build.df(log, sk="begin")
    for c in ("time:timestamp", "begin"):
        if c in d:
            d[c] = d[c].dt.as_unit(case["unit"])
    if case["form"] == "df":
        d = pm4py.format_dataframe(d)
    elif case["form"] == "shuffled":
        cid = d["case:concept:name"].tolist()
        pos = defaultdict(list)
        for i, c in enumerate(cid):
            pos[c].append(i)
        d = d.iloc[[pos[cid[i]].pop(0) for i in case["order"]]].reset_index(drop=True)
    return d


def mods(case):
    if case["form"] == "log":
        from pm4py.statistics.traces.generic.log import case_statistics as cs, case_arrival as ca
    else:
        from pm4py.statistics.traces.generic.pandas import case_statistics as cs, case_arrival as ca
    return cs, ca


def near(a, b, what):
    require(abs(float(a) - float(b)) <= 1e-4 * max(1, abs(b)), "%s: got %s expected %s", what, a, b)


def check_cases(case, ctx):
    S = {c["id"]: [e["t"] for e in c["events"]] for c in case["log"]["cases"]}
    cs, ca = mods(case)
    exp = {c: (gen.BASE + t[0], gen.BASE + t[-1], t[-1] - t[0]) for c, t in S.items()}
    durs = sorted(float(x[2]) for x in exp.values())
    o = make(case)
    d = cs.get_cases_description(o)
    req_eq({c: (int(x["startTime"]), int(x["endTime"]), round(float(x["caseDuration"]), 4)) for c, x in d.items()}, {c: (x[0], x[1], float(x[2])) for c, x in exp.items()}, "cases description")
    st_ = [x["startTime"] for x in d.values()]
    require(case["form"] == "log" or st_ == sorted(st_), "cases are sorted by their start: %s", st_)
    k, asc = case["pick"] % 4 + 1, case["pick"] % 2 == 0
    col = ["startTime", "endTime", "caseDuration"][case["pick"] % 3]
    P = {"sort_by_index": 1 + case["pick"] % 3} if case["form"] == "log" else {"sort_by_column": col}
    d2 = cs.get_cases_description(make(case), parameters={"max_ret_cases": k, "sort_ascending": asc, **P})
    ix = case["pick"] % 3
    vals = [round(float(x[col]), 3) for x in d2.values()]
    req_eq(vals, sorted((float(x[ix]) for x in exp.values()), reverse=not asc)[:k], "the first %d cases by %s" % (k, col))
    for c, x in d2.items():
        req_eq(round(float(x["caseDuration"]), 4), float(exp[c][2]), "duration of %s" % c)
    req_eq([round(float(x), 4) for x in pm4py.get_all_case_durations(make(case))], durs, "all case durations")
    req_eq([round(float(x), 4) for x in cs.get_all_case_durations(make(case))], durs, "all case durations")
    near(cs.get_median_case_duration(make(case)), durs[len(durs) // 2], "median duration")
    for c in list(S)[:2]:
        kw = {} if case["form"] == "log" else {"case_id_key": "case:concept:name"}
        near(pm4py.get_case_duration(make(case), c, **kw), exp[c][2], "duration of %s" % c)
        ev = cs.get_events(make(case), c)
        req_eq([int(e["time:timestamp"].timestamp()) - gen.BASE for e in ev], S[c], "events of %s" % c)
    for what, got, t in (("arrival", [pm4py.get_case_arrival_average(make(case)), ca.get_case_arrival_avg(make(case))], sorted(x[0] for x in exp.values())),
                         ("dispersion", [ca.get_case_dispersion_avg(make(case))], sorted(x[1] for x in exp.values()))):
        if len(t) > 1:
            for g in got:
                near(g, (t[-1] - t[0]) / (len(t) - 1), "average " + what)
    if case["form"] != "log":
        V = cs.get_variants_df_with_case_duration(make(case))
        req_eq({c: (tuple(v), round(float(x), 4)) for c, v, x in zip(V.index.tolist(), V["variant"].tolist(), V["caseDuration"].tolist())},
               {c["id"]: (tuple(e["a"] for e in c["events"]), float(exp[c["id"]][2])) for c in case["log"]["cases"]}, "variants with durations")
    VC = Counter(tuple(e["a"] for e in c["events"]) for c in case["log"]["cases"])
    vs = cs.get_variant_statistics(make(case))
    key = "count" if case["form"] == "log" else "case:concept:name"
    req_eq({tuple(v["variant"]): v[key] for v in vs}, dict(VC), "variant statistics")
    top = cs.get_variant_statistics(make(case), parameters={"max_variants_to_return": k})
    req_eq([v[key] for v in top], sorted(VC.values(), reverse=True)[:k], "the first %d variants" % k)
    if len(set(durs)) > 1:
        ctx.nontrivial()
    ctx.label(case["form"] if case["form"] == "log" else case["unit"])


def union(iv):
    """length of the union of closed intervals, by elementary slices"""
    pts = sorted({x for i in iv for x in i})
    return sum(b - a for a, b in zip(pts, pts[1:]) if any(s <= a and b <= e for s, e in iv))


def check_intervals(case, ctx):
    has = case["log"]["cases"] and "s" in case["log"]["cases"][0]["events"][0]
    sk = "begin" if has else "time:timestamp"
    E = [(c["id"], e["a"], e.get("s", e["t"]), e["t"]) for c in case["log"]["cases"] for e in c["events"]]
    n = len(case["log"]["cases"])
    req = {"start_timestamp_key": sk}
    P = {"pm4py:param:start_timestamp_key": sk}
    by = defaultdict(list)
    for _, a, s, e in E:
        by[a].append(e - s)
    for agg, f in (("mean", lambda l: sum(l) / len(l)), ("median", statistics.median), ("min", min), ("max", max), ("sum", sum)):
        got = pm4py.get_service_time(make(case), aggregation_measure=agg, **req)
        req_eq({a: round(float(x), 3) for a, x in got.items()}, {a: round(float(f(l)), 3) for a, l in by.items()}, "service time (%s)" % agg)
    if case["form"] == "log":
        from pm4py.statistics.traces.cycle_time.log import get as ct
        from pm4py.statistics.overlap.cases.log import get as oc
        from pm4py.statistics.overlap.interval_events.log import get as oe
    else:
        from pm4py.statistics.traces.cycle_time.pandas import get as ct
        from pm4py.statistics.overlap.cases.pandas import get as oc
        from pm4py.statistics.overlap.interval_events.pandas import get as oe
    near(ct.apply(make(case), parameters=P), union([(s, e) for _, _, s, e in E]) / n, "cycle time with the start timestamp")
    near(pm4py.get_cycle_time(make(case)), 0.0, "cycle time of atomic events")
    o = make(case)
    order = [(c["id"]) for c in case["log"]["cases"]] if case["form"] == "log" else list(dict.fromkeys(o["case:concept:name"].tolist()))
    for par, start in ((P, True), ({}, False)):
        iv = {}
        for c, a, s, e in E:
            s = s if start else e
            x = iv.setdefault(c, [s, e])
            x[0], x[1] = min(x[0], s), max(x[1], e)
        got = oc.apply(make(case), parameters=par)
        exp = [sum(1 for y in iv.values() if y[0] <= iv[c][1] and iv[c][0] <= y[1]) for c in order]
        req_eq([int(x) for x in got], exp, "case overlap (start timestamp: %s)" % start)
        if max(exp) > 1 and min(exp) < n:
            ctx.nontrivial()
        if not start:
            req_eq([int(x) for x in pm4py.get_case_overlap(make(case))], exp, "get_case_overlap")
        eps = [1e-5, 10.25][case["pick"] % 2]
        if case["form"] == "log":
            L = [(s if start else e, e) for _, _, s, e in E]
        else:
            b = [int(x.timestamp()) for x in o[sk if start else "time:timestamp"].tolist()]
            L = list(zip(b, [int(x.timestamp()) for x in o["time:timestamp"].tolist()]))
        got = oe.apply(make(case), parameters={**par, "epsilon": eps})
        w = 0 if eps < 1 else 2 * eps
        req_eq([int(x) for x in got], [sum(1 for y in L if y[0] <= x[1] + w and x[0] <= y[1] + w) for x in L], "events overlap (start timestamp: %s, epsilon %s)" % (start, eps))


def check_passed(case, ctx):
    if case["form"] == "log":
        from pm4py.statistics.passed_time.log import algorithm as pt
    else:
        from pm4py.statistics.passed_time.pandas import algorithm as pt
    F = defaultdict(list)
    for c in case["log"]["cases"]:
        for e, f in zip(c["events"], c["events"][1:]):
            F[e["a"], f["a"]].append(f["t"] - e["t"])
    if not F:
        return
    for a in sorted({x for k in F for x in k}):
        pre = {k[0]: v for k, v in F.items() if k[1] == a}
        post = {k[1]: v for k, v in F.items() if k[0] == a}
        exp = {}
        for nm, d in (("pre", pre), ("post", post)):
            allv = [x for v in d.values() for x in v]
            exp[nm] = Counter((b, round(sum(v) / len(v), 3), len(v)) for b, v in d.items())
            exp[nm + "_avg_perf"] = sum(allv) / len(allv) if allv else 0.0
        for var in (pt.Variants.PRE, pt.Variants.POST, pt.Variants.PREPOST):
            got = pt.apply(make(case), a, variant=var)
            nms = {"PRE": ["pre"], "POST": ["post"], "PREPOST": ["pre", "post"]}[var.name]
            req_eq(set(got), {x for nm in nms for x in (nm, nm + "_avg_perf")}, "keys of %s" % var.name)
            for nm in nms:
                req_eq(Counter((b, round(p, 3), n) for b, p, n in got[nm]), exp[nm], "%s of %s" % (nm, a))
                near(got[nm + "_avg_perf"], exp[nm + "_avg_perf"], "%s average of %s" % (nm, a))
        if len(pre) > 1 or len(post) > 1:
            ctx.nontrivial()


UNITS = [
    Unit("cases", case_st(start=False), check_cases, 240, rule="cases with different durations"),
    Unit("intervals", case_st(), check_intervals, 240, shards=2, rule="some cases overlap, some do not"),
    Unit("passed", case_st(start=False), check_passed, 160, rule="an activity with several predecessors or successors"),
]

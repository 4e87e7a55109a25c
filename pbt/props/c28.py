"""C28 temporal profiles, business hours and temporal conformance"""
import math, random, statistics, sys, warnings
from collections import defaultdict
from datetime import datetime, timedelta, timezone
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.discovery.temporal_profile import algorithm as tpd
from pm4py.algo.conformance.temporal_profile import algorithm as tpc
from pm4py.util.business_hours import BusinessHours, soj_time_business_hours_diff
from pm4py.util import constants

META = dict(
    title="Temporal profiles average the times between activities; deviations are exact",
    statement="The temporal profile of a log gives, for every pair of activities where an event of the second one starts at or after the completion of an earlier event of the first one, the mean and the sample standard deviation of those times - in seconds of working time when business hours are requested. Conformance reports exactly the pairs of events of each case whose time lies outside mean +- zeta standard deviations, with the time and its distance in standard deviations, for each case and in the diagnostics table. Working time between two moments is the length of the part covered by the weekly slots.",
    over=["inputs"], quant="logs with ties, overlapping intervals and custom keys x profiles x zeta x weekly slots x pairs of moments",
    why="tests discover one profile; missing pairs, zero deviations, intervals over several weeks and key handling decide the rest",
    oracle="direct evaluation over all pairs of events; working time as intersection of the interval with all weekly slots",
    limits="Deviations within 1e-6 of the threshold are not judged; slots lie inside one week and are not separated by exactly one second (such neighbours are merged); time stamps are UTC.",
    files=["pm4py/algo/discovery/temporal_profile", "pm4py/algo/conformance/temporal_profile", "pm4py/util/business_hours.py", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/discovery.py", "pm4py/conformance.py"],
    mech=[("discovery", "pm4py/algo/discovery/temporal_profile/variants/log.py"), ("conformance", "pm4py/algo/conformance/temporal_profile/variants/log.py"), ("partial order table", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py"), ("working time", "pm4py/util/business_hours.py")])
warnings.simplefilter("ignore")
T0 = datetime(2024, 3, 6, 9, 30, tzinfo=timezone.utc)      # a Wednesday
FLAG = st.sampled_from([False] * 4 + [True])
WEEK = 7 * 86400


@st.composite
def slots_(draw):
    if draw(st.booleans()):
        return None
    out = []
    for _ in range(draw(st.integers(1, 4))):
        a = draw(st.sampled_from([0, 3600, 86400, 5 * 86400 + 7, 6 * 86400 + 3600, 2 * 86400 + 36000])) + draw(st.integers(0, 30)) * 600
        out.append((min(a, WEEK - 10), min(a + draw(st.sampled_from([60, 3600, 30000, 100000, 300000])), WEEK)))
    return out


def merge(slots):
    out = []
    for a, b in sorted(slots):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def working(d1, d2, slots):
    """length of the part of [d1, d2] covered by the weekly slots"""
    slots = merge(slots if slots is not None else constants.DEFAULT_BUSINESS_HOUR_SLOTS)
    d1, d2 = d1.replace(tzinfo=None), d2.replace(tzinfo=None)
    if d2 <= d1:
        return 0.0
    base = datetime(2024, 1, 1)          # a Monday
    a, b = (d1 - base).total_seconds(), (d2 - base).total_seconds()
    tot = 0.0
    for w in range(math.floor(a / WEEK), math.floor(b / WEEK) + 1):
        for s, e in slots:
            tot += max(0.0, min(b, w * WEEK + e) - max(a, w * WEEK + s))
    return tot


@st.composite
def case_(draw):
    acts = "abcd"[:draw(st.integers(1, 4))]
    scale = draw(st.sampled_from([1, 60, 7200, 90000, 400000]))
    cases = []
    for _ in range(draw(st.integers(1, 6))):
        t = draw(st.integers(0, 5)) * scale
        evs = []
        for _ in range(draw(st.integers(1, 5))):
            t += draw(st.sampled_from([0, 1, 1, 2, 3, 7])) * scale
            d = draw(st.sampled_from([0, 0, 1, 2, 5])) * scale
            evs.append([draw(st.sampled_from(acts)), t, t + d])
        cases.append(evs)
    return dict(cases=cases, start=draw(st.booleans()), keys=draw(FLAG), bh=draw(st.sampled_from([False, False, True])), slots=draw(slots_()),
                zeta=draw(st.sampled_from([0.0, 0.5, 1.0, 1.7, 3.0])), seed=draw(st.integers(0, 999)), unsorted=draw(FLAG), other=draw(st.integers(0, 3)), index=draw(FLAG))


def times(evs, bh, slots):
    for i in range(len(evs)):
        for j in range(i + 1, len(evs)):
            d = (evs[j][1] - evs[i][2]).total_seconds()
            if d >= 0:
                yield evs[i][0], evs[j][0], working(evs[i][2], evs[j][1], slots) if bh else d


def near(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def same_profile(got, exp, what):
    req_eq(set(got), set(exp), what + ": pairs of activities")
    for p in exp:
        require(near(got[p][0], exp[p][0]) and near(got[p][1], exp[p][1]), "%s: profile of %r is %r, expected %r", what, p, tuple(map(float, got[p])), exp[p])


def chk_tp(case, ctx):
    bh, slots = case["bh"], case["slots"]
    A, T, S, C = ("act", "done", "begin", "cid") if case["keys"] else ("concept:name", "time:timestamp", "begin", "case:concept:name")
    start = case["start"]
    rnd = random.Random(case["seed"])
    cases = []
    for evs in case["cases"]:
        e2 = [(a, T0 + timedelta(seconds=(s if start else e)), T0 + timedelta(seconds=e)) for a, s, e in evs]
        if case["unsorted"]:
            rnd.shuffle(e2)
        else:
            e2.sort(key=lambda x: x[1:])
        cases.append(e2)
    par = {"pm4py:param:activity_key": A, "pm4py:param:timestamp_key": T, "pm4py:param:case_id_key": C}
    if start:
        par["pm4py:param:start_timestamp_key"] = S
    if bh:
        par["business_hours"] = True
        if slots is not None:
            par["business_hour_slots"] = slots
    log = EventLog()
    rows = []
    for n, evs in enumerate(cases):
        tr = Trace(attributes={"concept:name": "k%02d" % (n * 7 % 10)})
        for a, s, e in evs:
            tr.append(Event({A: a, T: e, **({S: s} if start else {})}))
            rows.append({C: "k%02d" % (n * 7 % 10), A: a, T: e, **({S: s} if start else {})})
        log.append(tr)
    df = pd.DataFrame(rows)
    if case["index"]:
        df["@@index"] = range(len(df))
    if case["unsorted"]:
        cases_df = [sorted(x, key=lambda e: e[1:]) for x in cases]
    else:
        cases_df = cases
    ties = any(len({x[1:] for x in c}) < len(c) for c in cases)
    rec = defaultdict(list)

    def profile(cs):
        rec = defaultdict(list)
        for evs in cs:
            for a, b, d in times(evs, bh, slots):
                rec[a, b].append(d)
        return {p: (statistics.mean(v), statistics.stdev(v) if len(v) > 1 else 0) for p, v in rec.items()}
    exp = profile(cases)
    lp = dict(par)
    lp.pop("pm4py:param:case_id_key")
    tp = tpd.apply(log, parameters=lp)
    same_profile(tp, exp, "event log")
    dfok = not (case["unsorted"] and (ties or case["index"]))
    if dfok:
        tpdf = tpd.apply(df.copy(), parameters=par)
        same_profile(tpdf, profile(cases_df), "dataframe")
    ctx.nontrivial(len(exp) >= 3 and any(v[1] > 0 for v in exp.values()) and (not bh or any(v[0] > 0 for v in exp.values())))
    # conformance with a profile of the log, or one with other values
    prof = {p: (m + (0 if (hash_(p) + case["other"]) % 3 else 2.5), s * (0.5 if case["other"] else 1)) for p, (m, s) in exp.items() if (hash_(p) + case["seed"]) % 5 or not case["other"]}
    if case["other"] == 3:
        prof["zz", "a"] = (1.0, 2.0)
    z = case["zeta"]

    def expected(cs):
        out, skip = [], []
        for evs in cs:
            l, fuzzy = [], False
            for a, b, d in times(evs, bh, slots):
                if (a, b) in prof:
                    m, s = prof[a, b]
                    if (abs(abs(d - m) - z * s) < 1e-6 and d != m) or (abs(d - m) < 1e-6 and z * s < 1e-6 and d != m):
                        fuzzy = True
                    if d < m - z * s or d > m + z * s:
                        l.append((a, b, d, abs(d - m) / s if s > 0 else sys.maxsize))
            out.append(l)
            skip.append(fuzzy)
        return out, skip

    def compare(got, cs, what):
        out, skip = expected(cs)
        req_eq(len(got), len(out), what + ": number of cases")
        for g, e, f in zip(got, out, skip):
            if not f:
                g2, e2 = sorted(g), sorted(e)
                require(len(g2) == len(e2) and all(x[:2] == y[:2] and near(x[2], y[2]) and near(x[3], y[3]) for x, y in zip(g2, e2)), "%s: deviations %r, expected %r", what, g2, e2)
    res = tpc.apply(log, prof, parameters={**lp, "zeta": z})
    compare(res, cases, "event log")
    if any(res):
        ctx.label("deviations")
    if dfok:
        rdf = tpc.apply(df.copy(), prof, parameters={**par, "zeta": z})
        compare(rdf, cases_df, "dataframe")
    dia = tpc.get_diagnostics_dataframe(log, res, parameters=lp)
    ids = [t.attributes["concept:name"] for t in log]
    got = sorted(tuple(r) for r in dia[["case", "source_activity", "target_activity", "throughput", "num_st_devs"]].itertuples(index=False))
    exp_rows = sorted((i, *d) for i, l in zip(ids, res) for d in l)
    require(len(got) == len(exp_rows) and all(g[:3] == e[:3] and near(g[3], e[3]) and near(g[4], e[4]) for g, e in zip(got, exp_rows)), "diagnostics table %r, expected %r", got, exp_rows)
    if not bh and not start and dfok:
        k = dict(activity_key=A, timestamp_key=T, case_id_key=C)
        same_profile(pm4py.discover_temporal_profile(df.copy(), **k), profile(cases_df), "pm4py.discover_temporal_profile")
        compare(pm4py.conformance_temporal_profile(df.copy(), prof, zeta=z, **k), cases_df, "pm4py.conformance_temporal_profile")
        dd = pm4py.conformance_temporal_profile(df.copy(), prof, zeta=z, return_diagnostics_dataframe=True, **k)
        got = sorted((r.case, r.source_activity, r.target_activity) for r in dd.itertuples())
        req_eq(got, sorted((i, *d[:2]) for i, l in zip(pd.unique(df[C]), rdf) for d in l), "diagnostics table of the dataframe")


def hash_(p):
    return sum(ord(c) * (i + 1) for i, c in enumerate("".join(p)))


@st.composite
def bh_case(draw):
    a = draw(st.integers(0, 30 * 86400))
    return dict(a=a, d=draw(st.sampled_from([-100, 0, 1, 59, 3600, 50000, 86400, 400000, WEEK, 2 * WEEK, 3 * WEEK + 12345])) + draw(st.integers(0, 100)) * 77, cut=draw(st.integers(0, 100)), slots=draw(slots_()), us=draw(st.sampled_from([0, 0, 500000])))


def chk_bh(case, ctx):
    d1 = T0 + timedelta(seconds=case["a"], microseconds=case["us"])
    d2 = d1 + timedelta(seconds=case["d"])
    kw = {} if case["slots"] is None else {"business_hour_slots": case["slots"]}
    exp = working(d1, d2, case["slots"])
    for what, x in (("BusinessHours", BusinessHours(d1, d2, **kw).get_seconds()), ("soj_time_business_hours_diff", soj_time_business_hours_diff(d1, d2, case["slots"] if case["slots"] is not None else constants.DEFAULT_BUSINESS_HOUR_SLOTS)),
                    ("BusinessHours of pandas timestamps", BusinessHours(pd.Timestamp(d1), pd.Timestamp(d2), **kw).get_seconds())):
        require(near(x, exp), "%s between %s and %s with %s is %s, expected %s", what, d1, d2, case["slots"], x, exp)
    ctx.nontrivial(0 < exp < (d2 - d1).total_seconds())
    if case["d"] > 0:
        mid = d1 + (d2 - d1) * case["cut"] / 100
        a, b = BusinessHours(d1, mid, **kw).get_seconds(), BusinessHours(mid, d2, **kw).get_seconds()
        require(near(a + b, exp), "working time of the halves %s + %s, of the whole %s", a, b, exp)


UNITS = [Unit("profile", case_(), chk_tp, quick=600, shards=2, rule=">= 3 pairs of activities, a positive deviation; with business hours a positive working time"),
         Unit("business_hours", bh_case(), chk_bh, quick=1500, rule="the interval is covered in part")]

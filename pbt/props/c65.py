"""C65 time columns of cases and columnar tables"""
from datetime import timedelta
import pandas as pd
from hypothesis import strategies as st
import gen
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from props.c28 import T0

META = dict(
    title="Arrival, finish, service, sojourn and waiting times of cases; tables as logs",
    statement="The columns inserted for a case hold on each of its events the time since the previous case started and ended (0 for the first), the sum of the durations of its events, the time from its first start to its last end, and the difference of the two, for dataframes and event logs, and every other column and the order of the events stay. "
              "An Arrow table read as a stream or log, with columns in the legacy naming or not, gives the events of the table in order, grouped by case.",
    over=["inputs"], quant="generated interval logs with ties, equal arrivals, interleaved cases, fractions of seconds, renamed columns and time zones",
    why="tests only call the functions; ties, overlapping events and interleaved cases decide the values",
    files=["pm4py/util/pandas_utils.py", "pm4py/analysis.py", "pm4py/objects/log/util/dataframe_utils.py"],
    mech=[("insert_case_arrival_finish_rate", "pm4py/util/pandas_utils.py"), ("insert_case_service_waiting_time", "pm4py/util/pandas_utils.py"), ("table_to_log", "pm4py/objects/log/util/dataframe_utils.py")],
    limits="Of cases that start (or end) together one has the time since the previous group and the others 0; the finish rate looks at the previous case to end.")


@st.composite
def rows_st(draw):
    unit = draw(st.sampled_from([1, 0.001, 3600, 40000, 0.000001]))
    n = draw(st.integers(1, 4))
    ids = draw(st.lists(st.sampled_from(["a", "b", "10", "9", "x y", "c"]), min_size=n, max_size=n, unique=True))
    rows = []
    for k in range(draw(st.integers(1, 9))):
        s = draw(st.integers(0, 12))
        rows.append({"c": ids[k] if k < n and k < len(ids) else draw(st.sampled_from(ids)), "a": draw(st.sampled_from(gen.ACTS)), "s": s * unit, "e": (s + draw(st.sampled_from([0, 0, 1, 2, 7]))) * unit, "x": k})
    return {"rows": rows, "start": draw(st.booleans()), "names": draw(st.booleans()), "cols": draw(st.booleans()), "tz": draw(st.sampled_from(["UTC", "UTC", None, "Europe/Berlin"])), "log": draw(st.booleans()), "low": draw(st.booleans())}


def micro(x):
    return int(round(x * 1e6))


def check_times(case, ctx):
    from pm4py.util import pandas_utils
    ck, ak, tk, sk = ("case:concept:name", "concept:name", "time:timestamp", "start_timestamp") if not case["names"] else ("case", "act", "end", "begin")
    rows = case["rows"]
    d = pd.DataFrame({ck: [r["c"] for r in rows], ak: [r["a"] for r in rows], tk: [T0 + timedelta(microseconds=micro(r["e"])) for r in rows], sk: [T0 + timedelta(microseconds=micro(r["s"])) for r in rows], "x": [r["x"] for r in rows]})
    for c in (tk, sk):
        d[c] = pd.to_datetime(d[c], utc=True)
        d[c] = d[c].dt.tz_convert(case["tz"]) if case["tz"] else d[c].dt.tz_localize(None)
    st_col = sk if case["start"] else tk
    S = {}
    for r in rows:
        s, e = micro(r["s"] if case["start"] else r["e"]), micro(r["e"])
        S.setdefault(r["c"], []).append((s, e))
    first = {c: min(s for s, _ in v) for c, v in S.items()}
    last = {c: max(e for _, e in v) for c, v in S.items()}
    serv = {c: sum(e - s for s, e in v) for c, v in S.items()}
    names = ["arr", "fin", "serv", "wait", "soj"] if case["cols"] else ["@@arrival_rate", "@@finish_rate", "@@service_time", "@@waiting_time", "@@sojourn_time"]
    kw = dict(activity_key=ak, timestamp_key=tk, case_id_key=ck, start_timestamp_key=st_col)
    src = d.copy()
    if case["low"]:
        src = pandas_utils.insert_case_arrival_finish_rate(src, case_id_column=ck, timestamp_column=tk, start_timestamp_column=st_col if case["start"] else None, arrival_rate_column=names[0], finish_rate_column=names[1])
        src = pandas_utils.insert_case_service_waiting_time(src, case_id_column=ck, timestamp_column=tk, start_timestamp_column=st_col if case["start"] else None, service_time_column=names[2], waiting_time_column=names[3], sojourn_time_column=names[4])
    else:
        if case["log"] and not case["names"]:
            log = EventLog()
            for c in dict.fromkeys(r["c"] for r in rows):
                t = Trace(attributes={"concept:name": c})
                for k, r in enumerate(rows):
                    if r["c"] == c:
                        t.append(Event({ak: r["a"], tk: d[tk].iloc[k].to_pydatetime(), sk: d[sk].iloc[k].to_pydatetime(), "x": r["x"]}))
                log.append(t)
            src = log
            ctx.label("event log")
        src = pm4py.insert_case_arrival_finish_rate(src, arrival_rate_column=names[0], finish_rate_column=names[1], **kw)
        src = pm4py.insert_case_service_waiting_time(src, service_time_column=names[2], waiting_time_column=names[3], sojourn_time_column=names[4], **kw)
    out = src.to_dict("records")
    order = range(len(rows)) if not (case["log"] and not case["low"] and not case["names"]) else [k for c in dict.fromkeys(r["c"] for r in rows) for k, r in enumerate(rows) if r["c"] == c]
    req_eq([(o["x"], o[ck], o[ak]) for o in out], [(rows[k]["x"], rows[k]["c"], rows[k]["a"]) for k in order], "events")
    req_eq([(pd.Timestamp(o[tk]).timestamp(), pd.Timestamp(o[sk]).timestamp()) for o in out], [(d[tk].iloc[k].timestamp(), d[sk].iloc[k].timestamp()) for k in order], "time stamps")
    vals = {}
    for o in out:
        v = tuple(o[x] for x in names)
        require(vals.setdefault(o[ck], v) == v, "two values for the case %r: %s and %s", o[ck], vals[o[ck]], v)
    near = lambda a, b: abs(a - b * 1e-6) < 2e-6
    for c, v in vals.items():
        require(near(v[2], serv[c]), "service time of %r: %r instead of %r s", c, v[2], serv[c] * 1e-6)
        require(near(v[4], last[c] - first[c]), "sojourn time of %r: %r instead of %r s", c, v[4], (last[c] - first[c]) * 1e-6)
        require(near(v[3], last[c] - first[c] - serv[c]), "waiting time of %r: %r", c, v[3])
    for j, (what, tm) in enumerate((("arrival", first), ("finish", last))):
        prev = None
        for t in sorted(set(tm.values())):
            g = sorted(vals[c][j] for c in tm if tm[c] == t)
            exp = [0] * (len(g) - 1) + [0 if prev is None else t - prev]
            require(all(near(a, b) for a, b in zip(g, exp)), "%s rates of the cases at %s: %s instead of %s us", what, t, g, exp)
            prev = t
    ctx.nontrivial(len(S) > 1 and len(set(first.values())) > 1)


@st.composite
def table_st(draw):
    cols = draw(st.lists(st.sampled_from(["org:resource", "case:kind", "cost", "note"]), unique=True, max_size=3))
    rows = []
    for k in range(draw(st.integers(1, 8))):
        r = {"case:concept:name": draw(st.sampled_from(["1", "2", "k"])), "concept:name": draw(st.sampled_from(gen.ACTS)), "time:timestamp": k}
        for c in cols:
            r[c] = draw(st.integers(0, 5)) if c == "cost" else draw(st.sampled_from(["u", "v w", "AA"]))
        if "case:kind" in r:
            r["case:kind"] = "kind of " + r["case:concept:name"]
        rows.append(r)
    return {"rows": rows, "legacy": draw(st.booleans())}


def check_table(case, ctx):
    import pyarrow as pa
    from pm4py.objects.log.util import dataframe_utils as DU
    rows = [dict(r, **{"time:timestamp": T0 + timedelta(seconds=r["time:timestamp"])}) for r in case["rows"]]
    d = pd.DataFrame(rows)
    if case["legacy"]:
        d.columns = [c.replace(":", "AAA") for c in d.columns]
    table = pa.Table.from_pandas(d)
    flat = lambda e: {k: (pd.Timestamp(v).timestamp() if k == "time:timestamp" else v) for k, v in dict(e).items()}
    exp = [flat(r) for r in rows]
    req_eq([flat(e) for e in DU.table_to_stream(table)], exp, "table as stream")
    log = DU.table_to_log(table)
    got = [(t.attributes["concept:name"], [flat(e) for e in t]) for t in log]
    want = {c: [{k: v for k, v in e.items() if not k.startswith("case:")} for e in exp if e["case:concept:name"] == c] for c in {r["case:concept:name"] for r in rows}}
    req_eq(len(got), len(want), "number of cases of the table")
    req_eq(dict(got), want, "table as log")
    for t in log:
        if "case:kind" in rows[0]:
            req_eq(t.attributes["kind"], "kind of " + t.attributes["concept:name"], "case attribute")
    if case["legacy"]:
        req_eq(list(DU.legacy_parquet_support(d.copy()).columns), [c.replace("AAA", ":") for c in d.columns], "legacy names")
    ctx.nontrivial(len(log) > 1)


UNITS = [
    Unit("times", rows_st(), check_times, quick=800, shards=4, rule="cases that start at different times"),
    Unit("tables", table_st(), check_table, quick=300, rule="several cases"),
]

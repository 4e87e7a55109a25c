"""C04 formatting dataframes; projecting, indexing, sampling logs"""
from collections import Counter
from hypothesis import strategies as st
import gen, build, tlog
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Formatting and projecting logs keeps every event in its case and order",
    statement="format_dataframe and rebase keep exactly the rows whose case, activity and timestamp are present, with all their attributes, order every case by timestamp and then by original position, read timestamps as UTC instants, take case/activity/timestamp from the columns named by the caller as text/text/instant, and number events and cases consistently. "
              "Parsing traces from strings and projecting a log on an attribute give the listed sequences, and sampling gives the requested number of distinct complete cases (or events) of the log.",
    over=["inputs"], quant="all dataframes of up to ~12 rows with nulls, ties, interleaved cases, year-like texts, string/naive/offset timestamps and renamed columns; any sample size",
    why="tests format a few clean example files; order, nulls, ties and look-alike texts only matter on other inputs",
    files=["pm4py/utils.py", "pm4py/objects/log/util/dataframe_utils.py", "pm4py/util/pandas_utils.py", "pm4py/util/dt_parsing/variants/strpfromiso.py", "pm4py/objects/log/util/sampling.py", "pm4py/streaming/conversion/from_pandas.py"],
    mech=[("format_dataframe / rebase", "pm4py/utils.py"), ("timestamp columns", "pm4py/objects/log/util/dataframe_utils.py")])

IDS = ["c1", "c2", "2020", "2021-01-01", "10", "9", "é"]
AC = ["A", "B", "2019", "10:00", "May", "x y", "1"]
TSF = ["iso", "naive", "off", "dt", "naivedt", "frac"]
KEYS = [("case:concept:name", "concept:name", "time:timestamp"), ("case", "act", "ts"), ("case:concept:name", "act", "time:timestamp"), ("CASE ID", "concept:name", "when")]


@st.composite
def frames(draw):
    n = draw(st.integers(1, 12))
    idt = draw(st.sampled_from(["str", "str", "int"]))
    acs = draw(st.lists(st.sampled_from(AC), min_size=1, max_size=4, unique=True))
    ids = draw(st.lists(st.sampled_from(IDS if idt == "str" else [1, 2, 3, 10, 2020]), min_size=1, max_size=4, unique=True))
    nulls = draw(st.booleans())
    rows = []
    for i in range(n):
        r = {"c": draw(st.sampled_from(ids)), "a": draw(st.sampled_from(acs)), "t": draw(st.one_of(st.integers(0, 3), st.integers(0, 10 ** 7))), "x": draw(st.one_of(st.none(), st.integers(0, 5))),
             "s": draw(st.sampled_from(["p", "q", "May 2020 maybe", None]))}
        if nulls:
            k = draw(st.integers(0, 8))
            if k < 3:
                r["cat"[k]] = None
        rows.append(r)
    return {"rows": rows, "keys": draw(st.integers(0, 3)), "fmt": draw(st.sampled_from(TSF)), "decoy": draw(st.booleans()), "start": draw(st.booleans())}


def fmt(t, how):
    import datetime
    if t is None:
        return None
    d = datetime.datetime.fromtimestamp(gen.BASE + t, tz=datetime.timezone.utc)
    if how == "iso":
        return d.isoformat()
    if how == "frac":
        return d.strftime("%Y-%m-%dT%H:%M:%S.000+00:00")
    if how == "naive":
        return d.strftime("%Y-%m-%d %H:%M:%S")
    if how == "off":
        return d.astimezone(datetime.timezone(datetime.timedelta(hours=2))).isoformat()
    if how == "naivedt":
        return d.replace(tzinfo=None)
    return d


def check_format(case, ctx):
    import pandas as pd
    ck, ak, tk = KEYS[case["keys"]]
    rows = case["rows"]
    data = []
    for i, r in enumerate(rows):
        d = {ck: r["c"], ak: r["a"], tk: fmt(r["t"], case["fmt"]), "x": r["x"], "s": r["s"], "row": i}
        if case["start"]:
            d["st"] = fmt(None if r["t"] is None else r["t"] - 60, case["fmt"])
        if case["decoy"]:
            for k in ("case:concept:name", "concept:name", "time:timestamp"):
                d.setdefault(k, "decoy")
        data.append(d)
    df = pd.DataFrame(data)
    df["x"] = df["x"].astype("float")
    f = pm4py.format_dataframe(df, case_id=ck, activity_key=ak, timestamp_key=tk, **({"start_timestamp_key": "st"} if case["start"] else {}))
    keep = [(str(r["c"]), r["t"], i) for i, r in enumerate(rows) if r["c"] is not None and r["a"] is not None and r["t"] is not None]
    if any(r["c"] is None for r in rows) and any(isinstance(r["c"], int) for r in rows):
        ctx.label("int-null")
        return  # integer ids with nulls become floats in the caller's dataframe already
    keep.sort()
    ctx.nontrivial(len({k[0] for k in keep}) > 1 and [k[2] for k in keep] != sorted(k[2] for k in keep))
    req_eq(list(f["row"]), [k[2] for k in keep], "rows kept and their order")
    if keep:
        req_eq(list(f["case:concept:name"]), [k[0] for k in keep], "case identifiers")
        req_eq(list(f["concept:name"]), [rows[k[2]]["a"] for k in keep], "activities")
        req_eq([x.timestamp() for x in f["time:timestamp"]], [float(gen.BASE + k[1]) for k in keep], "timestamps")
        req_eq({str(x.utcoffset()) for x in f["time:timestamp"]}, {"0:00:00"}, "timestamps in UTC")
        req_eq([None if x != x else x for x in f["x"]], [rows[k[2]]["x"] for k in keep], "numeric attribute")
        req_eq([None if pd.isna(x) else x for x in f["s"]], [rows[k[2]]["s"] for k in keep], "text attribute")
        if case["start"]:
            req_eq([x.timestamp() for x in f["start_timestamp"]], [float(gen.BASE + k[1] - 60) for k in keep], "start timestamps")
        req_eq(list(f["@@index"]), list(range(len(keep))), "event index")
        uniq = sorted({k[0] for k in keep})
        req_eq(list(f["@@case_index"]), [uniq.index(k[0]) for k in keep], "case index")
        req_eq(pm4py.project_on_event_attribute(f, "concept:name"), [[rows[k[2]]["a"] for k in keep if k[0] == c] for c in uniq], "projection")
        # formatting again changes nothing
        g = pm4py.rebase(f.copy(), case_id="case:concept:name", activity_key="concept:name", timestamp_key="time:timestamp")
        req_eq([list(g[c]) for c in ("row", "case:concept:name", "concept:name", "time:timestamp", "@@index", "@@case_index")],
               [list(f[c]) for c in ("row", "case:concept:name", "concept:name", "time:timestamp", "@@index", "@@case_index")], "rebase of a formatted dataframe")


def check_rebase_log(case, ctx):
    """rebasing an event log on other attributes"""
    log = case["log"]
    L = build.elog(log)
    for t in L:
        for i, e in enumerate(t):
            e["x"] = "v%d" % e["x"]
    R = pm4py.rebase(L, case_id="case:concept:name", activity_key="x", timestamp_key="time:timestamp")
    exp = {}
    for c in log["cases"]:
        for e in sorted(c["events"], key=lambda e: e["t"]):
            exp.setdefault(c["id"], []).append(("v%d" % e["x"], e["t"]))
    ids = sorted(exp)
    ctx.nontrivial(len(ids) > 1)
    req_eq([(t.attributes["concept:name"], [(e["concept:name"], int(e["time:timestamp"].timestamp()) - gen.BASE) for e in t]) for t in R], [(i, exp[i]) for i in ids], "rebased log")


def check_parse(case, ctx):
    trs, sep = case["trs"], case["sep"]
    ctx.nontrivial(len(trs) > 1 and any(len(t) > 1 for t in trs))
    kw = {"activity_key": "act", "case_id_key": "cid", "timestamp_key": "ts"} if case["ren"] else {}
    ck, ak, tk = ("cid", "act", "ts") if case["ren"] else ("case:concept:name", "concept:name", "time:timestamp")
    strs = [sep.join(t) for t in trs]
    d = pm4py.parse_event_log_string(strs, sep=sep, **kw)
    req_eq([(str(c), a) for c, a in zip(d[ck], d[ak])], [(str(i), a) for i, t in enumerate(trs) for a in t], "parsed rows")
    req_eq(list(d[tk].diff().dropna() > __import__("pandas").Timedelta(0)), [True] * (len(d) - 1), "timestamps increase")
    L = pm4py.parse_event_log_string(strs, sep=sep, return_legacy_log_object=True, **kw)
    req_eq([[e[ak] for e in t] for t in L], trs, "parsed log")
    req_eq(pm4py.project_on_event_attribute(L, ak), trs, "projection of the log")
    if not case["ren"]:
        order = sorted(range(len(trs)), key=str)
        req_eq(pm4py.project_on_event_attribute(d, ak), [trs[i] for i in order], "projection of the dataframe")


def check_sample(case, ctx):
    import pandas as pd
    from pm4py.util import pandas_utils
    log, n, order = case["log"], case["n"], case["order"]
    D = build.fdf(log)
    perm = sorted(range(len(D)), key=lambda i: (order[i % len(order)] * (i + 1)) % 7) if case["mix"] else list(range(len(D)))
    D = D.iloc[perm]
    N = len(log["cases"])
    ctx.nontrivial(1 <= n < N)
    rows = lambda d: Counter(tuple(r) for r in d[["case:concept:name", "concept:name", "time:timestamp", "@@index"]].itertuples(index=False))
    before = rows(D)
    S = pm4py.sample_cases(D, n)
    ids = set(S["case:concept:name"])
    req_eq(len(ids), min(n, N), "number of sampled cases")
    req_eq(rows(S), rows(D[D["case:concept:name"].isin(ids)]), "sampled cases are complete")
    req_eq(rows(D), before, "input unchanged")
    L = build.elog(log)
    S = pm4py.sample_cases(L, n)
    byid = {c["id"]: [e["a"] for e in c["events"]] for c in log["cases"]}
    req_eq(len({t.attributes["concept:name"] for t in S}), min(n, N), "number of sampled cases (log)")
    req_eq(len(S), min(n, N), "sample size (log)")
    req_eq([[e["concept:name"] for e in t] for t in S], [byid[t.attributes["concept:name"]] for t in S], "sampled cases (log)")
    req_eq([(t.attributes["concept:name"], [e["concept:name"] for e in t]) for t in L], [(c["id"], byid[c["id"]]) for c in log["cases"]], "log unchanged")
    m = min(n, len(D))
    S = pm4py.sample_events(D, m)
    req_eq(len(set(S["@@index"])), m, "number of sampled events")
    require(all(before[k] >= v for k, v in rows(S).items()), "sampled events come from the log")
    ES = pm4py.convert_to_event_stream(L)
    S = pm4py.sample_events(ES, n)
    req_eq(len({id(e) for e in S}), min(n, len(ES)), "number of sampled events (stream)")
    require({id(e) for e in S} <= {id(e) for e in ES}, "sampled events come from the stream")
    # position of the event inside its case
    I = pandas_utils.insert_ev_in_tr_index(D)
    cnt, exp = Counter(), []
    for c in D["case:concept:name"]:
        exp.append(cnt[c])
        cnt[c] += 1
    req_eq(list(I["@@index_in_trace"]), exp, "index in trace")


UNITS = [
    Unit("format", frames(), check_format, 500, shards=2, rule="dataframes with nulls, ties and interleaving; non-trivial: > 1 case and rows that have to move"),
    Unit("rebase", st.fixed_dictionaries({"log": gen.log(extra=True)}), check_rebase_log, 150, shards=1, rule="event logs; non-trivial: > 1 case"),
    Unit("parse", st.fixed_dictionaries({"trs": st.lists(st.lists(st.sampled_from(["A", "B", "C d", "é", "1", "a.b"]), min_size=1, max_size=5), min_size=1, max_size=12), "sep": st.sampled_from([",", ";", "::", "\t"]), "ren": st.booleans()}), check_parse, 300, shards=1, rule="trace strings; non-trivial: > 1 trace, a trace of > 1 activity"),
    Unit("sample", st.fixed_dictionaries({"log": gen.log(), "n": st.integers(0, 7), "order": st.lists(st.integers(1, 9), min_size=1, max_size=5), "mix": st.booleans()}), check_sample, 300, shards=1, rule="logs x sample sizes; non-trivial: a proper subset of the cases is requested"),
]

"""C01 conversions between log representations"""
from hypothesis import strategies as st
import gen, tlog
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Converting a log between its representations loses nothing",
    statement="Converting a log among event log, event stream and dataframe keeps the cases in order of first appearance, the order of the events inside every case, and every present case and event attribute with its value (case attributes under the case prefix in flat representations; absent ones are null or absent), so there-and-back conversions give the original. "
              "Rows of different cases may be interleaved arbitrarily without changing the resulting cases, any column can serve as case identifier, and the converted object is left unchanged.",
    over=["inputs"], quant="all logs of up to 4 cases with optional case and event attributes of five types, any interleaving of the rows",
    why="tests convert example files and look at lengths; losslessness must hold for every attribute set, missing value and interleaving",
    files=["pm4py/convert.py", "pm4py/objects/conversion/log/variants/to_event_log.py", "pm4py/objects/conversion/log/variants/to_event_stream.py", "pm4py/objects/conversion/log/variants/to_data_frame.py"],
    mech=[("to log", "pm4py/objects/conversion/log/variants/to_event_log.py"), ("to stream", "pm4py/objects/conversion/log/variants/to_event_stream.py")])
PP = {"stream_postprocessing": True}


def classify(case, ctx):
    ctx.nontrivial(len(case["cases"]) > 1 and any(len(c["events"]) > 1 for c in case["cases"]) and any(c["attrs"] or len(e) > 2 for c in case["cases"] for e in c["events"]))


def check_obj(case, ctx):
    """event log <-> stream"""
    classify(case, ctx)
    exp = tlog.plain(case)
    log = tlog.elog(case)
    s = pm4py.convert_to_event_stream(log)
    req_eq(tlog.of_elog(log), exp, "converting to a stream leaves the log unchanged")
    got = [{k: tlog.norm(v) for k, v in e.items()} for e in s]
    req_eq(got, tlog.flat(case, loose=False), "event stream")
    back = pm4py.convert_to_event_log(s)
    req_eq(tlog.of_elog(back), exp, "log -> stream -> log")
    req_eq([{k: tlog.norm(v) for k, v in e.items()} for e in s], got, "converting to a log leaves the stream unchanged")
    d = pm4py.convert_to_dataframe(log)
    req_eq(tlog.of_elog(log), exp, "converting to a dataframe leaves the log unchanged")
    req_eq(tlog.rows(d), tlog.flat(case), "dataframe rows")
    back = pm4py.convert_to_event_log(d, **PP)
    req_eq(tlog.of_elog(back, loose=True), tlog.loosen(exp), "log -> dataframe -> log")
    d2 = pm4py.convert_to_dataframe(s)
    req_eq(tlog.rows(d2), tlog.flat(case), "stream -> dataframe rows")
    req_eq(tlog.rows(pm4py.convert_to_dataframe(pm4py.convert_to_event_log(d, **PP))), tlog.flat(case), "dataframe -> log -> dataframe")
    # types survive when nothing is missing
    names = {k for r in tlog.flat(case) for k in r}
    full = [k for k in names if all(k in r for r in tlog.flat(case))]
    strict = [{k: v for k, v in r.items() if k in full} for r in tlog.rows(d, loose=False)]
    req_eq(strict, [{k: v for k, v in r.items() if k in full} for r in tlog.flat(case, loose=False)], "columns without missing values keep their types")


def check_df(case, ctx):
    import pandas as pd
    spec, order, ck = case["log"], case["order"], case["ck"]
    classify(spec, ctx)
    flat = tlog.flat(spec, loose=False)
    raw = []
    for c in spec["cases"]:
        for e in c["events"]:
            r = {k: tlog.val(v) for k, v in e.items()}
            r[ck] = c["id"]
            r.update({"case:" + k: tlog.val(v) for k, v in c["attrs"].items()})
            raw.append((c["id"], r))
    # interleave: repeatedly take the next event of the case chosen by `order`
    queues = {}
    for i, r in raw:
        queues.setdefault(i, []).append(r)
    ids = list(queues)
    seq, firsts = [], []
    for o in order + [0] * len(raw):
        live = [i for i in ids if queues[i]]
        if not live:
            break
        i = live[o % len(live)]
        if i not in firsts:
            firsts.append(i)
        seq.append(queues[i].pop(0))
    d = pd.DataFrame(seq)
    before = tlog.rows(d, loose=False)
    cols = list(d.columns)
    kw = {} if ck == "case:concept:name" else {"case_id_key": ck}
    log = pm4py.convert_to_event_log(d, **kw, **PP)
    req_eq((list(d.columns), tlog.rows(d, loose=False)), (cols, before), "the dataframe is unchanged")
    by = {c["id"]: c for c in spec["cases"]}
    exp = tlog.loosen(tlog.plain({"cases": [by[i] for i in firsts]}))
    if not ck.startswith("case:"):
        for (a, es) in exp:
            for e in es:
                e[ck] = a["concept:name"]
    elif ck != "case:concept:name":
        exp = [({**a, ck[5:]: a["concept:name"]}, es) for a, es in exp]
    req_eq(tlog.of_elog(log, loose=True), exp, "dataframe with interleaved cases -> log")
    ctx.label("interleaved" if [i for i, _ in raw] != [r[ck] for r in seq] else "grouped")
    # same through the event stream
    s = pm4py.convert_to_event_stream(d, **kw, **PP)
    req_eq([{k: tlog.norm(v, True) for k, v in e.items()} for e in s], tlog.rows(d), "dataframe -> stream")
    req_eq(tlog.of_elog(pm4py.convert_to_event_log(s, **kw), loose=True), exp, "dataframe -> stream -> log")
    comp = pm4py.convert_to_event_stream(d, compress=True, **kw, **PP)
    req_eq([{k: tlog.norm(v) for k, v in e.items()} for e in comp], [{k: tlog.norm(v) for k, v in e.items()} for e in s], "compressed stream")


UNITS = [
    Unit("objects", tlog.tlog(), check_obj, 900, shards=3, rule="typed logs; non-trivial: > 1 case, a case of > 1 event, an extra attribute"),
    Unit("frame", st.fixed_dictionaries({"log": tlog.tlog(), "order": st.lists(st.integers(0, 3), max_size=10), "ck": st.sampled_from(["case:concept:name", "case:concept:name", "case_id", "case:ident"])}),
         check_df, 900, shards=3, rule="as objects, rows interleaved, three kinds of case identifier columns"),
]

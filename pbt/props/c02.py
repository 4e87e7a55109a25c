"""C02 XES write -> read"""
import os, tempfile, datetime
from hypothesis import strategies as st
import gen, tlog
from core import Unit, require, req_eq, Violation
import pm4py

META = dict(
    title="Writing a log to XES and reading it back loses nothing",
    statement="Reading an XES file written from an event log or dataframe (plain or gzipped, also serialised to a string, by either exporter) gives the same cases and events in the same order with the same attributes: strings with markup, quotes, whitespace and non-ASCII characters, integers, floats, booleans, instants with their UTC offset resolved, and nested and list attributes. "
              "Log attributes, extensions, classifiers and globals survive as well, and writing leaves the log unchanged.",
    over=["inputs"], quant="all logs of up to 4 cases with optional typed attributes, any unicode text without control characters (tab and newline included), any UTC offset",
    why="tests round-trip the example files and compare lengths; value fidelity must hold for every string, number and instant",
    files=["pm4py/objects/log/exporter/xes/variants/line_by_line.py", "pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py", "pm4py/objects/log/importer/xes/variants/iterparse.py", "pm4py/write.py", "pm4py/read.py", "pm4py/util/dt_parsing/variants/strpfromiso.py"],
    mech=[("exporter", "pm4py/objects/log/exporter/xes/variants/line_by_line.py"), ("importer", "pm4py/objects/log/importer/xes/variants/iterparse.py"), ("date parsing", "pm4py/util/dt_parsing/variants/strpfromiso.py")])
WS = st.one_of(tlog.STRS, st.sampled_from(["a\nb", "x\ty", " lead", "trail ", "", "a  b", "\"q'", "]]>", "<!-- -->"]))


def tmp(suffix):
    fd, p = tempfile.mkstemp(suffix=suffix)
    os.close(fd)
    os.remove(p)
    return p


def meta_of(case, log):
    m = case["meta"]
    for k, v in m["attrs"].items():
        log.attributes[k] = tlog.val(v)
    for n in m["ext"]:
        log.extensions[n] = {"prefix": n.lower()[:3], "uri": "http://x/" + n}
    for n, ks in m["cls"].items():
        log.classifiers[n] = list(ks)
    for s, d in m["glob"].items():
        log.omni_present[s] = {k: tlog.val(v) for k, v in d.items()}


def got_meta(log):
    return ({k: tlog.norm(v) for k, v in log.attributes.items()}, {k: dict(v) for k, v in log.extensions.items()},
            {k: list(v) for k, v in log.classifiers.items()}, {s: {k: tlog.norm(v) for k, v in d.items()} for s, d in log.omni_present.items()})


def check_log(case, ctx):
    from pm4py.objects.log.exporter.xes import exporter
    from pm4py.objects.log.importer.xes import importer
    spec = case["log"]
    log = tlog.elog(spec, tz=case["tz"])
    meta_of(case, log)
    exp = tlog.plain(spec)
    em = got_meta(log)
    ctx.nontrivial(sum(len(c["events"]) for c in spec["cases"]) > 1 and any(len(e) > 2 for c in spec["cases"] for e in c["events"]))
    ctx.label("exp_" + case["exporter"], "gz" if case["gz"] else "plain")
    p = tmp(".xes.gz" if case["gz"] else ".xes")
    try:
        if case["exporter"] == "api":
            pm4py.write_xes(log, p)
        else:
            exporter.apply(log, p, variant=exporter.Variants.ETREE if case["exporter"] == "etree" else exporter.Variants.LINE_BY_LINE)
        req_eq(tlog.of_elog(log), exp, "writing leaves the log unchanged")
        back = pm4py.read_xes(p, return_legacy_log_object=True)
        req_eq(tlog.of_elog(back), exp, "XES round trip")
        req_eq(got_meta(back), em, "log attributes, extensions, classifiers, globals")
        d = pm4py.read_xes(p)
        req_eq(tlog.rows(d), tlog.flat(spec), "read_xes as dataframe")
    finally:
        if os.path.exists(p):
            os.remove(p)
    v = exporter.Variants.ETREE if case["exporter"] == "etree" else exporter.Variants.LINE_BY_LINE
    s = exporter.serialize(log, variant=v, parameters={"compress": case["gz"]})
    back = importer.deserialize(s, parameters={"decompress_serialization": case["gz"]})
    req_eq(tlog.of_elog(back), exp, "deserialize(serialize(log))")
    back = pm4py.deserialize(pm4py.serialize(log))
    req_eq(tlog.of_elog(back), exp, "pm4py.deserialize(pm4py.serialize(log))")


def check_df(case, ctx):
    import pandas as pd
    spec, ck = case["log"], case["ck"]
    raw = []
    for c in spec["cases"]:
        for e in c["events"]:
            r = {k: tlog.val(v) for k, v in e.items()}
            r[ck] = c["id"]
            r.update({"case:" + k: tlog.val(v) for k, v in c["attrs"].items()})
            raw.append(r)
    d = pd.DataFrame(raw)
    before = tlog.rows(d)
    full = [c for c in d.columns if not d[c].isna().any()]
    ctx.nontrivial(len(raw) > 1 and len(d.columns) > 3)
    ctx.label("missing" if len(full) < len(d.columns) else "complete")
    p = tmp(".xes.gz" if case["gz"] else ".xes")
    try:
        if ck == "case:concept:name":
            pm4py.write_xes(d, p)
        else:
            pm4py.write_xes(d, p, case_id_key=ck)
        req_eq(tlog.rows(d), before, "writing leaves the dataframe unchanged")
        back = pm4py.read_xes(p)
    finally:
        if os.path.exists(p):
            os.remove(p)
    exp = tlog.flat(spec)
    if ck != "case:concept:name":
        exp = [{**r, ck: r["case:concept:name"]} for r in exp]
    def clean(r):  # numbers in columns with holes may come back as text "nan" for the holes; only present values count
        return {k: v for k, v in r.items() if v[1] == v[1] and v not in (("s", "nan"), ("s", "NaT"), ("s", "<NA>"))}
    got = tlog.rows(back)
    req_eq(len(got), len(exp), "number of events")
    for g, e in zip(got, exp):
        for k, v in e.items():
            req_eq(g.get(k), v, "value of %s" % k)
        extra = {k: v for k, v in clean(g).items() if k not in e}
        require(not extra, "invented attributes %s", extra)
    req_eq(tlog.rows(pm4py.deserialize(pm4py.serialize(d))), before, "serialized dataframe")


def check_nested(case, ctx):
    from pm4py.objects.log.exporter.xes import exporter
    from pm4py.objects.log.obj import EventLog, Trace, Event

    def mk(a):
        if isinstance(a, dict) and "c" in a:
            return {"value": tlog.val(a["v"]), "children": {k: mk(x) for k, x in a["c"].items()}}
        if isinstance(a, dict) and "l" in a:
            return {"value": None, "children": [(k, mk(x)) for k, x in a["l"]]}
        return tlog.val(a)

    def nrm(x):
        if isinstance(x, dict):
            ch = x["children"]
            return ("nested", None if x["value"] is None else tlog.norm(x["value"]), [(k, nrm(v)) for k, v in ch] if isinstance(ch, list) else {k: nrm(v) for k, v in ch.items()})
        return tlog.norm(x)
    log = EventLog([Trace([Event({"concept:name": "A", "n": mk(case["e"]), "z": 1})], attributes={"concept:name": "1", "m": mk(case["t"])})])
    e, t = nrm(log[0][0]["n"]), nrm(log[0].attributes["m"])
    ctx.nontrivial(isinstance(e, tuple) and e[0] == "nested")
    p = tmp(".xes")
    try:
        exporter.apply(log, p, variant=exporter.Variants.ETREE if case["exporter"] == "etree" else exporter.Variants.LINE_BY_LINE)
        back = pm4py.read_xes(p, return_legacy_log_object=True)
    finally:
        if os.path.exists(p):
            os.remove(p)
    req_eq(nrm(back[0][0]["n"]), e, "nested event attribute")
    req_eq(nrm(back[0].attributes["m"]), t, "nested trace attribute")
    req_eq(tlog.norm(back[0][0]["z"]), ("i", 1), "attribute after a nested one")
    req_eq((len(back), len(back[0]), set(back[0][0])), (1, 1, {"concept:name", "n", "z"}), "shape")


NAMES = ["k", "lang", "x y", "a&b", "É"]
ATOM = st.one_of(WS, tlog.INTS, tlog.FLOATS, st.booleans(), tlog.DATES)
NEST = st.recursive(ATOM, lambda ch: st.one_of(st.fixed_dictionaries({"v": ATOM, "c": st.dictionaries(st.sampled_from(NAMES), ch, min_size=1, max_size=3)}),
                                               st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(NAMES), ch).map(list), min_size=1, max_size=3)})), max_leaves=5)
LISTA = st.fixed_dictionaries({"l": st.lists(st.tuples(st.sampled_from(NAMES), NEST).map(list), min_size=1, max_size=3)})
METAS = st.fixed_dictionaries({
    "attrs": st.dictionaries(st.sampled_from(["source", "a b", "<n>"]), ATOM, max_size=2),
    "ext": st.lists(st.sampled_from(["Concept", "Time", "R&D \"x\""]), max_size=2, unique=True),
    "cls": st.dictionaries(st.sampled_from(["Act", "a & b", "'c'"]), st.lists(st.sampled_from(["concept:name", "x y", "org:role", "<k>"]), min_size=1, max_size=3, unique=True), max_size=2),
    "glob": st.dictionaries(st.sampled_from(["event", "trace"]), st.dictionaries(st.sampled_from(["d", "x&y", "e"]), ATOM, max_size=2), max_size=2)})
UNITS = [
    Unit("log", st.fixed_dictionaries({"log": tlog.tlog(strs=WS), "meta": METAS, "tz": st.sampled_from([None, None, 120, -330, 60]), "gz": st.booleans(), "exporter": st.sampled_from(["api", "etree", "line"])}),
         check_log, 800, shards=4, rule="typed logs with odd strings; non-trivial: > 1 event and an extra attribute"),
    Unit("frame", st.fixed_dictionaries({"log": tlog.tlog(strs=WS), "gz": st.booleans(), "ck": st.sampled_from(["case:concept:name", "case_id"])}), check_df, 500, shards=2, rule="dataframes; non-trivial: > 1 event and an extra column"),
    Unit("nested", st.fixed_dictionaries({"e": st.one_of(NEST, NEST, LISTA), "t": st.one_of(NEST, LISTA), "exporter": st.sampled_from(["etree", "line"])}), check_nested, 500, shards=2, rule="nested/list attributes; non-trivial: the event attribute is nested"),
]

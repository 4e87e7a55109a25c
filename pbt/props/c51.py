"""C51 event and trace streams, stream readers"""
import os, tempfile, threading, time, csv, io, random
from collections import Counter, defaultdict
from hypothesis import strategies as st
import pandas as pd
from core import Unit, require, req_eq
import pm4py
import gen, tlog, build
import ocel as oc
from pm4py.objects.log.obj import Event, Trace
from pm4py.streaming.stream.live_event_stream import LiveEventStream
from pm4py.streaming.stream.live_trace_stream import LiveTraceStream
from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
from pm4py.streaming.algo.discovery.dfg import algorithm as sdfg
from pm4py.streaming.algo.interface import StreamingAlgorithm
from pm4py.streaming.importer.csv import importer as csvs
from pm4py.streaming.importer.xes import importer as xess
from pm4py.streaming.conversion import from_pandas, ocel_flatts_distributor
from pm4py.objects.ocel.util import ocel_iterator
from props.c03 import xml, STYLE, WS
from props.c48 import types_, lives

META = dict(
    title="Streams deliver every event once and in order; stream readers are exact",
    statement="Whatever the number of threads of the pool, the speed of the observers and the threads appending, an event (trace) stream gives each registered observer every event appended before it is stopped exactly once and in the order of the stream, and nothing appended afterwards; streaming discovery fed through it equals the batch result. "
              "The CSV and XES stream readers, read one by one, iterated, reset or sent to a stream, give exactly the rows, events and traces of the file that satisfy the acceptance condition; streaming a dataframe gives its cases, and distributing an OCEL to streams per object type gives its flattenings.",
    over=["inputs", "schedules"], quant="event lists x pool sizes x observers with random delays x producers; generated CSV and XES files, dataframes and OCELs",
    why="the repository has no test of the streams; delivery order depends on the scheduling of the threads of the pool",
    oracle="the appended list itself; the generated content of the files",
    limits="Schedules are perturbed by delaying observers and producers, not enumerated. Case attributes written after the first event of a trace and attributes of from_pandas other than activity and time stamp are not judged.",
    files=["pm4py/streaming/stream", "pm4py/streaming/importer", "pm4py/streaming/conversion", "pm4py/streaming/util"],
    mech=[("event stream", "pm4py/streaming/stream/live_event_stream.py"), ("trace stream", "pm4py/streaming/stream/live_trace_stream.py"), ("XES", "pm4py/streaming/importer/xes/variants/xes_event_stream.py"), ("CSV", "pm4py/streaming/importer/csv/variants/csv_event_stream.py"), ("OCEL", "pm4py/streaming/conversion/ocel_flatts_distributor.py")])


class Recorder(StreamingAlgorithm):
    """observer; the wait before taking the lock stands for a preempted thread"""

    def __init__(self, delays):
        self.delays, self.n, self.seen = delays, 0, []
        StreamingAlgorithm.__init__(self)

    def receive(self, event):
        k = self.n
        self.n = k + 1
        if self.delays:
            time.sleep(self.delays[k % len(self.delays)] / 1000.0)
        super().receive(event)

    def _process(self, event):
        self.seen.append(event)

    def _current_result(self):
        return list(self.seen)


class SlowDfg(sdfg.Variants.FREQUENCY.value.StreamingDfgDiscovery):
    delays, n = [], 0

    def receive(self, event):
        k = self.n
        self.n = k + 1
        if self.delays:
            time.sleep(self.delays[k % len(self.delays)] / 1000.0)
        super().receive(event)


def bounded(f, what):
    err = []

    def run():
        try:
            f()
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(20)
    require(not t.is_alive(), "%s does not return", what)
    if err:
        raise err[0]


def live(c, ctx):
    traces = c["kind"] == "traces"
    p = {"thread_pool_size": c["pool"]} if c["pool"] else None
    s = (LiveTraceStream if traces else LiveEventStream)(parameters=p)
    items = []
    for i, a in enumerate(c["items"]):
        e = Event({"case:concept:name": "c%d" % (i * 7 % 3), "concept:name": gen.ACTS[a % 4], "i": i})
        items.append(Trace([e], attributes={"i": i}) if traces else e)
    key = lambda x: x.attributes["i"] if traces else x["i"]
    recs = [Recorder(d) for d in c["delays"]]
    dfg = SlowDfg({})
    dfg.delays = c["delays"][0]
    obs = recs + ([] if traces else [dfg])
    for o in obs:
        s.register(o)
    np_ = c["producers"]
    parts = [items[i::np_] for i in range(np_)]
    before = parts[0][:c["early"]]  # appended before the start
    for x in before:
        s.append(x)
    parts[0] = parts[0][c["early"]:]
    req_eq(s.state.name, "INACTIVE", "state")
    s.start()
    req_eq(s.state.name, "ACTIVE", "state")

    def feed(part, k):
        for j, x in enumerate(part):
            if c["gaps"] and (j + k) % c["gaps"] == 0:
                time.sleep(0.001)
            s.append(x)
    ths = [threading.Thread(target=feed, args=(q, k), daemon=True) for k, q in enumerate(parts)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    bounded(s.stop, "stop")
    req_eq(s.state.name, "FINISHED", "state")
    n = len(items)
    s.append(items[0] if items else Event())
    time.sleep(0.002)
    ctx.label(c["kind"], "pool=%s" % c["pool"], "producers=%d" % np_)
    ctx.nontrivial(n > 3 and c["pool"] != 1)
    orders = []
    for r in recs:
        got = [key(x) for x in r.get()]
        req_eq(sorted(got), list(range(n)), "events received by an observer")
        for q in range(np_):
            mine = [x for x in got if x % np_ == q]
            req_eq(mine, sorted(mine), "order of the events of producer %d (received: %s)" % (q, got))
        orders.append(got)
    for o in orders[1:]:
        req_eq(o, orders[0], "all observers see the same order")
    if not traces and recs:
        seq = defaultdict(list)
        for x in orders[0]:
            seq[items[x]["case:concept:name"]].append(items[x]["concept:name"])
        d, acts, sa, ea = dfg.get()
        e = Counter((a, b) for t in seq.values() for a, b in zip(t, t[1:]))
        req_eq((dict(d), dict(acts), dict(sa), dict(ea)), (dict(e), dict(Counter(a for t in seq.values() for a in t)), dict(Counter(t[0] for t in seq.values())), dict(Counter(t[-1] for t in seq.values()))), "directly-follows graph of the events delivered in the order %s" % orders[0])


def through(reader, c):
    """content of a reader by the drawn way of reading"""
    how = c["how"]
    if how == "iter":
        return list(reader)
    if how == "reset":
        n = c["n"] % 5
        for _ in range(n):
            if (reader.read_trace if hasattr(reader, "read_trace") else reader.read_event)() is None:
                break
        reader.reset()
        return list(reader)
    if how == "one":
        out = []
        while True:
            x = (reader.read_trace if hasattr(reader, "read_trace") else reader.read_event)()
            if x is None:
                return out
            out.append(x)
    s = (LiveTraceStream if hasattr(reader, "read_trace") else LiveEventStream)()
    r = Recorder([])
    s.register(r)
    s.start()
    (reader.to_trace_stream if hasattr(reader, "read_trace") else reader.to_event_stream)(s)
    bounded(s.stop, "stop")
    return r.get()


def tmpf(data, suffix):
    fd, p = tempfile.mkstemp(suffix=suffix)
    os.write(fd, data)
    os.close(fd)
    return p


def xes(c, ctx):
    spec = c["log"]
    p = tmpf(xml(spec, c["style"]).encode("utf-8"), ".xes")
    ctx.label(c["how"], "traces" if c["traces"] else "events")
    ctx.nontrivial(sum(len(x["events"]) for x in spec["cases"]) > 2)
    par = {}
    try:
        if c["traces"]:
            if c["accept"]:
                par["acceptance_condition"] = lambda t: len(t) > 1
            got = through(xess.apply(p, variant=xess.Variants.XES_TRACE_STREAM, parameters=par), c)
            exp = [x for x in tlog.plain(spec)]
            if c["accept"]:
                keep = {i for i, x in enumerate(spec["cases"]) if len(x["events"]) > 1}
                exp = [x for i, x in enumerate(exp) if i in keep]
            from pm4py.objects.log.obj import EventLog
            req_eq(tlog.of_elog(EventLog(got)), exp, "traces")
        else:
            if c["accept"]:
                par["acceptance_condition"] = lambda e: e["concept:name"] != "A"
            got = through(xess.apply(p, parameters=par), c)
            exp = [r for r in tlog.flat(spec, loose=False) if not c["accept"] or r["concept:name"] != ("s", "A")]
            req_eq([{k: tlog.norm(v) for k, v in e.items()} for e in got], exp, "events")
    finally:
        os.remove(p)


def csvf(c, ctx):
    cols = c["cols"]
    rows = [{k: v for k, v in zip(cols, r)} for r in c["rows"]]
    f = io.StringIO(newline="")
    w = csv.DictWriter(f, cols, lineterminator="\n", quoting=csv.QUOTE_ALL if c["quote"] else csv.QUOTE_MINIMAL)
    w.writeheader()
    w.writerows(rows)
    p = tmpf(f.getvalue().encode("utf-8"), ".csv")
    ctx.label(c["how"])
    ctx.nontrivial(len(rows) > 2)
    par = {}
    exp = rows
    if c["transform"]:
        par["transformation_function"] = lambda e: {**e, "n": len(e[cols[0]])}
        exp = [{**e, "n": len(e[cols[0]])} for e in exp]
    if c["accept"]:
        par["acceptance_condition"] = lambda e: (e["n"] > 1 if c["transform"] else e[cols[0]] != "A")
        exp = [e for e in exp if (e["n"] > 1 if c["transform"] else e[cols[0]] != "A")]
    try:
        got = through(csvs.apply(p, parameters=par), c)
    finally:
        os.remove(p)
    req_eq([dict(e) for e in got], exp, "rows")


def frame(c, ctx):
    log = c["log"]
    ck, ak, tk = ("case:concept:name", "concept:name", "time:timestamp") if not c["keys"] else ("cid", "act", "when")
    d = build.df(log, ck=ck, ak=ak, tk=tk, order=None)
    d = d.sample(frac=1, random_state=c["seed"])
    d = d.sort_values(tk, kind="stable") if c["sorted"] else d
    before = d.copy()
    # ties keep the order of the rows
    exp = {}
    for r in d.to_dict("records"):
        exp.setdefault(r[ck], []).append((r[tk], r[ak]))
    exp = {x: sorted(v, key=lambda q: q[0]) for x, v in exp.items()}
    it = from_pandas.apply(d, parameters=keys(ck, ak, tk))
    ctx.label(c["how"])
    ctx.nontrivial(len(exp) > 1)
    if c["how"] == "stream":
        s, r = LiveTraceStream(), Recorder([])
        s.register(r)
        s.start()
        it.to_trace_stream(s)
        bounded(s.stop, "stop")
        got = r.get()
    else:
        got = through(it, c)
    req_eq([(t.attributes["concept:name"], [(pd.Timestamp(e["time:timestamp"]).tz_localize(None) if pd.Timestamp(e["time:timestamp"]).tz is None else pd.Timestamp(e["time:timestamp"]).tz_convert("UTC").tz_localize(None), e["concept:name"]) for e in t]) for t in got],
           [(x, [(pd.Timestamp(a).tz_convert("UTC").tz_localize(None), b) for a, b in exp[x]]) for x in sorted(exp)], "traces of the dataframe")
    require(before.equals(d[before.columns]), "the dataframe changed")


def keys(ck, ak, tk):
    from pm4py.util import constants as k
    return {k.PARAMETER_CONSTANT_CASEID_KEY: ck, k.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, k.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk}


def ocel(c, ctx):
    o = oc.build(c["log"])
    dist = ocel_flatts_distributor.OcelFlattsDistributor()
    T = types_(c["log"])
    sel = [t for i, t in enumerate(T) if c["mask"] >> i & 1] + (["no such type"] if c["mask"] & 16 else [])
    S = {}
    for t in sel:
        for k in range(1 + c["two"]):
            s, r = LiveEventStream(), Recorder([])
            s.register(r)
            dist.register(t, s)
            s.start()
            S[t, k] = (s, r)
    for e in ocel_iterator.apply(o):
        b = dict(e)
        dist.append(e)
        req_eq(list(e), list(b), "the event is left unchanged")
    ctx.nontrivial(any(len(v) > 1 for t in sel for v in lives(c["log"], t).values()))
    for (t, k), (s, r) in S.items():
        bounded(s.stop, "stop")
        got = Counter(repr(sorted(((q, oc.val(v)) for q, v in e.items() if oc.val(v) is not None), key=repr)) for e in r.get())
        exp = Counter()
        byobj = defaultdict(list)
        for x, es in lives(c["log"], t).items():
            for e in es:
                exp[repr(sorted([("ocel:eid", e["id"]), ("concept:name", e["act"]), ("time:timestamp", oc.usec(e["t"])), ("case:concept:name", x)] + [(q, oc.val(v)) for q, v in e["attrs"].items()], key=repr))] += 1
                byobj[x].append(e["id"])
        req_eq(got, exp, "events of the stream of type %s" % t)
        seq = defaultdict(list)
        for e in r.get():
            seq[e["case:concept:name"]].append(e["ocel:eid"])
        req_eq(dict(seq), dict(byobj), "order of the events of every object")


HOW = st.sampled_from(["iter", "one", "reset", "stream"])
LIVE = st.fixed_dictionaries({"kind": st.sampled_from(["events", "events", "traces"]), "pool": st.sampled_from([None, None, 1, 2, 6, 16]), "items": st.lists(st.integers(0, 3), max_size=16), "early": st.integers(0, 3),
                              "delays": st.lists(st.lists(st.sampled_from([0, 0, 1, 3]), max_size=5), min_size=1, max_size=3), "producers": st.sampled_from([1, 1, 2, 3]), "gaps": st.integers(0, 4)})
TXT = st.one_of(st.sampled_from(["A", "B", "", "x,y", 'q"uote', "é☃", " pad ", "line\nbreak", "1.0", "NaN"]))
UNITS = [
    Unit("live", LIVE, live, 300, shards=3, rule="non-trivial: > 3 events, a pool of several threads"),
    Unit("xes", st.fixed_dictionaries({"log": tlog.tlog(strs=WS), "style": STYLE, "how": HOW, "n": st.integers(0, 9), "traces": st.booleans(), "accept": st.booleans()}), xes, 400, shards=2, rule="non-trivial: > 2 events"),
    Unit("csv", st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries({"cols": st.just(["case:concept:name", "concept:name", "a b", "é,x"][:n]), "rows": st.lists(st.lists(TXT, min_size=n, max_size=n).filter(lambda r: any(r)), max_size=6),
                                      "how": HOW, "n": st.integers(0, 9), "accept": st.booleans(), "transform": st.booleans(), "quote": st.booleans()})), csvf, 300, shards=1, rule="non-trivial: > 2 rows"),
    Unit("frame", st.fixed_dictionaries({"log": gen.log(4, 5, 5), "seed": st.integers(0, 99), "sorted": st.booleans(), "keys": st.booleans(), "how": HOW, "n": st.integers(0, 9)}), frame, 200, shards=1, rule="non-trivial: several cases"),
    Unit("ocel", st.fixed_dictionaries({"log": oc.spec(), "mask": st.integers(1, 31), "two": st.booleans()}), ocel, 250, shards=1, rule="non-trivial: an object with several events in a registered type"),
]

"""C46 reading and writing object-centric event logs"""
import os, shutil, sys, tempfile, warnings
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import ocel as oc

META = dict(
    title="Writing and reading an object-centric event log preserves its content",
    statement="Writing an OCEL to CSV, JSON, XML or SQLite - in the OCEL 1.0 formats and in the OCEL 2.0 formats - and reading the file back gives the same events with activity, time stamp and attribute values, the same typed objects with attributes, and the same event-to-object relations; the OCEL 2.0 formats also keep qualifiers, object-to-object relations and object changes. Events come back in time order, and writing leaves the log in memory as it was.",
    over=["inputs"], quant="generated OCELs x seven file formats",
    why="tests read and write a few sample files; partly missing attributes, several types, objects with only changing attributes and empty tables come from the generator",
    oracle="canonical content computed from the generated case",
    limits="At least one event-to-object relation. Objects without events and events without objects may be dropped by the JSON, XML and SQLite readers; time stamps in whole seconds for 1.0 formats, UTC; types of attribute values are compared up to number/text where the format has no types.",
    files=["pm4py/objects/ocel/importer", "pm4py/objects/ocel/exporter", "pm4py/objects/ocel/util", "pm4py/read.py", "pm4py/write.py", "pm4py/objects/ocel/obj.py"],
    mech=[("JSON", "pm4py/objects/ocel/exporter/jsonocel"), ("XML", "pm4py/objects/ocel/exporter/xmlocel"), ("SQLite", "pm4py/objects/ocel/exporter/sqlite"), ("CSV", "pm4py/objects/ocel/util/extended_table.py")])
warnings.simplefilter("ignore")


def num(v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return v
    return v


def num_(k, v):
    if k.startswith("@") and isinstance(v, str):
        return oc.val(pd.Timestamp(v))
    return num(v)


def loose(n):
    """numbers and numeric texts are the same"""
    n = dict(n)
    n["events"] = {k: (a, t, {x: num_(x, v) for x, v in d.items()}) for k, (a, t, d) in n["events"].items()}
    n["objects"] = {k: (a, {x: num_(x, v) for x, v in d.items()}) for k, (a, d) in n["objects"].items()}
    n["changes"] = {k[:4] + (num(k[4]),): v for k, v in n["changes"].items()}
    return n


def compare(got, exp, tables, what):
    for t in tables:
        req_eq(dict(got[t]), dict(exp[t]), "%s: %s" % (what, t))


def sorted_events(o, what):
    ts_ = [oc.val(x) for x in o.events["ocel:timestamp"]] if len(o.events) else []
    req_eq(ts_, sorted(ts_), what + ": order of events")


def trip(case, ctx, ext, two):
    if not any(e["objs"] for e in case["events"]):
        return ctx.label("no relation")
    o = oc.build(case)
    before = oc.norm(o)
    exp = oc.ref(case)
    req_eq(before, exp, "harness")
    d = tempfile.mkdtemp(prefix="c46_")
    try:
        p = os.path.join(d, "log" + ext)
        op = os.path.join(d, "obj.csv") if ext == ".csv" else None
        if two:
            pm4py.write_ocel2(o, p)
            r = pm4py.read_ocel2(p)
        elif op:
            pm4py.write_ocel(o, p, op)
            r = pm4py.read_ocel(p, op)
            r2 = pm4py.read_ocel(p)     # the objects are those of the events
        else:
            pm4py.write_ocel(o, p)
            r = pm4py.read_ocel(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    what = "%s %s" % ("OCEL2" if two else "OCEL1", ext)
    req_eq(oc.norm(o), before, what + ": the log written")
    got = oc.norm(r)
    ev, ob = oc.related(case)
    # items taking no part in any relation are not promised
    for k in got["events"]:
        require(k in exp["events"], "%s: invented event %r", what, k)
    for k in got["objects"]:
        require(k in exp["objects"], "%s: invented object %r", what, k)
    if ext == ".csv":
        g2 = oc.norm(r2)
        req_eq(g2["objects"], {k: (exp["objects"][k][0], {}) for k in oc.related(case)[1]}, what + " without the objects: objects")
        for t in ("events", "relations"):
            req_eq(dict(g2[t]), dict(got[t]), what + " without the objects: " + t)
        ev, ob = set(exp["events"]), set(exp["objects"])
    got, exp = oc.restrict(got, ev, ob), oc.restrict(exp, ev, ob)
    got, exp = loose(got), loose(exp)
    if not two:
        for x in (got, exp):
            x["relations"] = {k[:5]: v for k, v in x["relations"].items()}
    compare(got, exp, ["events", "objects", "relations"] + (["o2o", "changes"] if two else []), what)
    sorted_events(r, what)
    if len(case["events"]) > 2 and len(case["objects"]) > 1 and sum(exp["relations"].values()) > 2 and (not two or exp["o2o"] or exp["changes"]):
        ctx.nontrivial()


def mk(ext, two):
    return lambda case, ctx: trip(case, ctx, ext, two)


RULE = "at least 3 events, 2 objects, 3 relations (and an o2o relation or object change for OCEL 2)"
ODD = ["Create Order", "create order", "object", "送る", "受", "a&b <c>", "it's"]
ODDT = ["order", "Order", "品", "map type", "a:b", "it's"]
UNITS = [Unit("ocel1" + e.replace(".", "_"), st.one_of(oc.spec(dates=True, micro=True), oc.spec(dates=True, micro=True), oc.spec(acts=ODD, types=ODDT, attrs=False)), mk(e, False), 90, rule=RULE) for e in (".csv", ".jsonocel", ".xmlocel", ".sqlite")] + \
        [Unit("ocel2" + e.replace(".", "_"), st.one_of(oc.spec(two=True, quals=True, dates=True, micro=True, multi=True), oc.spec(two=True, quals=True, noqual=True, acts=ODD, types=ODDT, attrs=False)), mk(e, True), 100, rule=RULE) for e in (".jsonocel", ".xmlocel", ".sqlite")]

"""C12 serialization of objects, DFG files"""
import os, tempfile
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from props.c09 import canon_ac, ltree
from props import c11

META = dict(
    title="Serialized objects and DFG files come back equal",
    statement="Deserializing the serialization of an event log, dataframe, Petri net with markings, process tree, BPMN diagram or directly-follows graph gives an object equal to the original, of the same type. "
              "A directly-follows graph written to a file, in any encoding, and read back has the same arcs, start and end activities with the same frequencies, for every naming of the activities.",
    over=["inputs"], quant="generated objects of the six kinds, activity names over arbitrary text without line breaks",
    why="tests serialize one object of each kind; names, isolated activities, arc weights and column types are not covered",
    files=["pm4py/utils.py", "pm4py/objects/dfg/exporter", "pm4py/objects/dfg/importer", "pm4py/objects/petri_net/exporter", "pm4py/objects/petri_net/importer", "pm4py/read.py", "pm4py/write.py"],
    mech=[("serialize and deserialize", "pm4py/utils.py"), ("DFG export", "pm4py/objects/dfg/exporter/variants/classic.py"), ("DFG import", "pm4py/objects/dfg/importer/variants/classic.py")])
NAME = st.one_of(st.sampled_from(gen.ACTS + gen.ODD + ["1x2", "0>1x3", "x", ">", "3"]), st.text(alphabet="ab xé>1\u2028\t\x85", min_size=1, max_size=4))


@st.composite
def dfg_st(draw):
    acts = draw(st.lists(NAME, min_size=1, max_size=6, unique=True))
    A = st.sampled_from(acts)
    fr = st.integers(1, 10 ** 12)
    pairs = draw(st.lists(st.tuples(A, A), max_size=10, unique=True))
    return {"dfg": [[a, b, draw(fr)] for a, b in pairs], "sa": {a: draw(fr) for a in draw(st.lists(A, min_size=1, max_size=3, unique=True))}, "ea": {a: draw(fr) for a in draw(st.lists(A, min_size=1, max_size=3, unique=True))},
            "enc": draw(st.sampled_from(["utf-8", "utf-8", "utf-16", "utf-8-sig"])), "ext": draw(st.sampled_from([".dfg", "", ".DFG"]))}


def check_dfg(case, ctx):
    from collections import Counter
    d = {(a, b): n for a, b, n in case["dfg"]}
    sa, ea = dict(case["sa"]), dict(case["ea"])
    for nm, D in (("dict", d), ("Counter", Counter(d))):
        s = pm4py.serialize(D, sa, ea)
        r = pm4py.deserialize(s)
        req_eq(tuple(map(dict, r)), (d, sa, ea), "deserialize(serialize(%s))" % nm)
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, "g" + case["ext"])
        pm4py.write_dfg(d, sa, ea, p, encoding=case["enc"])
        fs = os.listdir(t)
        require(len(fs) == 1, "files %s", fs)
        req_eq(fs[0], "g.dfg" if case["ext"] == "" else "g" + case["ext"], "file name")
        r = pm4py.read_dfg(os.path.join(t, fs[0]), encoding=case["enc"])
        req_eq(tuple(map(dict, r)), (d, sa, ea), "read_dfg(write_dfg), %s" % case["enc"])
        p = os.path.join(t, "h.dfg")
        if d:
            from pm4py.objects.dfg.exporter import exporter
            inn, out = {b for _, b in d}, {a for a, _ in d}
            if out - inn and inn - out:
                exporter.apply(d, p)
                r = pm4py.read_dfg(p)
                req_eq((dict(r[0]), set(r[1]), set(r[2])), (d, out - inn, inn - out), "inferred start and end activities")
    ctx.nontrivial(len(d) > 1 and any(not a.isalpha() for k in d for a in k))
    ctx.label(case["enc"])


def net_dump(net, im, fm):
    return (sorted(p.name for p in net.places), sorted((t.name, str(t.label)) for t in net.transitions), sorted((a.source.name, a.target.name, a.weight) for a in net.arcs),
            sorted((p.name, k) for p, k in im.items()), sorted((p.name, k) for p, k in fm.items()))


def check_model(case, ctx):
    k = case["k"]
    if k == "net":
        net, im, fm = build.net(case["net"])[:3]
        if not fm:
            return  # an absent final marking is guessed by the importer
        r = pm4py.deserialize(pm4py.serialize(net, im, fm))
        for nm, a, b in zip(("places", "transitions", "arcs", "initial marking", "final marking"), net_dump(*r), net_dump(net, im, fm)):
            req_eq(a, b, nm + " of the net")
        require(set(r[1]) <= r[0].places and set(r[2]) <= r[0].places, "the markings are over the places of the deserialized net")
        ctx.nontrivial(any(w > 1 for _, _, w in net_dump(net, im, fm)[2]) or len(net.places) > 3)
    elif k == "tree":
        r = pm4py.deserialize(pm4py.serialize(build.tree(case["tree"])))
        req_eq(type(r).__name__, "ProcessTree", "type")
        req_eq(canon_ac(build.untree(r)), canon_ac(case["tree"]), "tree")
        ctx.nontrivial(isinstance(case["tree"], list))
    else:
        b = c11.mk(case["bpmn"])
        r = pm4py.deserialize(pm4py.serialize(b))
        req_eq(c11.dump(r), c11.dump(b), "BPMN")
        req_eq(c11.lay(r)[0], c11.lay(b)[0], "BPMN layout")
        ctx.nontrivial(len(b.get_flows()) > 1)
    ctx.label(k)


def check_log(case, ctx):
    import pandas as pd
    L = case["log"]
    df = build.fdf(L) if case["fmt"] else build.df(L)
    r = pm4py.deserialize(pm4py.serialize(df))
    pd.testing.assert_frame_equal(r, df)
    el = build.elog(L)
    for i, t in enumerate(el):
        t.attributes["amount"] = i * 1.5
        t.attributes["n"] = i
        t.attributes["ok"] = i % 2 == 0
    el.attributes["source"] = case["src"]
    r = pm4py.deserialize(pm4py.serialize(el))
    req_eq(type(r).__name__, "EventLog", "type")
    req_eq([(dict(t.attributes), [dict(e) for e in t]) for t in r], [(dict(t.attributes), [dict(e) for e in t]) for t in el], "event log")
    req_eq(r.attributes.get("source"), case["src"], "log attribute")
    ctx.nontrivial(sum(len(t) for t in el) > 3)
    ctx.label("formatted" if case["fmt"] else "raw")


MODEL = st.one_of(st.fixed_dictionaries({"k": st.just("net"), "net": nets.free_net()}), st.fixed_dictionaries({"k": st.just("tree"), "tree": ltree()}), st.fixed_dictionaries({"k": st.just("bpmn"), "bpmn": c11.diag()}))
UNITS = [
    Unit("dfg", dfg_st(), check_dfg, quick=600, shards=2, rule="several arcs and an activity that is not a plain word"),
    Unit("models", MODEL, check_model, quick=900, shards=3, rule="more than three places or a weighted arc / an operator / several flows"),
    Unit("logs", st.fixed_dictionaries({"log": gen.log(max_len=5, resources=True, extra=True, odd=0.3), "fmt": st.booleans(), "src": st.sampled_from(["x", "<&>", "é", "a b"])}), check_log, quick=300, shards=2, rule="more than three events"),
]

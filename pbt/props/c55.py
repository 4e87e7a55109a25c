"""C55: feature extraction from object-centric event logs and the structural helpers around it"""
import warnings
from collections import Counter, defaultdict
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import ocel as oc
from build import ts
from props.c48 import lives
from props.c47 import omap
from props.c49 import ref_graphs

META = dict(
    title="OCEL feature tables describe every event and object exactly",
    statement="Every row of an event or object feature table of an object-centric event log holds exactly that event's or object's facts: activity, time parts, numbers of related objects overall and per type, starts and ends of life cycles, first-time interactions, attribute values, life-cycle length, activities, paths, duration and work in progress, degrees in the object graphs, and minima and maxima over related events or objects. Events and objects without relations get zeros, the facade returns these rows for one object type in the order of its objects. Exploding, prefixes and suffixes per object, parent references, and turning an attribute into objects change and list exactly what they announce.",
    over=["inputs"], quant="object-centric logs with unrelated events and objects, ties, missing attributes x feature groups x object types",
    why="tests call the extraction on one example log and look at no value",
    oracle="direct computation of every feature from the generated case, by feature name",
    limits="Identifiers are unique and events relate to an object at most once; the related-activity features use the last event of the activity.",
    files=["pm4py/algo/transformation/ocel", "pm4py/objects/ocel/util", "pm4py/ml.py"],
    mech=[("objects", "pm4py/algo/transformation/ocel/features/objects/algorithm.py"), ("events", "pm4py/algo/transformation/ocel/features/events/algorithm.py"), ("events and objects", "pm4py/algo/transformation/ocel/features/events_objects/algorithm.py"), ("explode", "pm4py/objects/ocel/util/explode.py")])


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def cmp(rows, names, ids, exp, what):
    """the table has one row for each id, in order, and the columns exp[id] (name -> value)"""
    req_eq(len(rows), len(ids), what + ": rows")
    req_eq(sorted(names), sorted(next(iter(exp.values()))), what + ": feature names")
    for i, x in enumerate(ids):
        req_eq(len(rows[i]), len(names), what + ": row length")
        for n, v in zip(names, rows[i]):
            require(near(float(v), exp[x][n]), "%s: feature %s of %s is %s, expected %s", what, n, x, v, exp[x][n])


def lives_(c):
    lv = {o["id"]: [] for o in c["objects"]}
    for x, es in lives(c).items():
        lv[x] = es
    return lv


def event_ref(c, strs=None, nums=None):
    O, m, lv = {o["id"]: o for o in c["objects"]}, omap(c), lives_(c)
    types, acts, seen, ret = sorted({o["type"] for o in c["objects"]}), sorted({e["act"] for e in c["events"]}), set(), {}
    for e in c["events"]:
        s, t, d = m.get(e["id"], set()), ts(e["t"]), {}
        for a in acts:
            d["@@event_act_" + a] = float(a == e["act"])
        t = pd.Timestamp(t)
        d.update({"@@event_timestamp": t.timestamp(), "@@event_timestamp_dayofweek": t.dayofweek, "@@event_timestamp_hour": t.hour, "@@event_timestamp_month": t.month, "@@event_timestamp_day": t.day})
        d["@@event_num_rel_objs"] = len(s)
        for ot in types:
            d["@@event_num_rel_objs_type_" + ot] = sum(O[x]["type"] == ot for x in s)
            d["@@event_start_" + ot] = float(any(O[x]["type"] == ot and lv[x][0]["id"] == e["id"] for x in s))
            d["@@event_end_" + ot] = float(any(O[x]["type"] == ot and lv[x][-1]["id"] == e["id"] for x in s))
        new = {(a, b) for a in s for b in s if a < b} - seen
        d["@@ev_new_interactions"] = len(new)
        seen |= new
        for k in strs or []:
            for v in {x["attrs"][k] for x in c["events"] if k in x.get("attrs", {})}:
                d["@@event_attr_value_%s_%s" % (k, v)] = float(e["attrs"].get(k) == v)
        for k in nums or []:
            d["@@event_num_" + k] = float(e["attrs"].get(k, 0.0))
        ret[e["id"]] = d
    return ret


def object_ref(c, strs=None, nums=None, paths=False, wip=False):
    O, lv, g = c["objects"], lives_(c), ref_graphs(c)
    types, acts = sorted({o["type"] for o in O}), sorted({e["act"] for e in c["events"]})
    typ = {o["id"]: o["type"] for o in O}
    nb = {k: defaultdict(set) for k in g}
    for k in g:
        for a, b in g[k]:
            nb[k][a].add(b)
            nb[k][b].add(a)
    nodes = len(nb["object_interaction"])
    allp = sorted({"%s##%s" % (a["act"], b["act"]) for es in lv.values() for a, b in zip(es, es[1:])})
    ret = {}
    for o in O:
        x, d = o["id"], {}
        es = lv[x]
        d["@@object_lifecycle_length"] = len(es)
        d["@@object_lifecycle_unq_act"] = len({e["act"] for e in es})
        st_, en = (ts(es[0]["t"]).timestamp(), ts(es[-1]["t"]).timestamp()) if es else (0, 0)
        d.update({"@@object_lifecycle_duration": en - st_, "@@object_lifecycle_start_timestamp": st_, "@@object_lifecycle_end_timestamp": en})
        for a in acts:
            d["@@ocel_lif_activity_" + a] = sum(e["act"] == a for e in es)
        d["@@object_degree_centrality"] = len(nb["object_interaction"].get(x, ())) / (nodes - 1) if nodes > 1 else 0.0
        d["@@object_general_interaction_graph"] = len(nb["object_interaction"].get(x, ()))
        for ot in types:
            d["@@object_interaction_graph_" + ot] = sum(typ[y] == ot for y in nb["object_interaction"].get(x, ()))
        d["@@object_cobirth"] = len(nb["object_cobirth"].get(x, ()))
        d["@@object_codeath"] = len(nb["object_codeath"].get(x, ()))
        for k in ("descendants", "inheritance"):
            d["@@object_general_%s_graph_ascendants" % k] = sum(b == x for a, b in g["object_" + k])
            d["@@object_general_%s_graph_descendants" % k] = sum(a == x for a, b in g["object_" + k])
        for k in strs or []:
            for v in {y["attrs"][k] for y in O if k in y.get("attrs", {})}:
                d["@@object_attr_value_%s_%s" % (k, v)] = float(o["attrs"].get(k) == v)
        for k in nums or []:
            d["@@event_num_" + k] = float(o["attrs"].get(k, 0.0))
        if paths:
            for p in allp:
                d["@@ocel_lif_path_" + p] = sum("%s##%s" % (a["act"], b["act"]) == p for a, b in zip(es, es[1:]))
        if wip:
            n = 0
            for y, fs in lv.items():
                if es and fs and fs[0]["t"] <= es[-1]["t"] and fs[-1]["t"] >= es[0]["t"]:
                    n += 1
            d["@@object_wip"] = n
        ret[x] = d
    return ret


def minmax(pre, fs, names):
    """minimum and maximum of the features over a collection of rows"""
    d = {}
    for n in names:
        d["%s_min_%s" % (pre, n)] = min((f[n] for f in fs), default=0.0)
        d["%s_max_%s" % (pre, n)] = max((f[n] for f in fs), default=0.0)
    return d


@st.composite
def case_(draw):
    c = draw(oc.spec(max_ev=9, max_ob=6, max_t=draw(st.sampled_from([8, 40, 4000])), micro=draw(st.booleans())))
    cols = lambda L, k: any(k in x["attrs"] for x in L)
    pick = lambda L, k: [k] if cols(L, k) and draw(st.booleans()) else []
    return dict(c=c, es=pick(c["events"], "note"), en=pick(c["events"], "amount"), os=pick(c["objects"], "colour"), on=pick(c["objects"], "weight"),
                rel=draw(st.booleans()), paths=draw(st.booleans()), wip=draw(st.booleans()), ot=draw(st.integers(0, 5)), graph=draw(st.sampled_from(["interaction", "descendants", "inheritance", "cobirth", "codeath"])),
                relact=draw(st.booleans()), con=draw(st.booleans()))


def nontriv(c, ctx):
    if any(len(e["objs"]) > 1 for e in c["events"]) and len({o["type"] for o in c["objects"]}) > 1:
        ctx.nontrivial()


def events(case, ctx):
    from pm4py.algo.transformation.ocel.features.events import algorithm as A
    c = case["c"]
    o = oc.build(c)
    m = omap(c)
    par = {"str_ev_attr": case["es"], "num_ev_attr": case["en"]}
    ids = [e["id"] for e in c["events"]]
    exp = event_ref(c, case["es"], case["en"])
    rows, names = A.apply(o, parameters=dict(par))
    cmp(rows, names, ids, exp, "event features")
    dd = A.transform_features_to_dict_dict(o, rows, names)
    req_eq(set(dd), set(ids), "events of the dictionary")
    for x in ids:
        for n in exp[x]:
            require(near(dd[x][n], exp[x][n]), "dictionary: feature %s of %s is %s, expected %s", n, x, dd[x][n], exp[x][n])
    if case["rel"]:
        oref = object_ref(c)
        names_o = list(next(iter(oref.values())))
        rows, names = A.apply(o, parameters={"enable_all": False, "enable_event_num_rel_objs": True, "enable_related_objects_features": True, "enable_lifecycle_metrics": True})
        # with enable_all off, the related objects show their life-cycle metrics
        life = [n for n in names_o if n.startswith("@@object_lifecycle") or n.startswith("@@ocel_lif_activity_")]
        exp = {x: dict(minmax("@@rel_obj_fea", [oref[y] for y in m.get(x, ())], life), **{"@@event_num_rel_objs": len(m.get(x, ()))}) for x in ids}
        cmp(rows, names, ids, exp, "related objects features")
    nontriv(c, ctx)


def objects(case, ctx):
    from pm4py.algo.transformation.ocel.features.objects import algorithm as A
    from pm4py.algo.discovery.ocel import interleavings
    c = case["c"]
    o = oc.build(c)
    ids = [x["id"] for x in c["objects"]]
    m, lv = omap(c), lives_(c)
    exp = object_ref(c, case["os"], case["on"], case["paths"], case["wip"])
    par = {"str_obj_attr": case["os"], "num_obj_attr": case["on"], "enable_object_lifecycle_paths": case["paths"], "enable_object_work_in_progress": case["wip"]}
    rows, names = A.apply(o, parameters=dict(par))
    cmp(rows, names, ids, exp, "object features")
    dd = A.transform_features_to_dict_dict(o, rows, names)
    req_eq(set(dd), set(ids), "objects of the dictionary")
    if case["rel"]:
        eref = event_ref(c)
        en = list(next(iter(eref.values())))
        rows, names = A.apply(o, parameters={"enable_all": False, "enable_related_events_features": True, "enable_event_activity": True, "enable_event_timestamp": True, "enable_event_num_rel_objs_type": True})
        sub = [n for n in en if n.startswith("@@event_act_") or n.startswith("@@event_timestamp") or n.startswith("@@event_num_rel_objs_type_")]
        exp = {x: minmax("@@rel_eve", [eref[e["id"]] for e in lv[x]], sub) for x in ids}
        cmp(rows, names, ids, exp, "related events features")
        if case["relact"]:
            rows, names = A.apply(o, parameters={"enable_all": False, "enable_related_activities_features": True, "enable_event_timestamp": True, "enable_event_num_rel_objs": True})
            sub = [n for n in en if n.startswith("@@event_timestamp") or n == "@@event_num_rel_objs"]
            acts = {e["act"] for e in c["events"] if e["objs"]}
            exp = {}
            for x in ids:
                last = {e["act"]: e["id"] for e in lv[x]}
                exp[x] = {"@@ev_act_fea_%s_%s" % (a, n): eref[last[a]][n] if a in last else 0.0 for a in acts for n in sub}
            cmp(rows, names, ids, exp, "related activities features")
    if case["con"]:
        from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_inheritance_graph, object_cobirth_graph, object_codeath_graph
        G = dict(interaction=object_interaction_graph, descendants=object_descendants_graph, inheritance=object_inheritance_graph, cobirth=object_cobirth_graph, codeath=object_codeath_graph)[case["graph"]]
        rows, names = A.apply(o, parameters={"enable_all": False, "enable_obj_con_in_graph_features": True, "graph": G})
        und = case["graph"] in ("interaction", "cobirth", "codeath")
        base = object_ref(c)
        bn = list(next(iter(base.values())))
        edges = ref_graphs(c)["object_" + case["graph"]]
        exp = {}
        for x in ids:
            nb = {b for a, b in edges if a == x} | ({a for a, b in edges if b == x} if und else set())
            exp[x] = minmax("@@obj_graph_con", [base[y] for y in nb], bn)
        cmp(rows, names, ids, exp, "connected objects features")
    nontriv(c, ctx)


def facade(case, ctx):
    c = case["c"]
    o = oc.build(c)
    types = sorted({x["type"] for x in c["objects"]})
    ot = types[case["ot"] % len(types)]
    ids = [x["id"] for x in c["objects"] if x["type"] == ot]
    d = pm4py.extract_ocel_features(o, ot, enable_object_lifecycle_paths=case["paths"], enable_object_work_in_progress=case["wip"], object_str_attributes=case["os"] or None, object_num_attributes=case["on"] or None, include_obj_id=case["rel"])
    if case["rel"]:
        req_eq(list(d["ocel:oid"]), ids, "object identifiers")
        d = d.drop(columns=["ocel:oid"])
    exp = object_ref(c, case["os"], case["on"], case["paths"], case["wip"])
    cmp(d.values.tolist(), list(d.columns), ids, {x: exp[x] for x in ids}, "extract_ocel_features")
    nontriv(c, ctx)


def exploded(case, ctx):
    from pm4py.algo.transformation.ocel.features.events_objects import algorithm as A
    from pm4py.objects.ocel.util import explode, event_prefix_suffix_per_obj, related_objects
    c = case["c"]
    o = oc.build(c)
    before = oc.norm(o)
    O = c["objects"]
    x = explode.apply(o)
    rel = [(e, O[i]) for e in c["events"] for i in e["objs"]]
    n = oc.norm(x)
    req_eq(n["events"], {"%s_%s" % (e["id"], b["id"]): (e["act"], oc.usec(e["t"]), oc.attrs_(e)) for e, b in rel}, "exploded events")
    req_eq(n["relations"], Counter(("%s_%s" % (e["id"], b["id"]), e["act"], oc.usec(e["t"]), b["id"], b["type"], None) for e, b in rel), "exploded relations")
    req_eq(n["objects"], before["objects"], "exploded objects")
    req_eq(oc.norm(o), before, "the log after the explosion")
    lv = lives_(c)
    for w in ("prefix", "suffix"):
        got = event_prefix_suffix_per_obj.apply(o, parameters={"prefix_or_suffix": w})
        exp = {}
        for b, es in lv.items():
            for k, e in enumerate(es):
                part = [f["id"] for f in (es[:k] if w == "prefix" else es[k + 1:])]
                if part:
                    exp.setdefault(e["id"], {})[b] = part
        req_eq(got, exp, w + " per object")
    m = omap(c)
    got = related_objects.related_objects_dct_overall(o)
    req_eq({k: sorted(v) for k, v in got.items()}, {e["id"]: sorted(m.get(e["id"], ())) for e in c["events"]}, "related objects")
    got = related_objects.related_objects_dct_per_type(o)
    exp = defaultdict(dict)
    for e, b in rel:
        exp[b["type"]].setdefault(e["id"], set()).add(b["id"])
    req_eq({t: {k: set(v) for k, v in d.items()} for t, d in got.items()}, dict(exp), "related objects per type")
    # features of the exploded log
    c2 = {"objects": O, "events": [dict(e, id="%s_%s" % (e["id"], b["id"]), objs=[O.index(b)]) for e, b in rel]}
    full = event_ref(c2, case["es"], case["en"])
    es_ok = [k for k in case["es"] if any(k in e["attrs"] for e, _ in rel)]
    keep = ("@@event_act_", "@@event_timestamp", "@@event_num_rel_objs_type_", "@@event_attr_value_", "@@event_start_")
    acts = {e["act"] for e, _ in rel}
    exp = {}
    for e, b in rel:
        k = "%s_%s" % (e["id"], b["id"])
        d = {f: v for f, v in full[k].items() if f.startswith(keep) or f in {"@@event_num_" + a for a in case["en"]}}
        i = [q["id"] for q in lv[b["id"]]].index(e["id"])
        pre = lv[b["id"]][:i]
        d["@@ev_obj_pref_length"] = len(pre)
        d["@@ev_obj_pref_timediff"] = ts(e["t"]).timestamp() - ts(pre[0]["t"]).timestamp() if pre else 0.0
        for a in acts:
            d["@@ev_obj_pref_act_" + a] = sum(q["act"] == a for q in pre)
        exp[k] = d
    par = {"str_ev_attr": case["es"], "num_ev_attr": case["en"]}
    rows, names = A.apply(o, parameters=par)
    cmp(rows, names, ["%s_%s" % (e["id"], b["id"]) for e, b in rel], exp, "event-object features")
    nontriv(c, ctx)


def helpers(case, ctx):
    from pm4py.objects.ocel.util import parent_children_ref, ev_att_to_obj_type, ocel_to_dict_types_rel
    c = case["c"]
    O = c["objects"]
    types = sorted({x["type"] for x in O})
    child, parent = types[case["ot"] % len(types)], types[-1]
    o = oc.build(c)
    if child != parent:
        r = parent_children_ref.apply(o, child, parent)
        m, typ = omap(c), {x["id"]: x["type"] for x in O}
        got = {q["ocel:oid"]: oc.val(q[parent + "ID"]) for q in r.objects.to_dict("records")}
        for x in O:
            cand = {y for s in m.values() if x["id"] in s for y in s if typ[y] == parent} if x["type"] == child else set()
            if cand:
                require(got[x["id"]] in cand, "parent of %s is %s, expected one of %s", x["id"], got[x["id"]], sorted(cand))
            else:
                require(got[x["id"]] is None, "parent of %s is %s, expected none", x["id"], got[x["id"]])
    o = oc.build(c)
    before = oc.norm(o)
    if any("note" in e["attrs"] for e in c["events"]):
        n = oc.norm(ev_att_to_obj_type.apply(o, "note"))
        req_eq(oc.norm(o), before, "the log after ev_att_to_obj_type")
        vals = {e["attrs"]["note"] for e in c["events"] if "note" in e["attrs"]}
        req_eq(n["objects"], dict(before["objects"], **{v: ("note", {}) for v in vals}), "objects with the attribute values")
        req_eq(n["events"], {k: (a, t, {x: y for x, y in d.items() if x != "note"}) for k, (a, t, d) in before["events"].items()}, "events without the attribute")
        exp = Counter(before["relations"])
        for e in c["events"]:
            if "note" in e["attrs"]:
                exp[(e["id"], e["act"], oc.usec(e["t"]), e["attrs"]["note"], "note", None)] += 1
        req_eq(n["relations"], exp, "relations with the attribute values")
    d = ocel_to_dict_types_rel.apply(o)
    part = lambda df, k: {r[k] for r in df.to_dict("records")}
    req_eq({k: part(v, "ocel:eid") for k, v in d["ev_types"].items()}, {a: {e["id"] for e in c["events"] if e["act"] == a} for a in {e["act"] for e in c["events"]}}, "event types")
    req_eq({k: part(v, "ocel:oid") for k, v in d["obj_types"].items()}, {t: {x["id"] for x in O if x["type"] == t} for t in types}, "object types")
    exp = defaultdict(set)
    for e in c["events"]:
        for i in e["objs"]:
            exp[(e["act"], O[i]["type"])].add((e["id"], O[i]["id"]))
    req_eq({k: {(r["ocel:eid"], r["ocel:oid"]) for r in v.to_dict("records")} for k, v in d["e2o"].items()}, dict(exp), "relations per type")
    exp = defaultdict(set)
    for i, j, q in c.get("o2o", []):
        exp[(O[i]["type"], O[j]["type"])].add((O[i]["id"], O[j]["id"]))
    req_eq({k: {(r["ocel:oid"], r["ocel:oid_2"]) for r in v.to_dict("records")} for k, v in d["o2o"].items()}, dict(exp), "object relations per type")
    exp = defaultdict(Counter)
    for i, t, f, v in c.get("changes", []):
        exp[O[i]["type"]][(O[i]["id"], f)] += 1
    req_eq({k: Counter((r["ocel:oid"], r["ocel:field"]) for r in v.to_dict("records")) for k, v in d["changes"].items()}, dict(exp), "changes per type")
    nontriv(c, ctx)


@st.composite
def hcase(draw):
    return dict(c=draw(oc.spec(two=True, max_ev=7)), ot=draw(st.integers(0, 4)))


R = "an event with several objects and several object types"
UNITS = [Unit("events", case_(), events, quick=300, rule=R),
         Unit("objects", case_(), objects, quick=300, rule=R),
         Unit("facade", case_(), facade, quick=250, rule=R),
         Unit("exploded", case_(), exploded, quick=250, rule=R),
         Unit("helpers", hcase(), helpers, quick=300, rule=R)]

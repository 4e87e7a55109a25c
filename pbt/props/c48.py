"""C48 flattening, object-centric DFG and Petri nets, conversions to OCEL"""
import random, warnings
from collections import Counter, defaultdict
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import ocel as oc
import ref as R, gen, build
from build import ts

META = dict(
    title="Flattening, OC-DFG and OC Petri nets describe each object's history",
    statement="Flattening an OCEL on a type gives one case per object with exactly its events in order and the attributes of both. The object-centric DFG lists for every type exactly the activities, start, end and directly-follows occurrences of the objects with the events, objects and times behind them; the object-centric Petri net of every type replays every object of that type and marks exactly the activities with multiple objects. Converting a log with object columns to an OCEL gives those objects and relations; statistics per type and activity are exact.",
    over=["inputs"], quant="generated OCELs with ties, shared and isolated objects x types x miner variants; logs with object columns",
    why="tests check that discovery runs on two files",
    oracle="event sequences per object computed from the generated case; token game of the reference net",
    limits="The directly-follows based miner variant imd guarantees no replay, so only its alphabet is judged. Relations are in event order; for the im variant the events of an object have distinct time stamps (flattened logs are sorted by time).",
    files=["pm4py/objects/ocel/util", "pm4py/algo/discovery/ocel/ocdfg", "pm4py/algo/discovery/ocel/ocpn", "pm4py/statistics/ocel", "pm4py/ocel.py", "pm4py/convert.py"],
    mech=[("flattening", "pm4py/objects/ocel/util/flattening.py"), ("OC-DFG", "pm4py/algo/discovery/ocel/ocdfg/variants/classic.py"), ("edges", "pm4py/statistics/ocel/edge_metrics.py"), ("OCPN", "pm4py/algo/discovery/ocel/ocpn/variants/classic.py"), ("log to OCEL", "pm4py/objects/ocel/util/log_ocel.py")])
warnings.simplefilter("ignore")


def lives(c, t=None):
    """object -> list of events, for objects with events (of type t)"""
    out = defaultdict(list)
    for e in c["events"]:
        for i in e["objs"]:
            if t is None or c["objects"][i]["type"] == t:
                out[c["objects"][i]["id"]].append(e)
    return dict(out)


def types_(c):
    return sorted({o["type"] for o in c["objects"]})


def flat(case, ctx):
    c = case["log"]
    o = oc.build(c)
    before = oc.norm(o)
    for t in types_(c):
        d = pm4py.ocel_flattening(o, t)
        lv = lives(c, t)
        got = defaultdict(list)
        for r in oc.rows(d):
            got[r["case:concept:name"]].append({k: v for k, v in r.items() if k != "case:concept:name"})
        exp = {}
        ob = {x["id"]: x for x in c["objects"]}
        for x, es in lv.items():
            exp[x] = [{"ocel:eid": e["id"], "concept:name": e["act"], "time:timestamp": oc.usec(e["t"]), "case:ocel:type": t,
                       **{k: oc.val(v) for k, v in e["attrs"].items()}, **{"case:" + k: oc.val(v) for k, v in ob[x]["attrs"].items()}} for e in es]
        req_eq(dict(got), exp, "flattening on %s" % t)
    # extended table
    tab = {r["ocel:eid"]: r for r in oc.rows(o.get_extended_table().map(lambda v: tuple(v) if isinstance(v, list) else v))}
    exp = {}
    for e in c["events"]:
        r = {"ocel:eid": e["id"], "ocel:activity": e["act"], "ocel:timestamp": oc.usec(e["t"]), **{k: oc.val(v) for k, v in e["attrs"].items()}}
        for i in e["objs"]:
            k = "ocel:type:" + c["objects"][i]["type"]
            r[k] = r.get(k, ()) + (c["objects"][i]["id"],)
        exp[e["id"]] = r
    req_eq(tab, exp, "extended table")
    req_eq(oc.norm(o), before, "the input")
    if len(types_(c)) > 1 and len(lives(c)) > 2:
        ctx.nontrivial()


def ocdfg(case, ctx):
    c = case["log"]
    o = oc.build(c)
    before = oc.norm(o)
    bh = case["bh"]
    m = pm4py.discover_ocdfg(o, business_hours=bh, business_hour_slots=[(0, 7 * 24 * 3600)] if bh else None)
    E, O = c["events"], c["objects"]
    req_eq(m["activities"], {e["act"] for e in E}, "activities")
    req_eq(m["object_types"], {x["type"] for x in O}, "object types")
    ot = {x["id"]: x["type"] for x in O}

    def agg(pairs):
        """{activity: [(event, object)]} -> the three views"""
        return {"events": {a: {p[0] for p in ps} for a, ps in pairs.items()}, "unique_objects": {a: {p[1] for p in ps} for a, ps in pairs.items()}, "total_objects": {a: Counter(ps) for a, ps in pairs.items()}}

    def per_type(select):
        out = {"events": {}, "unique_objects": {}, "total_objects": {}}
        for t in types_(c):
            pr = defaultdict(list)
            for x, es in lives(c, t).items():
                for e in select(es):
                    pr[e["act"]].append((e["id"], x))
            if pr:
                for k, v in agg(pr).items():
                    out[k][t] = v
        return out

    def view(g, nested):
        if nested:
            return {k: {t: {a: (Counter(v) if k == "total_objects" else v) for a, v in d.items()} for t, d in g[k].items()} for k in g}
        return {k: {a: (Counter(v) if k == "total_objects" else v) for a, v in g[k].items()} for k in g}
    pr = defaultdict(list)
    for e in E:
        for i in e["objs"]:
            pr[e["act"]].append((e["id"], O[i]["id"]))
    req_eq(view(m["activities_indep"], False), agg(pr), "activities independent of the type")
    req_eq(view(m["activities_ot"], True), per_type(lambda es: es), "activities per type")
    req_eq(view(m["start_activities"], True), per_type(lambda es: es[:1]), "start activities")
    req_eq(view(m["end_activities"], True), per_type(lambda es: es[-1:]), "end activities")
    ed = defaultdict(lambda: defaultdict(list))
    tm = {e["id"]: e["t"] for e in E}
    for x, es in lives(c).items():
        for a, b in zip(es, es[1:]):
            ed[ot[x]][(a["act"], b["act"])].append((a["id"], b["id"], x))
    ed = {t: dict(d) for t, d in ed.items()}
    req_eq(m["edges"]["event_couples"], {t: {k: {p[:2] for p in v} for k, v in d.items()} for t, d in ed.items()}, "edges: event couples")
    req_eq(m["edges"]["unique_objects"], {t: {k: {p[2] for p in v} for k, v in d.items()} for t, d in ed.items()}, "edges: objects")
    req_eq({t: {k: Counter(v) for k, v in d.items()} for t, d in m["edges"]["total_objects"].items()}, {t: {k: Counter(v) for k, v in d.items()} for t, d in ed.items()}, "edges: total")
    perf = lambda pick: {t: {k: sorted(float(tm[p[1]] - tm[p[0]]) for p in pick(v)) for k, v in d.items()} for t, d in ed.items()}
    fl = lambda g: {t: {k: [float(x) for x in v] for k, v in d.items()} for t, d in g.items()}
    req_eq(fl(m["edges_performance"]["event_couples"]), perf(lambda v: {p[:2] for p in v}), "edge times per couple")
    req_eq(fl(m["edges_performance"]["total_objects"]), perf(lambda v: v), "edge times per object")
    # statistics
    req_eq({k: set(v) for k, v in pm4py.ocel_object_type_activities(o).items()}, {t: {e["act"] for es in lives(c, t).values() for e in es} for t in types_(c) if lives(c, t)}, "activities of the types")
    req_eq({k: dict(v) for k, v in pm4py.ocel_objects_ot_count(o).items()}, {e["id"]: dict(Counter(O[i]["type"] for i in e["objs"])) for e in E if e["objs"]}, "objects per event")
    from pm4py.objects.ocel.util import events_per_object_type, events_per_type_per_activity, objects_per_type_per_activity, convergence_divergence_diagnostics
    req_eq(events_per_object_type.apply(o), {t: len({e["id"] for es in lives(c, t).values() for e in es}) for t in types_(c)}, "events per type")

    def stat(xs):
        xs = sorted(xs)
        n = len(xs)
        return {"min": xs[0], "max": xs[-1], "mean": sum(xs) / n, "median": (xs[(n - 1) // 2] + xs[n // 2]) / 2}
    conv = {"divergence": set(), "convergence": set()}
    for f, by, name in ((events_per_type_per_activity, 1, "divergence"), (objects_per_type_per_activity, 0, "convergence")):
        cnt = defaultdict(lambda: defaultdict(Counter))
        for e in E:
            for i in e["objs"]:
                cnt[e["act"]][O[i]["type"]][O[i]["id"] if by else e["id"]] += 1
        exp = {e["act"]: {t: stat(q.values()) for t, q in cnt[e["act"]].items()} for e in E}
        req_eq(f.apply(o), exp, f.__name__.rsplit(".", 1)[-1])
        conv[name] = {(a, t) for a, d in exp.items() for t, s in d.items() if s["median"] > 1}
    req_eq(convergence_divergence_diagnostics.apply(o), conv, "convergence and divergence")
    req_eq(oc.norm(o), before, "the input")
    if any(len(d) > 1 for d in ed.values()):
        ctx.nontrivial()


def ocpn(case, ctx):
    c = case["log"]
    o = oc.build(c)
    before = oc.norm(o)
    v, tbr = case["v"], case["tbr"]
    m = pm4py.discover_oc_petri_net(o, inductive_miner_variant=v, diagnostics_with_tbr=tbr)
    used = {t for t in types_(c) if lives(c, t)}
    req_eq(set(m["petri_nets"]) & used, used, "types with nets")
    for t in used:
        net, im, fm = m["petri_nets"][t]
        lv = lives(c, t)
        acts = {e["act"] for es in lv.values() for e in es}
        r = R.RNet(net, im, fm)
        for x, es in lv.items():
            tr = [e["act"] for e in es]
            require(v == "imd" or R.net_accepts(r, tr), "the net of type %s (%s) does not replay object %s: %s", t, v, x, tr)
        req_eq({q.label for q in net.transitions if q.label is not None}, acts, "labels of the net")
        dbl = {}
        for a in acts:
            cnt = Counter(e["id"] for es in lv.values() for e in es if e["act"] == a)
            dbl[a] = sum(1 for n in cnt.values() if n == 1) / len(cnt) <= 0.8
        req_eq(m["double_arcs_on_activity"][t], dbl, "activities with several objects")
        if tbr and v in ("im", "imd"):
            pd_, tc = m["tbr_results"][t]
            req_eq({q for q in tc}, set(net.transitions), "transitions of the diagnostics")
            for q in pd_.values():
                require(q["p"] + q["m"] == q["c"] + q["r"], "token balance %r", q)
            if all(q["m"] == q["r"] == 0 for q in pd_.values()):
                cnt = Counter(e["act"] for es in lv.values() for e in es)
                for q, n in tc.items():
                    if q.label is not None:
                        req_eq(n, cnt[q.label], "replayed occurrences of %s" % q.label)
    req_eq(oc.norm(o), before, "the input")
    if any(len(x) > 2 for x in lives(c).values()):
        ctx.nontrivial()


def from_log(case, ctx):
    rows, kind = case["rows"], case["kind"]
    sep = case["sep"]
    recs = []
    for i, r in enumerate(rows):
        q = {"case:concept:name": "c%d" % r["c"], "concept:name": r["a"], "time:timestamp": ts(i * 10), "amount": float(r["n"]), "case:size": float(r["c"])}
        if kind != "multi":
            q["a"] = float(r["n"] + 1)  # attribute with the name of an activity
        for t in ("order", "item"):
            if r[t]:
                q[t] = sep.join("%s%d" % (t[0], k) for k in r[t])
            else:
                q[t] = None
        recs.append(q)
    d = pd.DataFrame(recs)
    d["time:timestamp"] = pd.to_datetime(d["time:timestamp"], utc=True)
    keep = d.copy()
    if kind == "multi":
        src = d if case["df"] else pm4py.convert_to_event_stream(d)
        o = pm4py.convert_log_to_ocel(src, object_types=["order", "item"], obj_separator=sep, additional_event_attributes=["amount"], additional_object_attributes={"order": ["case:size"]})
        n = oc.norm(o)
        req_eq({k: (a, t, x) for k, (a, t, x) in n["events"].items()}, {str(i): (r["a"], oc.usec(i * 10), {"amount": float(r["n"])}) for i, r in enumerate(rows)}, "events")
        ob, rel = {}, Counter()
        for i, r in enumerate(rows):
            for t in ("order", "item"):
                for k in r[t]:
                    x = "%s%d" % (t[0], k)
                    ob.setdefault(x, (t, {"case:size": float(r["c"])} if t == "order" else {}))
                    rel[(str(i), r["a"], oc.usec(i * 10), x, t)] += 1
        req_eq(n["objects"], ob, "objects")
        req_eq({k[:5]: v for k, v in n["relations"].items()}, dict(rel), "relations")
    else:
        from pm4py.objects.ocel.util import log_ocel
        if kind == "traditional":
            o = log_ocel.from_traditional_pandas(d, parameters={"target_object_type": "order"})
        else:
            o = log_ocel.from_traditional_log(pm4py.convert_to_event_log(d), parameters={"target_object_type": "order"})
        n = oc.norm(o)
        req_eq(Counter(q[:2] for q in n["events"].values()), Counter((r["a"], oc.usec(i * 10)) for i, r in enumerate(rows)), "events")
        for q in n["events"].values():
            r = rows[(q[1] - oc.usec(0)) // (oc.usec(10) - oc.usec(0))] if isinstance(q[1], int) else next(r for i, r in enumerate(rows) if oc.usec(i * 10) == q[1])
            req_eq((q[2].get("amount"), q[2].get("a")), (float(r["n"]), float(r["n"] + 1)), "attributes of the event")
        req_eq({k: q[0] for k, q in n["objects"].items()}, {"c%d" % r["c"]: "order" for r in rows}, "objects")
        req_eq(Counter(k[1:5] for k in n["relations"]), Counter((r["a"], oc.usec(i * 10), "c%d" % r["c"], "order") for i, r in enumerate(rows)), "relations")
        for k in n["relations"]:
            req_eq(n["events"][k[0]][:2], k[1:3], "relation refers to its event")
    pd.testing.assert_frame_equal(d, keep)
    if len(rows) > 2 and any(len(r["order"]) > 1 for r in rows):
        ctx.nontrivial()


@st.composite
def logs(draw):
    rows = []
    for _ in range(draw(st.integers(1, 6))):
        rows.append({"c": draw(st.integers(0, 2)), "a": draw(st.sampled_from("abc")), "n": draw(st.integers(0, 5)),
                     "order": draw(st.lists(st.integers(0, 3), max_size=2, unique=True)), "item": draw(st.lists(st.integers(0, 4), max_size=3, unique=True))})
    if not any(r["order"] for r in rows):
        rows[0]["order"] = [0]
    return {"rows": rows, "sep": draw(st.sampled_from([" AND ", ",", ";"])), "kind": draw(st.sampled_from(["multi", "multi", "traditional", "traditional_log"])), "df": draw(st.booleans())}


def distinct(c):
    for i, e in enumerate(c["events"]):
        e["t"] = i
    return c


RICH = oc.spec(max_ev=9, max_ob=5, acts=["a", "b", "c", "d"], types=["order", "item", "x y"])
UNITS = [Unit("flatten", st.fixed_dictionaries({"log": oc.spec()}), flat, 250, shards=2, rule="two types and more than two objects with events"),
         Unit("ocdfg", st.fixed_dictionaries({"log": RICH, "bh": st.booleans()}), ocdfg, 300, shards=2, rule="a type with two different edges"),
         Unit("ocpn", st.fixed_dictionaries({"log": RICH.map(distinct), "v": st.sampled_from(["im", "im", "imd"]), "tbr": st.booleans()}), ocpn, 200, shards=3, rule="an object with more than two events"),
         Unit("from_log", logs(), from_log, 150, rule="more than two events, one with two objects of a type")]

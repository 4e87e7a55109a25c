"""C47 filtering, sampling and splitting object-centric event logs"""
import random, warnings
from collections import Counter, defaultdict
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import ocel as oc
from build import ts

META = dict(
    title="OCEL filters keep exactly the matching events and objects, consistently",
    statement="Every filter on an OCEL (event or object attribute, identifiers, object types with levels, allowed activities per type, objects per type, start or end events of a type, time range, connected components by object, size, type or activity) keeps exactly the events or objects that satisfy its criterion; relations, object-to-object relations and changes are exactly those between kept items. Sampling and splitting give such restrictions with the requested number of objects or components, and no filter changes its input.",
    over=["inputs"], quant="generated OCELs with isolated items x all filters x criteria, also negated and composed",
    why="tests only run each filter on one log and mostly check no result",
    oracle="direct selection on the generated case; networkx-free computation of connected components",
    limits="Filtering events keeps the objects with a remaining relation (and filtering objects likewise the events): items that lose, or never had, all relations are dropped; relations are in time order.",
    files=["pm4py/algo/filtering/ocel", "pm4py/objects/ocel/util/filtering_utils.py", "pm4py/objects/ocel/util/sampling.py", "pm4py/algo/transformation/ocel/split_ocel", "pm4py/filtering.py", "pm4py/ocel.py"],
    mech=[("propagation", "pm4py/objects/ocel/util/filtering_utils.py"), ("filters", "pm4py/algo/filtering/ocel"), ("components", "pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py")])
warnings.simplefilter("ignore")
B = st.booleans()


def evs(case):
    return {e["id"] for e in case["events"]}


def obs(case):
    return {o["id"] for o in case["objects"]}


def omap(case):
    return {e["id"]: {case["objects"][i]["id"] for i in e["objs"]} for e in case["events"]}


def keep_events(case, sel):
    """content after selecting events: objects with a remaining relation"""
    m = omap(case)
    ob = {o for e in sel for o in m[e]}
    return oc.restrict(oc.ref(case), sel, ob)


def keep_objects(case, sel):
    m = omap(case)
    return oc.restrict(oc.ref(case), {e for e in m if m[e] & sel}, sel)


def keep_relations(case, pred):
    r = oc.ref(case)
    rel = Counter({k: v for k, v in r["relations"].items() if pred(k)})
    out = oc.restrict(r, {k[0] for k in rel}, {k[3] for k in rel})
    out["relations"] = rel
    return out


def comps(case):
    """connected components of objects sharing events; isolated objects form their own"""
    par = {o: o for o in obs(case)}

    def f(x):
        while par[x] != x:
            x = par[x]
        return x
    for s in omap(case).values():
        s = sorted(s)
        for x in s[1:]:
            par[f(x)] = f(s[0])
    g = defaultdict(set)
    for o in par:
        g[f(o)].add(o)
    return list(g.values())


def same(got, exp, what):
    req_eq(oc.norm(got), exp, what)


SP = oc.spec(two=True, quals=True, e2e=True, min_ob=1, max_ob=7)


def check(case, ctx):
    c = case["log"]
    o = oc.build(c)
    ref = oc.ref(c)
    req_eq(oc.norm(o), ref, "harness")
    before = oc.norm(o)
    k, pos = case["k"], case["pos"]
    E, O = c["events"], c["objects"]
    acts = sorted({e["act"] for e in E})
    tps = sorted({x["type"] for x in O})
    pick = lambda xs, n=2: [xs[i % len(xs)] for i in case["ids"][:n]]
    n_ev, n_ob = len(E), len(O)

    def sub(all_, chosen):
        return set(chosen) & set(all_) if pos else set(all_) - set(chosen)
    if k == "event_attribute":
        a = case["attr"]
        vals = pick(acts) if a == 0 else pick([e["attrs"].get("note", "x") for e in E]) if a == 1 else pick([e["attrs"].get("amount", 1.0) for e in E])
        key = ["ocel:activity", "note", "amount"][a]
        if key not in o.events:
            return ctx.label("no such attribute")
        get = lambda e: e["act"] if a == 0 else e["attrs"].get(key)
        got = pm4py.filter_ocel_event_attribute(o, key, vals, positive=pos)
        exp = keep_events(c, {e["id"] for e in E if (get(e) in vals) == pos})
    elif k == "object_attribute":
        a = case["attr"]
        key = ["ocel:type", "colour", "weight"][a]
        if key not in o.objects:
            return ctx.label("no such attribute")
        get = lambda x: x["type"] if a == 0 else x["attrs"].get(key)
        vals = [v for v in pick([get(x) for x in O]) if v is not None] or ["zz"]
        got = pm4py.filter_ocel_object_attribute(o, key, vals, positive=pos)
        exp = keep_objects(c, {x["id"] for x in O if (get(x) in vals) == pos})
    elif k == "types":
        vals, lv = pick(tps, 1 + case["attr"] % 2), case["level"]
        base = {x["id"] for x in O if x["type"] in vals}
        got = pm4py.filter_ocel_object_types(o, vals, positive=pos, level=lv)
        exp = keep_objects(c, sub(obs(c), expand(c, base, lv)))
    elif k == "objects":
        lv = case["level"]
        base = {x["id"] for x in pick(O)}
        arg = sorted(base)
        got = pm4py.filter_ocel_objects(o, arg, positive=pos, level=lv)
        req_eq(arg, sorted(base), "identifiers given")
        exp = keep_objects(c, sub(obs(c), expand(c, base, lv)))
    elif k == "events":
        base = {e["id"] for e in pick(E, 3)}
        got = pm4py.filter_ocel_events(o, sorted(base), positive=pos)
        exp = keep_events(c, sub(evs(c), base))
    elif k == "allowed":
        d = {t: pick(acts, 1 + i) for i, t in enumerate(pick(tps))}
        got = pm4py.filter_ocel_object_types_allowed_activities(o, d)
        exp = keep_relations(c, lambda r: r[4] in d and r[1] in d[r[4]])
        req_eq(set(oc.norm(got)["events"]), set(exp["events"]), "allowed: events")
    elif k == "per_type":
        d = {t: 1 + i % 2 for i, t in zip(case["ids"], pick(tps))}
        got = pm4py.filter_ocel_object_per_type_count(o, d)
        cnt = lambda e: Counter(O[i]["type"] for i in e["objs"])
        exp = keep_events(c, {e["id"] for e in E if e["objs"] and all(cnt(e)[t] >= n for t, n in d.items())})
    elif k in ("start", "end"):
        t = pick(tps)[0]
        f = pm4py.filter_ocel_start_events_per_object_type if k == "start" else pm4py.filter_ocel_end_events_per_object_type
        got = f(o, t)
        first = {}
        for e in E:
            for i in e["objs"]:
                if O[i]["type"] == t and (k == "end" or O[i]["id"] not in first):
                    first[O[i]["id"]] = e["id"]
        exp = keep_events(c, set(first.values()))
    elif k == "time":
        lo, hi = sorted(case["range"])
        f = lambda x: ts(x).strftime("%Y-%m-%d %H:%M:%S")
        got = pm4py.filter_ocel_events_timestamp(o, f(lo), f(hi))
        exp = keep_events(c, {e["id"] for e in E if lo <= e["t"] <= hi})
    elif k == "cc_object":
        x = pick(O)[0]["id"]
        got, cc = pm4py.filter_ocel_cc_object(o, x, return_conn_comp=True)
        mine = next(s for s in comps(c) if x in s)
        exp = keep_objects(c, mine)
        require(all(set(q) in comps(c) for q in cc), "components %r", cc)
        same(pm4py.filter_ocel_cc_object(o, x), exp, "cc_object")
        same(pm4py.filter_ocel_cc_object(o, x, conn_comp=cc), exp, "cc_object with given components")
    elif k == "cc_length":
        lo, hi = sorted(1 + i % 4 for i in case["ids"][:2])
        got = pm4py.filter_ocel_cc_length(o, lo, hi)
        exp = keep_objects(c, {x for s in comps(c) if lo <= len(s) <= hi for x in s})
    elif k == "cc_otype":
        t = pick(tps)[0]
        tp = {x["id"]: x["type"] for x in O}
        got = pm4py.filter_ocel_cc_otype(o, t, positive=pos)
        exp = keep_objects(c, {x for s in comps(c) if any(tp[y] == t for y in s) == pos for x in s})
    elif k == "cc_activity":
        a = pick(acts)[0]
        m = omap(c)
        touched = {x for e in E if e["act"] == a for x in m[e["id"]]}
        got = pm4py.filter_ocel_cc_activity(o, a)
        exp = keep_objects(c, {x for s in comps(c) if s & touched for x in s})
    same(got, exp, k + (" pos" if pos else " neg"))
    req_eq(oc.norm(o), before, k + ": the input")
    if exp["events"] and len(exp["relations"]) < len(ref["relations"]) and len(ref["relations"]) > 2:
        ctx.nontrivial()
    ctx.label(k)


def expand(c, base, level):
    m = omap(c)
    cur = set(base)
    for _ in range(level - 1):
        cur |= {o for s in m.values() if s & cur for o in s}
    return cur


KINDS = ["event_attribute", "object_attribute", "types", "objects", "events", "allowed", "per_type", "start", "end", "time", "cc_object", "cc_length", "cc_otype", "cc_activity"]


@st.composite
def cases(draw):
    return {"log": draw(SP), "k": draw(st.sampled_from(KINDS)), "pos": draw(B), "attr": draw(st.integers(0, 2)), "level": draw(st.integers(1, 3)),
            "ids": draw(st.lists(st.integers(0, 7), min_size=3, max_size=3)), "range": draw(st.tuples(st.integers(-1, 41), st.integers(-1, 41)))}


def sampling(case, ctx):
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
    from pm4py.objects.ocel.util import sampling as smp
    c, n = case["log"], case["n"]
    o = oc.build(c)
    ref = before = oc.norm(o)
    random.seed(case["seed"])
    k = case["k"]
    if k == "objects":
        g = oc.norm(pm4py.sample_ocel_objects(o, n))
        req_eq(len(g["objects"]), min(n, len(c["objects"])), "number of sampled objects")
        req_eq(g, keep_objects(c, set(g["objects"])), "sampled objects")
    elif k == "events":
        g = oc.norm(smp.sample_ocel_events(o, parameters={"num_entities": n}))
        req_eq(len(g["events"]), min(n, len(c["events"])), "number of sampled events")
        req_eq(g, keep_events(c, set(g["events"])), "sampled events")
    else:
        used = {x for s in omap(c).values() for x in s}
        cc = [s for s in comps(c) if s & used]
        plain = lambda x: {t: x[t] for t in ("events", "objects", "relations")}
        parts = split.apply(o, variant=split.Variants.CONNECTED_COMPONENTS)
        got = sorted((oc.norm(p) for p in parts), key=lambda q: sorted(q["objects"]))
        exp = sorted((keep_objects(c, s) for s in cc), key=lambda q: sorted(q["objects"]))
        req_eq([plain(x) for x in got], [plain(x) for x in exp], "split by connected components")
        mx = case["mx"]
        g = oc.norm(pm4py.sample_ocel_connected_components(o, n, max_num_events_per_cc=mx[0], max_num_objects_per_cc=mx[1], max_num_e2o_relations_per_cc=mx[2]))
        ok = [x for x in exp if len(x["events"]) <= mx[0] and len(x["objects"]) <= mx[1] and sum(x["relations"].values()) <= mx[2]]
        picked = [x for x in ok if set(x["objects"]) & set(g["objects"])]
        req_eq(len(picked), min(n, len(ok)), "number of sampled components")
        req_eq(plain(g), plain(keep_objects(c, {y for x in picked for y in x["objects"]})), "sampled components")
        if len(cc) > 2 and len(ok) > n:
            ctx.nontrivial()
    if k != "cc" and 0 < sum(g["relations"].values()) < sum(ref["relations"].values()):
        ctx.nontrivial()
    req_eq(oc.norm(o), before, k + ": the input")


@st.composite
def scases(draw):
    return {"log": draw(SP), "k": draw(st.sampled_from(["objects", "events", "cc", "cc"])), "n": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 99)),
            "mx": [draw(st.sampled_from([99, 1, 2, 3])) for _ in range(3)]}


UNITS = [Unit("filters", cases(), check, 1400, shards=6, rule="something kept, some relation dropped, more than two relations"),
         Unit("sampling", scases(), sampling, 400, shards=2, rule="a proper part sampled")]

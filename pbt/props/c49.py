"""C49 object graphs, enrichment, summaries and clean-up of object-centric logs"""
import random, warnings
from collections import Counter, defaultdict
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import ocel as oc
from build import ts
from props.c48 import lives, types_
from props.c47 import omap, keep_objects, obs

META = dict(
    title="Object graphs, enrichments and clean-up operations follow the definitions",
    statement="The object graphs contain exactly the pairs of objects that share an event (interaction), that start in an event with an older object (descendants), where one ends in the event in which the other starts (inheritance), or that start (cobirth) or end (codeath) together; the enrichments add exactly these relations and the lifecycle qualifiers. Summaries list exactly the activities, times, durations and interacting objects, and merging, dropping, sorting and shifting events and renaming objects or types change only what they announce.",
    over=["inputs"], quant="generated OCELs with ties, duplicate events, isolated events and objects",
    why="tests call each function once and ignore most results",
    oracle="direct computation from the event sequences of the generated case",
    limits="In the inheritance graph pairs in both directions cancel out (as implemented); merging with a common object is only checked to be sound; events without objects are outside merging.",
    files=["pm4py/algo/transformation/ocel/graphs", "pm4py/objects/ocel/util", "pm4py/objects/conversion/ocel", "pm4py/algo/transformation/ocel/split_ocel", "pm4py/algo/discovery/ocel/link_analysis", "pm4py/ocel.py"],
    mech=[("graphs", "pm4py/algo/transformation/ocel/graphs"), ("o2o enrichment", "pm4py/algo/transformation/ocel/graphs/ocel20_computation.py"), ("lifecycle enrichment", "pm4py/objects/ocel/util/e2o_qualification.py"), ("summaries", "pm4py/ocel.py"), ("links", "pm4py/algo/discovery/ocel/link_analysis/variants/classic.py")])
warnings.simplefilter("ignore")


def ref_graphs(c):
    lv = {x: [e["id"] for e in es] for x, es in lives(c).items()}
    m = omap(c)
    first = {x: es[0] for x, es in lv.items()}
    last = {x: es[-1] for x, es in lv.items()}
    g = {k: set() for k in ("object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath")}
    for e, s in m.items():
        for a in s:
            for b in s:
                if a == b:
                    continue
                if a < b:
                    g["object_interaction"].add((a, b))
                    if first[a] == first[b] == e:
                        g["object_cobirth"].add((a, b))
                    if last[a] == last[b] == e:
                        g["object_codeath"].add((a, b))
                if first[b] == e and first[a] != e:
                    g["object_descendants"].add((a, b))
                if first[b] == e and last[a] == e:
                    g["object_inheritance"].add((a, b))
    h = g["object_inheritance"]
    g["object_inheritance"] = {p for p in h if p[::-1] not in h}
    return g


def graphs(case, ctx):
    c = case["log"]
    o = oc.build(c)
    before = oc.norm(o)
    g = ref_graphs(c)
    for k, exp in g.items():
        req_eq(pm4py.discover_objects_graph(o, k), exp, k)
    inc = case["inc"]
    names = [k + "_graph" for k in g]
    arg = None if inc is None else {names[i] for i in inc}
    r = pm4py.ocel_o2o_enrichment(o, included_graphs=arg)
    exp = Counter(before["o2o"])
    for k, v in g.items():
        if arg is None or k + "_graph" in arg:
            for p in v:
                exp[p + (k + "_graph",)] += 1
                if k == "object_interaction":
                    exp[p[::-1] + (k + "_graph",)] += 1
    n = oc.norm(r)
    req_eq(dict(n["o2o"]), dict(exp), "o2o enrichment")
    req_eq({k: v for k, v in n.items() if k != "o2o"}, {k: v for k, v in before.items() if k != "o2o"}, "o2o enrichment: the rest")
    req_eq(oc.norm(o), before, "o2o enrichment: the input")
    r = pm4py.ocel_e2o_lifecycle_enrichment(o)
    lv = {x: [e["id"] for e in es] for x, es in lives(c).items()}
    exp = Counter()
    for k, v in before["relations"].items():
        es = lv[k[3]]
        q = "creation" if k[0] == es[0] else "termination" if k[0] == es[-1] else "other"
        exp[k[:5] + (q,)] += v
    n = oc.norm(r)
    req_eq(dict(n["relations"]), dict(exp), "lifecycle enrichment")
    req_eq({k: v for k, v in n.items() if k != "relations"}, {k: v for k, v in before.items() if k != "relations"}, "lifecycle enrichment: the rest")
    req_eq(oc.norm(o), before, "lifecycle enrichment: the input")
    # networkx
    G = pm4py.convert_ocel_to_networkx(o, variant="ocel_features_to_nx")
    req_eq(set(G.edges), set().union(*g.values()), "networkx of the object graphs")
    G = pm4py.convert_ocel_to_networkx(o)
    E = defaultdict(set)
    for a, b, d in G.edges(data=True):
        E[d["attr"]["type"]].add((a, b))
    nodes = Counter(d["attr"]["type"] for _, d in G.nodes(data=True))
    req_eq((nodes["EVENT"], nodes["OBJECT"], nodes["CHANGE"]), (len(c["events"]), len(c["objects"]), len(c.get("changes", []))), "networkx nodes")
    req_eq(E["E2O"], {(e, x) for e, s in omap(c).items() for x in s}, "networkx E2O")
    req_eq(E["O2O"], {k[:2] for k in before["o2o"]}, "networkx O2O")
    req_eq(E["DF"], {(a, b) for es in lv.values() for a, b in zip(es, es[1:])}, "networkx DF")
    req_eq(oc.norm(o), before, "networkx: the input")
    if sum(1 for v in g.values() if v) >= 4:
        ctx.nontrivial()


def summaries(case, ctx):
    c = case["log"]
    o = oc.build(c)
    before = oc.norm(o)
    lv, m = lives(c), omap(c)
    g = defaultdict(set)
    for s in m.values():
        for a in s:
            g[a] |= s - {a}
    rs = {r["ocel:oid"]: r for r in pm4py.ocel_objects_summary(o).to_dict("records")}
    req_eq(set(rs), set(lv), "objects summary: objects")
    for x, es in lv.items():
        r = rs[x]
        got = (list(r["activities_lifecycle"]), oc.val(r["lifecycle_start"]), oc.val(r["lifecycle_end"]), float(r["lifecycle_duration"]), set(r["interacting_objects"]))
        req_eq(got, ([e["act"] for e in es], oc.usec(es[0]["t"]), oc.usec(es[-1]["t"]), float(es[-1]["t"] - es[0]["t"]), g[x]), "objects summary of %s" % x)
    d = pm4py.ocel_objects_interactions_summary(o)
    tp = {x["id"]: x["type"] for x in c["objects"]}
    exp = Counter((e["id"], e["act"], a, tp[a], b, tp[b]) for e in c["events"] for a in m[e["id"]] for b in m[e["id"]] if a != b)
    req_eq(Counter(map(tuple, d[["ocel:eid", "ocel:activity", "ocel:oid", "ocel:type", "ocel:oid_2", "ocel:type_2"]].values.tolist())) if len(d) else Counter(), exp, "interactions summary")
    d = pm4py.ocel_temporal_summary(o)
    got = {oc.val(r["ocel:timestamp"]): (set(r["ocel:activity"]), set(r["ocel:oid"])) for r in d.to_dict("records")}
    exp = {}
    for e in c["events"]:
        if e["objs"]:
            q = exp.setdefault(oc.usec(e["t"]), (set(), set()))
            q[0].add(e["act"])
            q[1].update(m[e["id"]])
    req_eq(got, exp, "temporal summary")
    req_eq(sorted(pm4py.ocel_get_object_types(o)), types_(c), "object types")
    req_eq(set(pm4py.ocel_get_attribute_names(o)), {k for e in c["events"] for k in e["attrs"]} | {k for x in c["objects"] for k in x["attrs"]}, "attribute names")
    from pm4py.objects.ocel.util import related_events, related_objects, parent_children_ref, attributes_per_type
    ex = {t: {x: [e["id"] for e in es] for x, es in lives(c, t).items()} for t in types_(c) if lives(c, t)}
    req_eq(related_events.related_events_dct(o), ex, "related events")
    req_eq({k: sorted(v) for k, v in related_objects.related_objects_dct_overall(o).items()}, {e: sorted(s) for e, s in m.items()}, "related objects")
    s = str(o)
    require("number of events: %d" % len(c["events"]) in s and "number of objects: %d" % len(c["objects"]) in s and "relationships: %d)" % sum(len(e["objs"]) for e in c["events"]) in s, "summary %r", s)
    req_eq(oc.norm(o), before, "the input")
    if len(lv) > 2 and any(len(v) > 1 for v in g.values()):
        ctx.nontrivial()


def cleanup(case, ctx):
    c, k = case["log"], case["k"]
    o = oc.build(c)
    ref = oc.ref(c)
    E, m = c["events"], omap(c)
    ev, ob = oc.related(c)
    if k == "merge":
        com = case["flag"]
        if any(not e["objs"] for e in E):
            return ctx.label("event without objects")
        r = pm4py.ocel_merge_duplicates(o, have_common_object=com)
        n = oc.norm(r)
        got = Counter((a, t) for a, t, _ in n["events"].values())
        allp = {(e["act"], oc.usec(e["t"])) for e in E}
        if not com:
            req_eq(got, Counter(allp), "merged events")
        req_eq(set(got), allp, "merged events")
        exp = set()
        for e in E:
            for x in m[e["id"]]:
                exp.add((e["act"], oc.usec(e["t"]), x))
        req_eq({k[1:4] for k in n["relations"]}, exp, "merged relations")
        require(max(n["relations"].values()) == 1, "duplicate relations after merging")
        for q in n["relations"]:
            req_eq(n["events"].get(q[0], (None, None))[:2], q[1:3], "relation refers to its event")
        if com:
            # the events merged into one share an object
            sets = defaultdict(set)
            for q in n["relations"]:
                sets[q[0]].add(q[3])
            for i, (a, t, _) in n["events"].items():
                parts = [m[e["id"]] for e in E if e["act"] == a and oc.usec(e["t"]) == t and m[e["id"]] <= sets[i]]
                require(any(set().union(*[p for p in parts if x in p] or [set()]) == sets[i] for x in sets[i]), "merged event %s with %s has no common object", i, sets[i])
        req_eq(n["objects"], ref["objects"], "objects after merging")
        if len(n["events"]) < len(E):
            ctx.nontrivial()
    elif k == "drop":
        n = oc.norm(pm4py.ocel_drop_duplicates(o))
        seen, rel = set(), Counter()
        for e in E:
            for i in e["objs"]:
                q = (e["id"], e["act"], oc.usec(e["t"]), c["objects"][i]["id"], c["objects"][i]["type"])
                if q[1:4] not in seen:
                    seen.add(q[1:4])
                    rel[q] = 1
        req_eq({q[:5]: v for q, v in n["relations"].items()}, dict(rel), "relations after dropping duplicates")
        exp = oc.restrict(ref, {q[0] for q in rel}, {q[3] for q in rel})
        for t in ("events", "objects", "o2o", "changes"):
            req_eq(n[t], exp[t], "dropping duplicates: " + t)
        if len(rel) < len(ref["relations"]):
            ctx.nontrivial()
    elif k == "sort":
        o.events = o.events.sample(frac=1, random_state=case["seed"]).reset_index(drop=True)
        order = {e: i for i, e in enumerate(o.events["ocel:eid"])}
        o.events["@@w"] = [float(case["w"][int(e[1:]) % len(case["w"])]) for e in o.events["ocel:eid"]]
        n = pm4py.ocel_sort_by_additional_column(o, "@@w")
        got = n.events["ocel:eid"].tolist()
        exp = [e["id"] for e in sorted(E, key=lambda e: (e["t"], case["w"][int(e["id"][1:]) % len(case["w"])], order[e["id"]]))]
        req_eq(got, exp, "sorting by an additional column")
        if len({e["t"] for e in E}) < len(E):
            ctx.nontrivial()
    elif k == "shift":
        n = oc.norm(pm4py.ocel_add_index_based_timedelta(o))
        idx = {e["id"]: i for i, e in enumerate(E)}
        req_eq({q: (a, t, x) for q, (a, t, x) in n["events"].items()}, {q: (a, t + 1000 * idx[q], x) for q, (a, t, x) in ref["events"].items()}, "shifted events")
        req_eq(n["relations"], Counter({(q[0], q[1], q[2] + 1000 * idx[q[0]]) + q[3:]: v for q, v in ref["relations"].items()}), "shifted relations")
        ctx.nontrivial()
    elif k in ("rename", "strip", "abbrev"):
        from pm4py.objects.ocel.util import rename_objs_ot_tim_lex, ocel_type_renaming
        if k == "rename":
            if ob != obs(c):
                return ctx.label("object without events")
            r = rename_objs_ot_tim_lex.apply(o)
            lv = lives(c)
            mp = {}
            for t in types_(c):
                xs = sorted((x["id"] for x in c["objects"] if x["type"] == t), key=lambda x: (lv[x][0]["t"], lv[x][-1]["t"], x))
                mp.update({x: "%s_%d" % (t, i + 1) for i, x in enumerate(xs)})
            f = lambda x: mp[x]
            ga = gt = lambda x: x
        else:
            f = lambda x: x
            cap = lambda s: "".join(w.capitalize() for w in s.split(" "))
            if k == "strip":
                r = ocel_type_renaming.remove_spaces_non_alphanumeric_characters_from_types(o)
                ga = gt = cap
            else:
                r = ocel_type_renaming.abbreviate_event_types(o)
                new = {e: a for e, (a, _, _) in oc.norm(r)["events"].items()}
                mp = {}
                for e in E:
                    req_eq(mp.setdefault(e["act"], new[e["id"]]), new[e["id"]], "abbreviation of %s" % e["act"])
                req_eq(len(set(mp.values())), len(mp), "distinct abbreviations")
                ga, gt = (lambda x: mp[x]), (lambda x: x)
        n = oc.norm(r)
        exp = {"events": {q: (ga(a), t, x) for q, (a, t, x) in ref["events"].items()}, "objects": {f(q): (gt(t), x) for q, (t, x) in ref["objects"].items()},
               "relations": Counter({(q[0], ga(q[1]), q[2], f(q[3]), gt(q[4]), q[5]): v for q, v in ref["relations"].items()}),
               "o2o": Counter({(f(q[0]), f(q[1]), q[2]): v for q, v in ref["o2o"].items()}), "e2e": ref["e2e"],
               "changes": Counter({(f(q[0]), gt(q[1])) + q[2:]: v for q, v in ref["changes"].items()})}
        req_eq(n, exp, k)
        req_eq(oc.norm(o), ref, k + ": the input")
        ctx.nontrivial()
    elif k == "cluster":
        if ob != obs(c):
            return ctx.label("object without events")
        t = types_(c)[0]
        r = pm4py.cluster_equivalent_ocel(o, t)
        parts = [(d, q) for d, qs in r.items() for q in qs]
        req_eq(Counter(q.parameters["@@central_object"] for _, q in parts), Counter(x["id"] for x in c["objects"] if x["type"] == t), "one sub-log per object")
        lv = lives(c)
        st_ = {x: es[0]["t"] for x, es in lv.items()}
        inter = ref_graphs(c)["object_interaction"]
        succ = defaultdict(set)
        leading = {x["id"] for x in c["objects"] if x["type"] == t}
        for a, b in inter:
            if st_[a] < st_[b]:
                succ[a].add(b)
            elif st_[b] < st_[a]:
                succ[b].add(a)
            elif a in leading:
                succ[a].add(b)
            elif b in leading:
                succ[b].add(a)
        pred = defaultdict(set)
        for a in succ:
            for b in succ[a]:
                pred[b].add(a)

        def reach(x, g):
            out, todo = set(), [x]
            while todo:
                for y in g[todo.pop()]:
                    if y not in out:
                        out.add(y)
                        todo.append(y)
            return out
        for d, q in parts:
            x = q.parameters["@@central_object"]
            keep = {x} | reach(x, succ) | reach(x, pred)
            req_eq(oc.norm(q), keep_objects(c, keep), "execution of %s" % x)

        def sig(q):
            n = oc.norm(q)
            return (Counter(a for a, _, _ in n["events"].values()), Counter(tt for tt, _ in n["objects"].values()), sum(n["relations"].values()))
        for d, qs in r.items():
            require(all(sig(q) == sig(qs[0]) for q in qs), "members of one cluster differ: %r", [sig(q) for q in qs])
        if len(parts) > 1:
            ctx.nontrivial()
    ctx.label(k)


def links(case, ctx):
    """events whose outgoing value equals the incoming value of a later event"""
    from pm4py.algo.discovery.ocel.link_analysis import algorithm as la
    rows = case["rows"]
    d = pd.DataFrame([{"id": "r%d" % i, "time:timestamp": ts(i * 10), "O": "v%d" % a if a else None, "I": "v%d" % b if b else None} for i, (a, b) in enumerate(rows)])
    d["time:timestamp"] = pd.to_datetime(d["time:timestamp"], utc=True)
    for k in ("O", "I"):
        d[k] = d[k].astype("string")
    P = la.Variants.CLASSIC.value.Parameters
    par = {P.OUT_COLUMN: "O", P.IN_COLUMN: "I", P.SORTING_COLUMN: "time:timestamp", P.LOOK_FORWARD: case["fwd"], P.KEEP_FIRST_OCCURRENCE: case["first"], P.PROPAGATE: case["prop"]}
    keep = d.copy()
    out = la.apply(d, parameters=par)
    pd.testing.assert_frame_equal(d, keep)
    n = len(rows)
    a = {i: [j for j in range(n) if rows[i][0] and rows[i][0] == rows[j][1] and (i < j or not case["fwd"])] for i in range(n)}
    if case["first"]:
        a = {i: v[:1] for i, v in a.items()}
    a = {i: set(v) for i, v in a.items()}
    if case["prop"]:
        ch = True
        while ch:
            ch = False
            for i in a:
                new = a[i].union(*[a[j] for j in a[i]])
                if new != a[i]:
                    a[i], ch = new, True
    exp = Counter(("r%d" % i, "r%d" % j) for i in a for j in a[i])
    req_eq(Counter(zip(out["id_out"], out["id_in"])), exp, "links")
    if len(exp) > 2:
        ctx.nontrivial()


def interleave(case, ctx):
    """timestamp-based interleavings: exactly the handovers between the two processes of related cases"""
    from pm4py.algo.discovery.ocel.interleavings import algorithm as il

    def df_(L):
        r = [{"case:concept:name": cid, "concept:name": a, "time:timestamp": ts(t)} for cid, es in L for a, t in es]
        return pm4py.format_dataframe(pd.DataFrame(r))
    L1 = [("c%d" % i, [("l" + a, 2 * t) for a, t in es]) for i, es in enumerate(case["left"])]
    L2 = [("d%d" % i, [("r" + a, 2 * t + 1) for a, t in es]) for i, es in enumerate(case["right"])]
    rel = [("c%d" % (i % len(L1)), "d%d" % (j % len(L2))) for i, j in case["rel"]]
    rel = sorted(set(rel))
    cr = pd.DataFrame({"case:concept:name_LEFT": [x for x, _ in rel], "case:concept:name_RIGHT": [y for _, y in rel]})
    out = il.apply(df_(L1), df_(L2), cr)
    exp = Counter()
    d1, d2 = dict(L1), dict(L2)
    S, T, INF = "▶", "■", 10 ** 9

    def ext(es):
        return [(S, -INF)] + sorted(es, key=lambda q: q[1]) + [(T, INF)]
    for x, y in rel:
        a, b = ext(d1[x]), ext(d2[y])
        for s, s2 in zip(a, a[1:]):
            for t, t2 in zip(b, b[1:]):
                if s[1] < t[1] < s2[1] < t2[1]:
                    exp[("LR", s[0], t[0], t[1] - s[1])] += 1
                if t[1] < s[1] < t2[1] < s2[1]:
                    exp[("RL", t2[0], s2[0], s2[1] - t2[1])] += 1
    got = Counter((r["@@direction"], r["@@source_activity"], r["@@target_activity"], round(r["@@timestamp_diff"])) for r in out.to_dict("records"))
    f = lambda g: Counter(k[:3] + (k[3] if k[3] < 10 ** 6 else "artificial",) for k in g.elements())
    req_eq(f(got), f(exp), "interleavings")
    if len(exp) > 1:
        ctx.nontrivial()


@st.composite
def traces_(draw):
    ts_ = sorted(draw(st.lists(st.integers(0, 15), min_size=1, max_size=4, unique=True)))
    return [[draw(st.sampled_from("abc")), t] for t in ts_]


SP = oc.spec(two=True, quals=True, max_t=12, acts=["Create Order", "pick", "ship"])
FIELDS = {"events": ["ocel:eid", "ocel:activity"], "objects": ["ocel:oid", "ocel:type"], "relations": ["ocel:eid", "ocel:oid", "ocel:activity", "ocel:type"], "o2o": ["ocel:oid", "ocel:oid_2"], "e2e": ["ocel:eid", "ocel:eid_2"], "object_changes": ["ocel:oid"]}


def consistency(case, ctx):
    """rows without identifiers or types are dropped, nothing else"""
    from pm4py.objects.ocel.util import ocel_consistency
    o = oc.build(case["log"], string=case["string"])
    exp, bad = {}, 0
    for i, (tab, fields) in enumerate(FIELDS.items()):
        d = getattr(o, tab)
        cut = set()
        for w, (f, v) in case["poke"]:
            if w % len(FIELDS) == i and len(d):
                k = (w // 7) % len(d)
                d.iloc[k, d.columns.get_loc(fields[f % len(fields)])] = v
                cut.add(k)
        bad += len(cut)
        exp[tab] = [r for k, r in enumerate(d.to_dict("records")) if k not in cut]
    r = ocel_consistency.apply(o)
    for tab in FIELDS:
        f = lambda rs: [{k: oc.val(v) for k, v in x.items() if oc.val(v) is not None} for x in rs]
        req_eq(f(getattr(r, tab).to_dict("records")), f(exp[tab]), "rows kept in %s" % tab)
    if bad:
        ctx.nontrivial()


UNITS = [Unit("graphs", st.fixed_dictionaries({"log": SP, "inc": st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=1, unique=True))}), graphs, 300, shards=2, rule="at least four non-empty graphs"),
         Unit("summaries", st.fixed_dictionaries({"log": oc.spec(max_t=12)}), summaries, 250, shards=2, rule="more than two objects, one interacting with several"),
         Unit("cleanup", st.fixed_dictionaries({"log": st.one_of(oc.spec(max_t=3, acts=["Create Order", "pick"], all_rel=True), SP), "k": st.sampled_from(["sort", "drop", "merge", "merge", "shift", "rename", "strip", "abbrev", "cluster", "cluster"]), "flag": st.booleans(), "seed": st.integers(0, 9), "w": st.lists(st.integers(0, 2), min_size=1, max_size=4)}), cleanup, 500, shards=3, rule="the operation changes something (kind dependent)"),
         Unit("links", st.fixed_dictionaries({"rows": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=7), "fwd": st.booleans(), "first": st.booleans(), "prop": st.booleans()}), links, 150, rule="more than two links"),
         Unit("interleavings", st.fixed_dictionaries({"left": st.lists(traces_(), min_size=1, max_size=3), "right": st.lists(traces_(), min_size=1, max_size=3), "rel": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=4)}), interleave, 120, rule="more than one kind of handover"),
         Unit("consistency", st.fixed_dictionaries({"log": oc.spec(two=True, quals=True, e2e=True), "string": st.booleans(), "poke": st.lists(st.tuples(st.integers(0, 300), st.tuples(st.integers(0, 3), st.sampled_from([None, "", float("nan")]))), max_size=4)}), consistency, 120, rule="a row has no identifier or type")]

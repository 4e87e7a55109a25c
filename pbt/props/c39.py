"""C39 event filters and sub-case filters keep exactly the stated events; DFG filters keep a connected sub-graph"""
from hypothesis import strategies as st
import gen, build, flt
from collections import Counter
from core import Unit, require, req_eq
from props.c38 import A, dts
import pm4py

META = dict(
    title="Event, sub-case and DFG filters keep exactly the stated parts",
    statement="Filters on events (attribute values, numeric range, time window, relative occurrence, prefixes, suffixes, between two activities, activity split, grouping of consecutive or simultaneous events, most frequent activities) return exactly the events described, in their order and with their attributes, in the stated (sub-)case, for dataframes and for event logs alike. Filters of directly-follows graphs keep counts unchanged, keep at least the requested most frequent share, and every activity they keep lies on a path from a start to an end activity.",
    over=["inputs"], quant="logs with missing attributes, ties, repeated activities, interleaved rows x parameters drawn from the log; DFGs of generated logs x percentages, thresholds and target activities",
    why="tests only count events on fixed logs; repeated occurrences, missing values, activities whose concatenation with the case collides, interleaved rows and borders are not sampled",
    oracle="list comprehensions over the generated events; for DFGs graph reachability with plain dictionaries",
    files=["pm4py/filtering.py", "pm4py/algo/filtering/pandas", "pm4py/algo/filtering/log", "pm4py/algo/filtering/dfg/dfg_filtering.py"],
    mech=[("attribute filters", "pm4py/algo/filtering/log/attributes/attributes_filter.py"), ("between", "pm4py/algo/filtering/pandas/between/between_filter.py"), ("prefixes", "pm4py/algo/filtering/log/prefixes/prefix_filter.py"), ("grouping", "pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py"), ("graph filters", "pm4py/algo/filtering/dfg/dfg_filtering.py")])


def run(log, exp, ctx, calls, what, empty_ok=True, kinds=("df", "log")):
    """exp: {case id: [event ids]}; cases without events may be present or absent"""
    exp = {k: v for k, v in exp.items() if v}
    tot = sum(len(c["events"]) for c in log["cases"])
    if 0 < sum(map(len, exp.values())) < tot:
        ctx.nontrivial()
    for kind in kinds:
        o = flt.frame(log) if kind == "df" else flt.elog(log)
        m0 = None if kind == "df" else flt.meta(o)
        r = calls(o, kind)
        got = {k: v for k, v in flt.content(r).items() if v}
        req_eq(got, exp, "%s on %s" % (what, kind))
        if m0 is not None:
            req_eq(flt.meta(r), m0, "%s: metadata of the log" % what)
            x = {e["id"]: e for c in log["cases"] for e in c["events"]}
            for t in r:
                for e in t:
                    req_eq((e["concept:name"], e.get("x"), e.get("org:resource")), (x[e["eid"]]["a"], x[e["eid"]].get("x"), x[e["eid"]].get("r")), "%s: attributes" % what)


def evs(log, pred):
    return {c["id"]: [e["id"] for e in c["events"] if pred(e)] for c in log["cases"]}


def chk_events(case, ctx):
    from pm4py.algo.filtering.pandas.attributes import attributes_filter as pa
    from pm4py.algo.filtering.log.attributes import attributes_filter as la
    log, k, ret, acts = case["log"], case["k"], case["ret"], case["acts"]
    ctx.label(k)
    mod = lambda kind: pa if kind == "df" else la
    if k == "value":
        run(log, evs(log, lambda e: (e["a"] in acts) == ret), ctx, lambda o, _: pm4py.filter_event_attribute_values(o, "concept:name", acts, level="event", retain=ret), k)
    elif k == "xvalue":
        run(log, evs(log, lambda e: (e.get("x") in case["xs"]) == ret), ctx, lambda o, _: pm4py.filter_event_attribute_values(o, "x", case["xs"], level="event", retain=ret), k)
    elif k == "resource":
        run(log, evs(log, lambda e: (e.get("r") in ("r0", "R1", "Ann")) == ret), ctx, lambda o, _: pm4py.filter_event_attribute_values(o, "org:resource", ["r0", "R1", "Ann"], level="event", retain=ret), k)
    elif k == "numeric":
        a, b = sorted(case["xs"] * 2)[:2][0], max(case["xs"])
        # events without the attribute are in neither part on event logs and on dataframes with the positive filter
        pr = {"pm4py:param:attribute_key": "x", "positive": ret}
        exp = evs(log, lambda e: a <= e["x"] <= b if "x" in e else False) if ret else evs(log, lambda e: "x" in e and not a <= e["x"] <= b)
        run(log, exp, ctx, lambda o, kind: mod(kind).apply_numeric_events(o, a, b, parameters=dict(pr)), k)
    elif k == "window":
        run(log, evs(log, lambda e: case["lo"] <= e["t"] <= case["hi"]), ctx, lambda o, _: pm4py.filter_time_range(o, dts(case["lo"]), dts(case["hi"]), mode="events"), k)
    elif k == "relative":
        lv = case["level"]
        n = len(log["cases"]) if lv == "cases" else sum(len(c["events"]) for c in log["cases"])
        cnt = Counter(x for c in log["cases"] for x in (set(A(c)) if lv == "cases" else A(c)))
        run(log, evs(log, lambda e: cnt[e["a"]] >= case["p"] * n), ctx, lambda o, _: pm4py.filter_log_relative_occurrence_event_attribute(o, case["p"], level=lv), k + " " + lv)
    elif k == "most frequent":
        cnt = Counter(x for c in log["cases"] for x in A(c))
        n = case["n"]
        for kind in ("df", "log"):
            o = flt.frame(log) if kind == "df" else flt.elog(log)
            r = pa.filter_df_keeping_spno_activities(o, activity_key="concept:name", max_no_activities=n) if kind == "df" else la.filter_log_on_max_no_activities(o, max_no_activities=n)
            got = flt.content(r)
            x = {e["id"]: e["a"] for c in log["cases"] for e in c["events"]}
            kept = {x[i] for v in got.values() for i in v}
            req_eq(len(kept), min(n, len(cnt)), "most frequent on %s: number of activities" % kind)
            req_eq({c: v for c, v in got.items() if v}, {c: v for c, v in evs(log, lambda e: e["a"] in kept).items() if v}, "most frequent on %s: events" % kind)
            rest = [cnt[a] for a in cnt if a not in kept]
            require(not rest or max(rest) <= min(cnt[a] for a in kept), "most frequent on %s: kept %r of %r", kind, kept, cnt)
        if len(cnt) > n:
            ctx.nontrivial()


@st.composite
def event_cases(draw):
    log = draw(flt.flog(gap=20))
    pool = sorted({a for c in log["cases"] for a in A(c)})
    ts = sorted({e["t"] for c in log["cases"] for e in c["events"]})
    near = st.sampled_from(ts).flatmap(lambda t: st.sampled_from([t - 1, t, t, t + 1]))
    lo, hi = sorted([draw(near), draw(near)])
    n = len(log["cases"])
    return {"log": log, "k": draw(st.sampled_from(["value", "xvalue", "resource", "numeric", "window", "relative", "most frequent"])), "ret": draw(st.booleans()),
            "acts": draw(st.lists(st.sampled_from(pool + ["ZZ"]), min_size=1, max_size=2)), "xs": draw(st.lists(st.integers(0, 5), min_size=1, max_size=2)),
            "lo": lo, "hi": hi, "level": draw(st.sampled_from(["cases", "events"])), "p": draw(st.one_of(st.floats(0, 1), st.integers(0, n).map(lambda i: i / n))),
            "n": draw(st.integers(1, 4))}


def chk_sub(case, ctx):
    log, k, a, b = case["log"], case["k"], case["a"], case["b"]
    ctx.label(k)
    if k in ("prefixes", "suffixes"):
        exp = {}
        for c in log["cases"]:
            pos = [i for i, x in enumerate(A(c)) if x == a]
            if pos:
                p = pos[0] if case["fl"] == "first" else pos[-1]
                ids = [e["id"] for e in c["events"]]
                if k == "prefixes":
                    exp[c["id"]] = ids[:p] if case["strict"] else ids[:p + 1]
                else:
                    exp[c["id"]] = ids[p + 1:] if case["strict"] else ids[p:]
        f = pm4py.filter_prefixes if k == "prefixes" else pm4py.filter_suffixes
        run(log, exp, ctx, lambda o, _: f(o, a, strict=case["strict"], first_or_last=case["fl"]), k)
        if exp and case["fl"] == "first":
            # a second filter on the result
            g = lambda o, _: pm4py.filter_suffixes(f(o, a, strict=case["strict"], first_or_last=case["fl"]), b, strict=False)
            ev = {e["id"]: e["a"] for c in log["cases"] for e in c["events"]}
            exp2 = {}
            for c, ids in exp.items():
                pos = [i for i, x in enumerate(ids) if ev[x] == b]
                if pos:
                    exp2[c] = ids[pos[0]:]
            if any(exp.values()):
                run(log, exp2, ctx, g, k + " then suffixes")
    elif k == "between":
        As, Bs = case["As"], case["Bs"]
        x, y = (a, b) if case["single"] else (As, Bs)
        inx, iny = (lambda v: v == a if case["single"] else v in As), (lambda v: v == b if case["single"] else v in Bs)
        exp = {}
        for c in log["cases"]:
            start, n = None, 0
            ids = [e["id"] for e in c["events"]]
            for i, v in enumerate(A(c)):
                if start is not None and iny(v):
                    exp["%s##@@%d" % (c["id"], n)] = ids[start:i + 1]
                    n += 1
                    start = i if x == y else None
                elif start is None and inx(v):
                    start = i
        run(log, exp, ctx, lambda o, _: pm4py.filter_between(o, x, y), k)
    elif k == "split":
        from pm4py.algo.filtering.pandas.activity_split import activity_split_filter as f
        mode = case["mode"]
        exp = {}
        for c in log["cases"]:
            n = 0
            for e in c["events"]:
                hit = e["a"] == a if case["single"] else e["a"] in case["As"]
                if hit and mode == "this":
                    n += 1
                exp.setdefault("%s##@@%d" % (c["id"], n), []).append(e["id"])
                if hit and mode == "next":
                    n += 1
        d = flt.frame(log, formatted=False)
        if case["perm"]:
            # interleave the cases keeping each case's own order
            key = {c["id"]: i for i, c in enumerate(log["cases"])}
            order = sorted(range(len(d)), key=lambda i: (case["perm"][i % len(case["perm"])] + d["eid"].tolist()[i], i))
            seen = {}
            order = sorted(range(len(d)), key=lambda i: (d.groupby("case:concept:name").cumcount().tolist()[i], i))
            d = d.iloc[order].reset_index(drop=True)
        got = flt.content(f.apply(d, a if case["single"] else case["As"], parameters={"cut_mode": mode}))
        req_eq(got, exp, "activity split")
        if len(exp) > len(log["cases"]):
            ctx.nontrivial()
    else:
        d = flt.frame(log)
        if k == "consecutive":
            from pm4py.algo.filtering.pandas.consecutive_act_case_grouping import consecutive_act_case_grouping_filter as f
            keyf = lambda e: e["a"]
        else:
            from pm4py.algo.filtering.pandas.timestamp_case_grouping import timestamp_case_grouping_filter as f
            keyf = lambda e: e["t"]
        ft = case["ft"] if k == "same time" else ("first" if case["ft"] == "concat" else case["ft"])
        r = f.apply(d, parameters={"filter_type": ft})
        exp = []
        for c in sorted(log["cases"], key=lambda c: c["id"]):
            grp = []
            for e in c["events"]:
                if grp and keyf(grp[-1][-1]) == keyf(e):
                    grp[-1].append(e)
                else:
                    grp.append([e])
            for g in grp:
                e = g[-1] if ft == "last" else g[0]
                name = " & ".join(sorted(x["a"] for x in g)) if ft == "concat" else e["a"]
                exp.append((c["id"], e["id"], name, e["t"], e.get("x"), e.get("r")))
                if len(g) > 1:
                    ctx.nontrivial()
        nn = lambda v: None if v is None or v != v or str(v) == "<NA>" else v
        got = [(str(q["case:concept:name"]), q["eid"], q["concept:name"], int(round(q["time:timestamp"].timestamp() - gen.BASE)), nn(q["x"]), nn(q["org:resource"])) for q in r.to_dict("records")]
        req_eq(got, exp, "grouping %s %s" % (k, ft))


@st.composite
def sub_cases(draw):
    log = draw(flt.flog(gap=20, odd=0))
    if draw(st.integers(0, 3)) == 0:
        # case + activity texts that collide
        ren = {x: str(i + 1) * 2 for i, x in enumerate("ABCD")}
        for c, i in zip(log["cases"], ["1", "11", "111", "12", "2", "22"]):
            c["id"] = i
            for e in c["events"]:
                e["a"] = ren.get(e["a"], e["a"])
    pool = sorted({a for c in log["cases"] for a in A(c)})
    s = st.sampled_from(pool)
    As, Bs = sorted(set(draw(st.lists(s, min_size=1, max_size=2)))), sorted(set(draw(st.lists(s, min_size=1, max_size=2))))
    return {"log": log, "k": draw(st.sampled_from(["prefixes", "suffixes", "between", "between", "split", "consecutive", "same time"])), "a": draw(s), "b": draw(s), "As": As, "Bs": Bs,
            "single": draw(st.booleans()), "strict": draw(st.booleans()), "fl": draw(st.sampled_from(["first", "last"])), "mode": draw(st.sampled_from(["this", "next"])),
            "ft": draw(st.sampled_from(["first", "last", "concat"])), "perm": draw(st.one_of(st.just([]), st.just([1])))}


def closure(edges, src):
    seen, todo = set(src), list(src)
    while todo:
        x = todo.pop()
        for a, b in edges:
            if a == x and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def chk_dfg(case, ctx):
    import math
    from pm4py.algo.filtering.dfg import dfg_filtering as f
    log = case["log"]
    trs = [A(c) for c in log["cases"]]
    dfg = dict(Counter(p for t in trs for p in zip(t, t[1:])))
    sa, ea = dict(Counter(t[0] for t in trs)), dict(Counter(t[-1] for t in trs))
    ac = dict(Counter(a for t in trs for a in t))
    before = (dict(dfg), dict(sa), dict(ea), dict(ac))
    p, k, keep = case["p"], case["k"], case["keep"]
    ctx.label(k)
    if k == "activities":
        r = f.filter_dfg_on_activities_percentage(dfg, sa, ea, ac, p)
    elif k == "paths":
        r = f.filter_dfg_on_paths_percentage(dfg, sa, ea, ac, p, keep_all_activities=keep)
    elif k == "dependency":
        r = f.filter_dfg_keep_connected(dfg, sa, ea, ac, p, keep_all_activities=keep)
    elif k == "to":
        r = f.filter_dfg_to_activity(dfg, sa, ea, ac, case["a"])
    elif k == "from":
        r = f.filter_dfg_from_activity(dfg, sa, ea, ac, case["a"])
    else:
        r = f.filter_dfg_contain_activity(dfg, sa, ea, ac, case["a"])
    req_eq((dfg, sa, ea, ac), before, "input dictionaries of %s" % k)
    g, s, e, c = (dict(x) for x in r)
    if len(g) < len(dfg) or len(c) < len(ac):
        ctx.nontrivial()
    for nm, x, y in (("arcs", g, dfg), ("activities", c, ac)):
        for q in x:
            require(q in y and x[q] == y[q], "%s: %s %r has %r, the graph %r", k, nm, q, x[q], y.get(q))
    for q in g:
        require(q[0] in c and q[1] in c, "%s: arc %r between removed activities", k, q)
    for nm, x, y in (("start", s, sa), ("end", e, ea)):
        for q in x:
            require(q in c, "%s: %s activity %r removed", k, nm, q)
            if not ((k == "to" and nm == "end") or (k == "from" and nm == "start")):
                require(x[q] == y.get(q), "%s: %s activity %r has %r, the graph %r", k, nm, q, x[q], y.get(q))
    fw = closure(list(g), s)
    bw = closure([(b, a) for a, b in g], e)
    for a in c:
        require(a in fw and a in bw, "%s: kept activity %r is not on a path from start to end in %r %r %r", k, a, g, s, e)
    if k == "activities" and len(ac) > 1 and len(dfg) > 1:
        top = sorted(ac, key=lambda a: (ac[a], a), reverse=True)[:math.ceil((len(ac) - 1) * p) + 1]
        require(set(top) <= set(c), "activities: the %d most frequent activities %r are not all kept: %r", len(top), top, sorted(c))
        if p == 1:
            req_eq((g, s, e, c), before, "activities: percentage 1")
    if k == "paths" and len(ac) > 1 and len(dfg) > 1:
        allc = sorted(list(dfg.values()) + list(sa.values()) + list(ea.values()), reverse=True)
        cut = allc[math.ceil((len(allc) - 1) * p)]
        for src, dst in ((dfg, g), (sa, s), (ea, e)):
            for q in src:
                require(src[q] <= cut or q in dst, "paths: %r with %d occurrences removed, the cut is %d", q, src[q], cut)
        if keep:
            req_eq(set(c), set(ac), "paths keeping all activities")
    if k == "dependency" and keep and len(ac) > 1 and len(dfg) > 1:
        req_eq(set(c), set(ac), "dependency keeping all activities")
    if k == "to":
        req_eq(set(e), {case["a"]}, "to: end activities")
        exp = closure([x for x in dfg if x[0] != case["a"]], sa) & closure([(b, a) for a, b in dfg if a != case["a"]], [case["a"]])
        req_eq(set(c), exp, "to: activities between a start activity and the target")
        req_eq(set(g), {x for x in dfg if x[0] in exp and x[1] in exp and x[0] != case["a"]}, "to: arcs")
    if k == "from":
        req_eq(set(s), {case["a"]}, "from: start activities")
        exp = closure([x for x in dfg if x[1] != case["a"]], [case["a"]]) & closure([(b, a) for a, b in dfg if b != case["a"]], ea)
        req_eq(set(c), exp, "from: activities between the source and an end activity")
        req_eq(set(g), {x for x in dfg if x[0] in exp and x[1] in exp and x[1] != case["a"]}, "from: arcs")
    if k == "contain":
        require(case["a"] in c, "contain: the activity is removed")
        E = list(dfg)
        exp = closure([(y, x) for x, y in E], [case["a"]]) | closure(E, [case["a"]])
        req_eq(set(c), exp, "contain: activities that reach or are reached from %r" % case["a"])
        req_eq(set(g), {q for q in E if q[0] in exp and q[1] in exp}, "contain: arcs")


@st.composite
def dfg_cases(draw):
    log = draw(gen.log(n_act=6, max_len=7, max_traces=7, equal_ts=False))
    pool = sorted({a for c in log["cases"] for a in A(c)})
    return {"log": log, "k": draw(st.sampled_from(["activities", "paths", "dependency", "to", "from", "contain"])), "p": draw(st.sampled_from([0.0, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 1.0])),
            "keep": draw(st.booleans()), "a": draw(st.sampled_from(pool))}


UNITS = [
    Unit("events", event_cases(), chk_events, 350, rule="a proper, non-empty subset of the events is kept (or fewer activities than present)"),
    Unit("subcases", sub_cases(), chk_sub, 350, rule="a proper, non-empty subset of the events is kept, or a group of several events, or a case that is split"),
    Unit("dfg", dfg_cases(), chk_dfg, 900, rule="something is removed from the graph"),
]

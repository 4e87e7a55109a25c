"""C38 case filters keep exactly the cases that satisfy the condition, whole"""
from hypothesis import strategies as st
import gen, build, flt, datetime
from collections import Counter
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Case filters keep exactly the satisfying cases, whole and in order",
    statement="Every filter on cases (start/end activities, variants and their coverage, directly/eventually-follows relations, rework, size, duration, time window, attribute values, four-eyes, different resources, trace segments, prefixes, path performance) keeps exactly the cases that satisfy its stated condition, on dataframes and on event logs alike. The kept cases have all their events in their order, retain/positive=False keeps exactly the other cases where the filter offers it, and the metadata of an event log is kept.",
    over=["inputs"], quant="logs with missing attributes, ties, odd labels (separators, regular expression characters) and repeated activities x parameters drawn from and around the values of the log",
    why="tests count the cases kept on two fixed logs with plain labels; borders of intervals, labels containing separators, repeated activities and missing values are not sampled",
    oracle="a predicate per filter evaluated on the generated case, applied to a dataframe and to an event log",
    files=["pm4py/filtering.py", "pm4py/algo/filtering/pandas", "pm4py/algo/filtering/log", "pm4py/algo/filtering/common"],
    mech=[("simplified interface", "pm4py/filtering.py"), ("temporal conditions", "pm4py/algo/filtering/pandas/ltl/ltl_checker.py"), ("variants", "pm4py/algo/filtering/log/variants/variants_filter.py"), ("trace segments", "pm4py/algo/filtering/common/traces/infix_to_regex.py"), ("time windows", "pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py")])


def seg(inf, t):
    if not inf:
        return not t
    if inf[0] == "...":
        return any(seg(inf[1:], t[k:]) for k in range(len(t) + 1))
    return bool(t) and t[0] == inf[0] and seg(inf[1:], t[1:])


def has_ef(t, path, ev=None, bounds=None, i=0, prev=None):
    if not path:
        return True
    for j in range(i, len(t)):
        if t[j] == path[0]:
            if bounds and prev is not None:
                lo, hi = bounds[0]
                if not lo <= ev[j]["t"] - ev[prev]["t"] <= hi:
                    continue
            nb = bounds[1:] if (bounds and prev is not None) else bounds
            if has_ef(t, path[1:], ev, nb, j + 1, j):
                return True
    return False


def dts(sec):
    return build.ts(sec).strftime("%Y-%m-%d %H:%M:%S")


def run(case, exp, ctx, calls, what):
    """calls(o, kind) -> result; exp: set of case ids"""
    log = case["log"]
    full = {c["id"]: [e["id"] for e in c["events"]] for c in log["cases"]}
    for kind in ("df", "log"):
        o = flt.frame(log) if kind == "df" else flt.elog(log)
        m0 = None if kind == "df" else flt.meta(o)
        r = calls(o, kind)
        got = flt.content(r)
        req_eq(set(got), exp, "%s on %s: kept cases" % (what, kind))
        for c in got:
            req_eq(got[c], full[c], "%s on %s: events of kept case %s" % (what, kind, c))
        if m0 is not None:
            req_eq(flt.meta(r), m0, "%s: metadata of the log" % what)
    if exp and len(exp) < len(full):
        ctx.nontrivial()


def sel(log, pred):
    return {c["id"] for c in log["cases"] if pred(c)}


def neg(log, ids, ret):
    return ids if ret else {c["id"] for c in log["cases"]} - ids


def A(c):
    return [e["a"] for e in c["events"]]


def chk_acts(case, ctx):
    log, acts, ret = case["log"], case["acts"], case["ret"]
    k = case["k"]
    ctx.label(k)
    if k == "start":
        run(case, neg(log, sel(log, lambda c: A(c)[0] in acts), ret), ctx, lambda o, _: pm4py.filter_start_activities(o, acts, retain=ret), k)
    elif k == "end":
        run(case, neg(log, sel(log, lambda c: A(c)[-1] in acts), ret), ctx, lambda o, _: pm4py.filter_end_activities(o, set(acts), retain=ret), k)
    elif k == "value":
        run(case, neg(log, sel(log, lambda c: any(a in acts for a in A(c))), ret), ctx,
            lambda o, _: pm4py.filter_event_attribute_values(o, "concept:name", acts, level="case", retain=ret), k)
    elif k == "xvalue":
        run(case, neg(log, sel(log, lambda c: any(e.get("x") in case["xs"] for e in c["events"])), ret), ctx,
            lambda o, _: pm4py.filter_event_attribute_values(o, "x", case["xs"], level="case", retain=ret), k)
    elif k == "color":
        run(case, neg(log, sel(log, lambda c: c.get("color") in case["colors"]), ret), ctx,
            lambda o, kind: pm4py.filter_trace_attribute_values(o, "case:color" if kind == "df" else "color", case["colors"], retain=ret), k)
    elif k == "dfr":
        rel = [tuple(p) for p in case["pairs"]]
        run(case, neg(log, sel(log, lambda c: any(p in rel for p in zip(A(c), A(c)[1:]))), ret), ctx,
            lambda o, _: pm4py.filter_directly_follows_relation(o, rel, retain=ret), k)
    elif k == "efr":
        rel = [tuple(p) for p in case["pairs"]]
        run(case, neg(log, sel(log, lambda c: any(has_ef(A(c), p) for p in rel)), ret), ctx,
            lambda o, _: pm4py.filter_eventually_follows_relation(o, rel, retain=ret), k)
    elif k == "rework":
        run(case, sel(log, lambda c: A(c).count(acts[0]) >= case["n"]), ctx, lambda o, _: pm4py.filter_activities_rework(o, acts[0], case["n"]), k)
        from pm4py.algo.filtering.pandas.attr_value_repetition import filter as pf
        from pm4py.algo.filtering.log.attr_value_repetition import filter as lf
        run(case, sel(log, lambda c: case["n"] <= A(c).count(acts[0]) <= case["n"] + 1), ctx,
            lambda o, kind: (pf if kind == "df" else lf).apply(o, acts[0], parameters={"min_rep": case["n"], "max_rep": case["n"] + 1}), "value repetition")
    elif k == "segments":
        run(case, neg(log, sel(log, lambda c: any(seg(s, A(c)) for s in case["segs"])), ret), ctx,
            lambda o, _: pm4py.filter_trace_segments(o, case["segs"], positive=ret), k)
    elif k == "abc":
        from pm4py.algo.filtering.pandas.ltl import ltl_checker as pl
        from pm4py.algo.filtering.log.ltl import ltl_checker as ll
        x = (acts * 3)[:3]
        run(case, neg(log, sel(log, lambda c: any(A(c)[i:i + 3] == x for i in range(len(A(c))))), ret), ctx,
            lambda o, kind: (pl if kind == "df" else ll).A_next_B_next_C(o, *x, parameters={"positive": ret}), k)
    elif k in ("prefix", "suffix"):
        from pm4py.algo.filtering.pandas.starts_with import starts_with_filter as sw
        from pm4py.algo.filtering.pandas.ends_with import ends_with_filter as ew
        f = sw if k == "prefix" else ew
        pre = [tuple(s) for s in case["seqs"]]
        pred = (lambda c: any(tuple(A(c)[:len(p)]) == p for p in pre)) if k == "prefix" else (lambda c: any(len(p) <= len(A(c)) and tuple(A(c)[len(A(c)) - len(p):]) == p for p in pre))
        run(case, neg(log, sel(log, pred), ret), ctx, lambda o, kind: f.apply(o, pre, parameters={"positive": ret}) if kind == "df" else flt_log(o, log, neg(log, sel(log, pred), ret)), k)


def flt_log(o, log, ids):
    # the filter is offered for dataframes only
    from pm4py.objects.log.obj import EventLog
    return EventLog([t for t in o if t.attributes["concept:name"] in ids], attributes=o.attributes, extensions=o.extensions, classifiers=o.classifiers, omni_present=o.omni_present)


@st.composite
def act_cases(draw):
    log = draw(flt.flog())
    pool = sorted({a for c in log["cases"] for a in A(c)}) + ["ZZ"]
    act = st.sampled_from(pool)
    seqs = []
    for _ in range(draw(st.integers(1, 2))):
        t = A(draw(st.sampled_from(log["cases"])))
        i = draw(st.integers(0, len(t) - 1))
        j = draw(st.integers(i + 1, len(t)))
        seqs.append(t[i:j])
    segs = []
    for s in seqs:
        s = list(s)
        for _ in range(draw(st.integers(0, 3))):
            s.insert(draw(st.integers(0, len(s))), "...")
        if draw(st.integers(0, 3)) == 0 and len(s) > 1:
            del s[draw(st.integers(0, len(s) - 1))]
        segs.append(s)
    return {"log": log, "k": draw(st.sampled_from(["start", "end", "value", "xvalue", "color", "dfr", "efr", "rework", "segments", "abc", "prefix", "suffix"])),
            "acts": draw(st.lists(act, min_size=1, max_size=3)), "ret": draw(st.booleans()), "n": draw(st.integers(1, 3)),
            "xs": draw(st.lists(st.integers(0, 5), min_size=1, max_size=2)), "colors": draw(st.lists(st.sampled_from(["red", "green", "black"]), min_size=1, max_size=2)),
            "pairs": draw(st.lists(st.tuples(act, act).map(list), min_size=1, max_size=2)), "seqs": seqs, "segs": segs}


def chk_time(case, ctx):
    log, k, ret = case["log"], case["k"], case["ret"]
    lo, hi = case["lo"], case["hi"]
    ctx.label(k)
    dur = lambda c: c["events"][-1]["t"] - c["events"][0]["t"]
    if k == "contained":
        run(case, sel(log, lambda c: lo <= c["events"][0]["t"] and c["events"][-1]["t"] <= hi), ctx,
            lambda o, _: pm4py.filter_time_range(o, dts(lo), dts(hi), mode="traces_contained"), k)
    elif k == "intersecting":
        run(case, sel(log, lambda c: c["events"][0]["t"] <= hi and c["events"][-1]["t"] >= lo), ctx,
            lambda o, _: pm4py.filter_time_range(o, dts(lo), dts(hi), mode="traces_intersecting"), k)
    elif k == "duration":
        run(case, sel(log, lambda c: case["d0"] <= dur(c) <= case["d1"]), ctx, lambda o, _: pm4py.filter_case_performance(o, case["d0"], case["d1"]), k)
    elif k == "path":
        p = tuple(case["path"])
        run(case, neg(log, sel(log, lambda c: any((e["a"], f["a"]) == p and case["d0"] <= f["t"] - e["t"] <= case["d1"] for e, f in zip(c["events"], c["events"][1:]))), ret), ctx,
            lambda o, _: pm4py.filter_paths_performance(o, p, case["d0"], case["d1"], keep=ret), k)
    elif k == "ltl":
        from pm4py.algo.filtering.pandas.ltl import ltl_checker as pl
        from pm4py.algo.filtering.log.ltl import ltl_checker as ll
        path = list(case["path"]) + ([case["third"]] if case["third"] else [])
        b = [(case["d0"], case["d1"])] * (len(path) - 1)
        run(case, neg(log, sel(log, lambda c: has_ef(A(c), path, c["events"], b)), ret), ctx,
            lambda o, kind: (pl if kind == "df" else ll).eventually_follows(o, path, parameters={"positive": ret, "enable_timestamp": True, "timestamp_diff_boundaries": b}), k)
    elif k == "attr in window":
        from pm4py.algo.filtering.pandas.timestamp import timestamp_filter as pt
        from pm4py.algo.filtering.log.timestamp import timestamp_filter as lt
        a = case["path"][0]
        run(case, sel(log, lambda c: any(e["a"] == a and lo <= e["t"] <= hi for e in c["events"])), ctx,
            lambda o, kind: (pt if kind == "df" else lt).filter_traces_attribute_in_timeframe(o, "concept:name", a, dts(lo), dts(hi)), k)
    elif k == "numeric":
        from pm4py.algo.filtering.pandas.attributes import attributes_filter as pa
        from pm4py.algo.filtering.log.attributes import attributes_filter as la
        pr = {"attribute_key": "x", "positive": ret, "pm4py:param:attribute_key": "x"}
        a = case["path"][0]
        if case["third"]:
            pr.update({"stream_filter_key1": "concept:name", "stream_filter_value1": a})
        ok = lambda e: 1 <= e.get("x", -9) <= 3 and (not case["third"] or e["a"] == a)
        run(case, neg(log, sel(log, lambda c: any(ok(e) for e in c["events"])), ret), ctx,
            lambda o, kind: (pa if kind == "df" else la).apply_numeric(o, 1, 3, parameters=pr), k)


@st.composite
def time_cases(draw):
    log = draw(flt.flog(gap=20))
    ts = sorted({e["t"] for c in log["cases"] for e in c["events"]})
    near = st.one_of(st.sampled_from(ts), st.sampled_from(ts).map(lambda t: t + 1), st.sampled_from(ts).map(lambda t: t - 1), st.integers(0, max(ts) + 5))
    lo, hi = sorted([draw(near), draw(near)])
    ds = sorted({f["t"] - e["t"] for c in log["cases"] for e in c["events"] for f in c["events"] if f["t"] >= e["t"]})
    d = st.one_of(st.sampled_from(ds), st.sampled_from(ds).map(lambda x: x + 1), st.integers(0, 40))
    d0, d1 = sorted([draw(d), draw(d)])
    t = draw(st.sampled_from(log["cases"]))["events"]
    i = draw(st.integers(0, len(t) - 1))
    j = draw(st.integers(i, len(t) - 1))
    pool = [a for c in log["cases"] for a in A(c)]
    return {"log": log, "k": draw(st.sampled_from(["contained", "intersecting", "duration", "path", "ltl", "attr in window", "numeric"])),
            "ret": draw(st.booleans()), "lo": lo, "hi": hi, "d0": d0, "d1": d1, "path": [t[i]["a"], t[min(j, i + draw(st.integers(1, 2)))]["a"]],
            "third": draw(st.one_of(st.none(), st.sampled_from(pool)))}


def chk_people(case, ctx):
    from pm4py.algo.filtering.pandas.ltl import ltl_checker as pl
    from pm4py.algo.filtering.log.ltl import ltl_checker as ll
    log, (a, b), ret = case["log"], case["ab"], case["ret"]
    rs = lambda c, x: {e["r"] for e in c["events"] if e["a"] == x and "r" in e}
    feye = sel(log, lambda c: rs(c, a) and rs(c, b) and not rs(c, a) & rs(c, b))
    viol = sel(log, lambda c: rs(c, a) & rs(c, b))
    run(case, feye, ctx, lambda o, _: pm4py.filter_four_eyes_principle(o, a, b), "four eyes")
    run(case, viol, ctx, lambda o, kind: (pl if kind == "df" else ll).four_eyes_principle(o, a, b, parameters={"positive": False}), "four eyes violated")
    diff = sel(log, lambda c: len(rs(c, a)) > 1)
    run(case, diff, ctx, lambda o, _: pm4py.filter_activity_done_different_resources(o, a), "different resources")
    run(case, neg(log, diff, ret), ctx, lambda o, kind: (pl if kind == "df" else ll).attr_value_different_persons(o, a, parameters={"positive": ret}), "different persons")


@st.composite
def people_cases(draw):
    log = draw(flt.flog())
    pool = sorted({a for c in log["cases"] for a in A(c)})
    return {"log": log, "ab": [draw(st.sampled_from(pool)), draw(st.sampled_from(pool))], "ret": draw(st.booleans())}


def chk_size(case, ctx):
    log, ret = case["log"], case["ret"]
    n = len(log["cases"])
    k = case["k"]
    ctx.label(k)
    V = Counter(tuple(A(c)) for c in log["cases"])
    if k == "size":
        lo, hi = sorted(case["b"])
        run(case, sel(log, lambda c: lo <= len(c["events"]) <= hi), ctx, lambda o, _: pm4py.filter_case_size(o, lo, hi), k)
    elif k == "variants":
        vs = [tuple(v) for v in case["vars"]]
        run(case, neg(log, sel(log, lambda c: tuple(A(c)) in vs), ret), ctx, lambda o, _: pm4py.filter_variants(o, vs, retain=ret), k)
    elif k == "min coverage":
        run(case, sel(log, lambda c: V[tuple(A(c))] >= case["p"] * n), ctx, lambda o, _: pm4py.filter_variants_by_coverage_percentage(o, case["p"]), k)
    elif k == "max coverage":
        run(case, sel(log, lambda c: V[tuple(A(c))] <= case["p"] * n), ctx, lambda o, _: pm4py.filter_variants_by_maximum_coverage_percentage(o, case["p"]), k)
    elif k == "top":
        full = {c["id"]: [e["id"] for e in c["events"]] for c in log["cases"]}
        var = {c["id"]: tuple(A(c)) for c in log["cases"]}
        for kind in ("df", "log"):
            o = flt.frame(log) if kind == "df" else flt.elog(log)
            got = flt.content(pm4py.filter_variants_top_k(o, case["n"]))
            for c in got:
                req_eq(got[c], full[c], "top-k on %s: events of %s" % (kind, c))
            kept = Counter(var[c] for c in got)
            req_eq(len(kept), min(case["n"], len(V)), "top-k on %s: number of variants" % kind)
            for v in kept:
                req_eq(kept[v], V[v], "top-k on %s: cases of the variant %s" % (kind, v))
            rest = [V[v] for v in V if v not in kept]
            require(not rest or not kept or max(rest) <= min(kept.values()), "top-k on %s: a variant with %r cases is dropped, one with %r kept", kind, max(rest or [0]), min(kept.values() or [0]))
        if len(V) > case["n"]:
            ctx.nontrivial()


@st.composite
def size_cases(draw):
    log = draw(flt.flog())
    vs = [A(c) for c in log["cases"]]
    n = len(vs)
    return {"log": log, "k": draw(st.sampled_from(["size", "variants", "min coverage", "max coverage", "top"])), "ret": draw(st.booleans()),
            "b": [draw(st.integers(0, 6)), draw(st.integers(0, 6))], "n": draw(st.integers(1, 4)),
            "p": draw(st.one_of(st.floats(0, 1), st.integers(0, n).map(lambda i: i / n))),
            "vars": draw(st.lists(st.one_of(st.sampled_from(vs), st.sampled_from(vs).map(lambda v: v[:-1] or v), st.sampled_from(vs).map(lambda v: v + v[:1])), min_size=1, max_size=3))}


UNITS = [
    Unit("acts", act_cases(), chk_acts, 480, rule="a proper, non-empty subset of the cases is kept"),
    Unit("time", time_cases(), chk_time, 320, rule="a proper, non-empty subset of the cases is kept"),
    Unit("people", people_cases(), chk_people, 100, rule="a proper, non-empty subset of the cases is kept"),
    Unit("size", size_cases(), chk_size, 200, rule="a proper, non-empty subset of the cases is kept"),
]

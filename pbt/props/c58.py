"""C58 generic log helpers: higher-order functions, the sequence protocol, thresholds, compression, NetworkX"""
import copy, json, math, random
from collections import Counter
from hypothesis import strategies as st
import gen, build, flt, ocel as oc, tlog
from core import Unit, require, req_eq
import pm4py
import warnings

META = dict(
    title="Generic log helpers: sequences, thresholds, compression, NetworkX",
    statement="EventLog, Trace and EventStream behave as Python sequences (append, insert, replace, index, count, membership, slices, copies) and filter_log/filter_trace/sort_log/sort_trace/set_classifier return exactly the selected or reordered content with the attributes kept. The count-based helpers (sorted lists, decreasing-factor thresholds, start/end/attribute/variant filters by count or percentage, first-n-cases, case attribute windows, kernel density estimates) follow their definitions on event logs and dataframes. Integer compression of a log can be decoded to the same traces, and converting a log or an object-centric log to NetworkX and back loses nothing.",
    over=["inputs", "histories"], quant="logs with repeated activities, ties, missing attributes x operation sequences, predicates, sort keys, thresholds, percentages; object-centric logs with qualifiers, object relations and changes",
    why="tests touch a few of the helpers on one log; ties at a threshold, empty results, decoded content and kept metadata are not asserted",
    oracle="plain lists as a model of the sequences; direct counting on the generated cases; decode/convert back",
    files=["pm4py/hof.py", "pm4py/objects/log/obj.py", "pm4py/util/compression/util.py", "pm4py/util/nx_utils.py", "pm4py/statistics/attributes/common/get.py"],
    mech=[("sequences", "pm4py/objects/log/obj.py"), ("higher-order functions", "pm4py/hof.py"), ("compression", "pm4py/util/compression/util.py"), ("NetworkX", "pm4py/util/nx_utils.py"), ("thresholds", "pm4py/statistics/attributes/common/get.py"), ("threshold filters", "pm4py/algo/filtering/log/variants/variants_filter.py")])


# ---- sequence protocol
@st.composite
def seq_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        o = draw(st.sampled_from(["append", "append", "insert", "set", "index", "index2", "count", "in", "slice", "rev", "copy", "deepcopy", "get", "eq"]))
        ops.append([o, draw(st.integers(0, 4)), draw(st.integers(-4, 8)), draw(st.integers(-4, 8))])
    return {"kind": draw(st.sampled_from(["trace", "log", "stream"])), "init": draw(st.lists(st.integers(0, 4), max_size=4)), "ops": ops}


def seq_check(case, ctx):
    from pm4py.objects.log.obj import EventLog, Trace, Event, EventStream
    kind = case["kind"]

    def item(k):
        return Event({"concept:name": "abcde"[k], "k": k}) if kind != "log" else Trace([Event({"concept:name": x}) for x in "abcde"[k:]], attributes={"concept:name": str(k)})
    cls = {"trace": Trace, "log": EventLog, "stream": EventStream}[kind]
    meta = {"meta": "m"}
    kw = {} if kind == "trace" else dict(extensions={"Concept": {"prefix": "concept"}}, classifiers={"c": ["concept:name"]}, omni_present={"event": {"a": 1}})
    kw["properties"] = {"p": 1}
    S = cls([item(k) for k in case["init"]], attributes=dict(meta), **{k: dict(v) for k, v in kw.items()})
    M = list(case["init"])

    def same(s, m, what):
        require(type(s) is cls, "%s: type %s", what, type(s).__name__)
        req_eq(len(s), len(m), what + ": length")
        req_eq([x == item(k) for x, k in zip(s, m)], [True] * len(m), what + ": elements")
        req_eq(dict(s.attributes), meta, what + ": attributes")
        req_eq(dict(s.properties), kw["properties"], what + ": properties")
        if kind != "trace":
            req_eq((dict(s.extensions), dict(s.classifiers), dict(s.omni_present)), (kw["extensions"], kw["classifiers"], kw["omni_present"]), what + ": metadata")

    def attempt(f):
        try:
            return f()
        except (IndexError, ValueError) as e:
            return type(e).__name__
    for o, k, i, j in case["ops"]:
        if o == "append":
            S.append(item(k)); M.append(k)
        elif o == "insert" and kind != "stream" and hasattr(S, "insert"):
            S.insert(i, item(k)); M.insert(i, k)
        elif o == "set":
            def f():
                S[i] = item(k)
            def g():
                M[i] = k
            req_eq(attempt(f), attempt(g), "replacing element %d of %s" % (i, M))
        elif o == "index":
            req_eq(attempt(lambda: S.index(item(k))), attempt(lambda: M.index(k)), "index of %s in %s" % (k, M))
        elif o == "index2":
            req_eq(attempt(lambda: S.index(item(k), i)), attempt(lambda: M.index(k, i)), "index of %s from %d in %s" % (k, i, M))
            req_eq(attempt(lambda: S.index(item(k), i, j)), attempt(lambda: M.index(k, i, j)), "index of %s in [%d, %d) of %s" % (k, i, j, M))
        elif o == "count":
            req_eq(S.count(item(k)), M.count(k), "count")
        elif o == "in":
            req_eq(item(k) in S, k in M, "membership")
        elif o == "slice":
            req_eq([x == item(y) for x, y in zip(S[i:j], M[i:j])] + [len(S[i:j])], [True] * len(M[i:j]) + [len(M[i:j])], "slice")
        elif o == "rev":
            req_eq([x == item(y) for x, y in zip(reversed(S), reversed(M))], [True] * len(M), "reversed")
        elif o == "get":
            r = attempt(lambda: S[i])
            e = attempt(lambda: M[i])
            req_eq(r if isinstance(e, str) else r == item(e), e if isinstance(e, str) else True, "element %d" % i)
        elif o in ("copy", "deepcopy"):
            old, S = S, getattr(copy, o)(S)
            require(S == old, "%s is not equal to the original", o)
            same(S, M, o)
            S.append(item(k)); M.append(k)
            req_eq(len(old), len(M) - 1, "appending to a %s changed the original" % o)
            require(not (S == old), "objects of different length are equal")
            if o == "deepcopy" and len(old):
                (S[0] if kind != "log" else S[0].attributes)["zz"] = 1
                require("zz" not in (old[0] if kind != "log" else old[0].attributes), "deep copy shares its elements")
                S[0] = item(M[0])
        elif o == "eq":
            T = cls([item(x) for x in M], attributes=dict(meta), **{a: dict(b) for a, b in kw.items()})
            require(T == S and hash(T) == hash(S), "equal content, different objects: %s", M)
            T.attributes["other"] = 1
            require(not (T == S), "different attributes, equal objects")
    same(S, M, "after the operations")
    if len(M) > 2 and len(case["ops"]) > 3:
        ctx.nontrivial()


# ---- higher-order functions, classifiers
@st.composite
def hof_case(draw):
    return {"log": draw(flt.flog()), "p": draw(st.sampled_from(["len", "first", "color", "odd"])), "k": draw(st.integers(0, 4)), "rev": draw(st.booleans()),
            "cls": draw(st.sampled_from(["concept:name", ["concept:name"], ["concept:name", "z"], ["z", "concept:name", "z"], "Act", "Two"])), "df": draw(st.booleans()), "stream": draw(st.booleans())}


def hof_check(case, ctx):
    from pm4py.objects.log.obj import EventStream
    log = case["log"]
    ids = lambda r: [[e["eid"] for e in t] for t in r]
    k = case["k"]
    P = {"len": lambda t: len(t) > k, "first": lambda t: len(t) > 0 and t[0]["concept:name"] < "c", "color": lambda t: t.attributes.get("color", "") > "b", "odd": lambda t: sum(e["eid"] for e in t) % 2 == 1}[case["p"]]
    KEY = {"len": len, "first": lambda t: t[0]["concept:name"] if len(t) else "", "color": lambda t: t.attributes.get("color", ""), "odd": lambda t: -sum(e["eid"] for e in t)}[case["p"]]
    el = flt.elog(log)
    m0 = flt.meta(el)
    full = ids(el)
    E = ids([t for t in el if P(t)])
    r = pm4py.hof.filter_log(P, el)
    req_eq(ids(r), E, "traces kept by filter_log")
    req_eq((flt.meta(r), [dict(t.attributes) for t in r], ids(el)), (m0, [dict(t.attributes) for t in el if P(t)], full), "metadata after filter_log")
    S = sorted(el, key=KEY, reverse=case["rev"])
    r = pm4py.hof.sort_log(el, KEY, reverse=case["rev"])
    req_eq(ids(r), ids(S), "order of sort_log")
    req_eq((flt.meta(r), [dict(t.attributes) for t in r], ids(el)), (m0, [dict(t.attributes) for t in S], full), "metadata after sort_log")
    for t in el:
        Q = lambda e: e["concept:name"] < "c" or e["eid"] % 3 == k % 3
        r = pm4py.hof.filter_trace(Q, t)
        req_eq(([e["eid"] for e in r], dict(r.attributes)), ([e["eid"] for e in t if Q(e)], dict(t.attributes)), "filter_trace")
        K = (lambda e: e["concept:name"]) if k % 2 else (lambda e: (e["eid"] * 7) % 5)
        r = pm4py.hof.sort_trace(t, K, reverse=case["rev"])
        req_eq(([e["eid"] for e in r], dict(r.attributes)), ([e["eid"] for e in sorted(t, key=K, reverse=case["rev"])], dict(t.attributes)), "sort_trace")
    req_eq(ids(el), full, "input edited")
    es = pm4py.convert_to_event_stream(flt.elog(log))
    Q = lambda e: e["concept:name"] < "c" or e["eid"] % 3 == k % 3
    r = pm4py.hof.filter_log(Q, es)
    require(type(r) is EventStream, "type of a filtered stream: %s", type(r).__name__)
    req_eq([e["eid"] for e in r], [e["eid"] for e in es if Q(e)], "events kept in a stream")
    r = pm4py.hof.sort_log(es, K2 := (lambda e: (e["eid"] * 7) % 5), reverse=case["rev"])
    req_eq([e["eid"] for e in r], [e["eid"] for e in sorted(es, key=K2, reverse=case["rev"])], "order of a sorted stream")
    # classifier
    cl = case["cls"]
    for df in (False, True):
        o = flt.frame(log) if df else flt.elog(log)
        if df:
            o["z"] = ["z%d" % (i % 3) for i in o["eid"]]
            if cl in ("Act", "Two"):
                continue
        else:
            o.classifiers["Two"] = ["z", "concept:name"]
            for t in o:
                for e in t:
                    e["z"] = "z%d" % (e["eid"] % 3)
        keys = {"Act": ["concept:name"], "Two": ["z", "concept:name"]}.get(cl, [cl]) if isinstance(cl, str) else cl
        r = pm4py.utils.set_classifier(o, cl)
        exp = {e["id"]: "+".join(e["a"] if x == "concept:name" else "z%d" % (e["id"] % 3) for x in keys) for c in log["cases"] for e in c["events"]}
        got = dict(zip(r["eid"].tolist(), r["@@classifier"].tolist())) if df else {e["eid"]: e["@@classifier"] for t in r for e in t}
        req_eq(got, exp, "classifier %s" % (cl,))
        p = r.attrs if df else r.properties
        req_eq(p["pm4py:param:activity_key"], "@@classifier", "activity key after set_classifier")
        req_eq(dict(pm4py.get_event_attribute_values(r, p["pm4py:param:activity_key"])), dict(Counter(exp.values())), "values of the classifier")
    if 0 < len(E) < len(full):
        ctx.nontrivial()


# ---- thresholds and filters by counts
@st.composite
def thr_case(draw):
    return {"log": draw(flt.flog()), "thr": draw(st.integers(0, 6)), "df": draw(st.sampled_from([0.0, 0.3, 0.5, 0.6, 0.9, 1.0])), "mn": draw(st.integers(1, 4)), "mx": draw(st.integers(1, 5)),
            "perc": draw(st.sampled_from([0.0, 0.2, 0.5, 0.7, 0.8, 1.0])), "n": draw(st.integers(0, 8)), "keep": draw(st.lists(st.integers(0, 9), max_size=9))}


def threshold(cs, df, start=0, stop=None):
    """cs: non-increasing counts; starting from the one at `start`, walk down while the ratio to the last accepted one exceeds df"""
    t = cs[start]
    for i in range(start + 1, len(cs)):
        if cs[i] > t * df:
            t = cs[i]
        if stop is not None and i >= stop:
            break
    return t


def thr_check(case, ctx):
    from pm4py.statistics.attributes.common import get as ac
    from pm4py.statistics.start_activities.common import get as sc
    from pm4py.statistics.end_activities.common import get as ec
    from pm4py.statistics.variants.log import get as vg
    from pm4py.algo.filtering.log.start_activities import start_activities_filter as lsf
    from pm4py.algo.filtering.log.end_activities import end_activities_filter as lef
    from pm4py.algo.filtering.log.attributes import attributes_filter as laf
    from pm4py.algo.filtering.log.variants import variants_filter as lvf
    from pm4py.algo.filtering.log.paths import paths_filter as lpf
    from pm4py.algo.filtering.log.cases import case_filter as lcf
    from pm4py.algo.filtering.pandas.cases import case_filter as pcf
    from pm4py.algo.filtering.pandas.attributes import attributes_filter as paf
    from pm4py.algo.filtering.pandas.start_activities import start_activities_filter as psf
    from pm4py.algo.filtering.pandas.end_activities import end_activities_filter as pef
    log, thr, df, perc = case["log"], case["thr"], case["df"], case["perc"]
    cases = log["cases"]
    el, fr = flt.elog(log), flt.frame(log)
    full = {c["id"]: [e["id"] for e in c["events"]] for c in cases}
    A = {c["id"]: tuple(e["a"] for e in c["events"]) for c in cases}
    sa, ea = Counter(a[0] for a in A.values()), Counter(a[-1] for a in A.values())
    at = Counter(x for a in A.values() for x in a)
    vc = Counter(A.values())
    counts = {"start": sa, "end": ea, "attr": at}
    for nm, C, f, g in (("start", sa, sc.get_sorted_start_activities_list, sc.get_start_activities_threshold), ("end", ea, ec.get_sorted_end_activities_list, ec.get_end_activities_threshold), ("paths", None, lpf.get_sorted_paths_list, lpf.get_paths_threshold), ("attr", at, ac.get_sorted_attributes_list, None)):
        if C is None:
            C = Counter(x + "," + y for a in A.values() for x, y in zip(a, a[1:]))
            req_eq(lpf.get_paths_from_log(el), dict(C), "paths of the log")
            if not C:
                continue
        L = f(dict(C))
        cs = sorted(C.values(), reverse=True)
        req_eq(({x[0]: x[1] for x in L}, [x[1] for x in L], len(L)), (dict(C), cs, len(C)), "sorted list (%s)" % nm)
        if g:
            req_eq(g(L, df), threshold(cs, df), "threshold with decreasing factor %s of %s (%s)" % (df, cs, nm))
        else:
            mn, mx = case["mn"], case["mx"]
            i0 = max(0, min(mn - 1, len(cs) - 1))
            req_eq(ac.get_attributes_threshold(L, df, mn, mx), threshold(cs, df, i0, mx), "attributes threshold %s of %s, between %d and %d" % (df, cs, mn, mx))
    V = vg.get_variants(el)
    VC = vg.get_variants_sorted_by_count(V)
    req_eq([(x[0], x[1]) for x in VC], sorted(vc.items(), key=lambda x: (x[1], x[0]), reverse=True), "variants sorted by count")
    best = VC[0][0]
    part = 0
    # start / end activities above the threshold (and the one of the most frequent variant)
    for nm, f, C, pos in (("start", lsf.filter_log_by_start_activities, sa, 0), ("end", lef.filter_log_by_end_activities, ea, -1)):
        adm = {a: c for i, (a, c) in enumerate(sorted(C.items())) if i not in case["keep"] or True}
        E = {c for c in A if A[c][pos] in adm and (A[c][pos] == best[pos] or adm[A[c][pos]] >= thr)}
        r = flt.content(f(adm, V, VC, thr))
        req_eq((set(r), all(r[c] == full[c] for c in r)), (E, True), "log filter on %s activities with threshold %d" % (nm, thr))
        part += 0 < len(E) < len(full)
    E = {c for c in A if sa[A[c][0]] >= thr}
    for mc in ([], list(best)):
        F = {c for c in A if sa[A[c][0]] >= thr or (mc and A[c][0] == mc[0])}
        r = psf.filter_df_on_start_activities_nocc(fr, thr)
        F = {c for c in A if sa[A[c][0]] >= thr}
        req_eq(flt.content(r), {c: full[c] for c in F}, "dataframe filter on start activities with at least %d cases" % thr)
        F = {c for c in A if ea[A[c][-1]] >= thr or (mc and A[c][-1] == mc[-1])}
        r = pef.filter_df_on_end_activities_nocc(fr, thr, return_dict=True, most_common_variant=mc)
        req_eq(r[1], {a: n for a, n in ea.items() if n >= thr or (mc and a == mc[-1])}, "end activities kept")
        req_eq(flt.content(r[0]), {c: full[c] for c in F}, "dataframe filter on end activities with at least %d cases" % thr)
        K = {a for a in at if at[a] >= thr or a in mc}
        r = paf.filter_df_keeping_activ_exc_thresh(fr, thr, most_common_variant=mc)
        X = {c: [i for i, a in zip(full[c], A[c]) if a in K] for c in full}
        req_eq(flt.content(r), {c: x for c, x in X.items() if x}, "events with an activity that occurs at least %d times" % thr)
    K = {a for a in at if at[a] >= thr or a in best}
    X = {c: [i for i, a in zip(full[c], A[c]) if a in K] for c in full}
    r = laf.filter_log_by_attributes_threshold(el, dict(at), V, VC, thr)
    req_eq(flt.content(r), {c: x for c, x in X.items() if x}, "log filter on activities with threshold %d" % thr)
    req_eq([dict(t.attributes) for t in r], [dict(t.attributes) for t in el if X[t.attributes["concept:name"]]], "trace attributes kept")
    # number of cases
    n = case["n"]
    req_eq(flt.content(lcf.filter_on_ncases(el, n)), {c["id"]: full[c["id"]] for c in cases[:n]}, "first %d cases" % n)
    r = flt.content(pcf.filter_on_ncases(fr, max_no_cases=n))
    req_eq((len(r), all(r[c] == full[c] for c in r)), (min(n, len(full)), True), "%d cases of a dataframe" % n)
    # percentage of variants: most frequent first until the percentage is reached, ties with the last one included
    got = flt.content(lvf.filter_log_variants_percentage(el, perc))
    acc, cut, E = 0, None, set()
    for v, k in sorted(vc.items(), key=lambda x: -x[1]):
        if cut is not None and k < cut:
            break
        E |= {c for c in A if A[c] == v}
        acc += k
        if cut is None and acc / len(full) >= perc:
            cut = k
    req_eq((set(got), all(got[c] == full[c] for c in got)), (E, True), "variants covering %s of the log" % perc)
    cs = sorted(vc.values(), reverse=True)
    acc, prev = 0, None
    for k in cs:
        if prev is not None and not k > df * prev:
            break
        acc += k
        prev = k
    got = lvf.find_auto_threshold(el, V, df)
    require(abs(got - acc / len(full)) < 1e-9, "automatic percentage %s instead of %s for counts %s and factor %s", got, acc / len(full), cs, df)
    if part:
        ctx.nontrivial()


# ---- windows on a case attribute, KDE, positions
@st.composite
def kde_case(draw):
    log = draw(flt.flog())
    for c in log["cases"]:
        if draw(st.integers(0, 4)):
            c["when"] = draw(st.integers(0, 20)) * 100
    lo, hi = sorted([draw(st.integers(0, 20)), draw(st.integers(0, 20))])
    vals = draw(st.lists(st.one_of(st.integers(-20, 60), st.sampled_from([0.5, 2.25, 1000.0])), min_size=2, max_size=12))
    if draw(st.integers(0, 3)) == 0:
        vals = [-abs(v) for v in vals]
    return {"log": log, "lo": lo * 100, "hi": hi * 100, "vals": vals, "pts": draw(st.sampled_from([4, 10, 50]))}


def kde(vals, xs):
    n = len(vals)
    m = sum(vals) / n
    sd = math.sqrt(sum((v - m) ** 2 for v in vals) / (n - 1))
    h = sd * n ** (-1 / 5)
    return [sum(math.exp(-((x - v) / h) ** 2 / 2) for v in vals) / (n * h * math.sqrt(2 * math.pi)) for x in xs]


def curve(r, vals, what, pts, to=float):
    xs, ys = [to(x) for x in r[0]], [float(y) for y in r[1]]
    require(len(xs) == len(ys) == pts, "%s: %d/%d points instead of %d", what, len(xs), len(ys), pts)
    require(xs == sorted(xs), "%s: points not sorted", what)
    require(abs(xs[0] - min(vals)) < 1e-6 * max(1, abs(min(vals))) or min(vals) <= 0, "%s: first point %s", what, xs[0])
    require(abs(xs[-1] - max(vals)) <= 1e-6 * max(1, abs(max(vals))), "%s: last point %s, maximum %s", what, xs[-1], max(vals))
    E = kde(vals, xs)
    mx = max(E)
    for x, y, e in zip(xs, ys, E):
        require(abs(y - e) <= 1e-4 * mx + 1e-12, "%s: density %s instead of %s at %s", what, y, e, x)


def kde_check(case, ctx):
    from pm4py.statistics.attributes.common import get as ac
    from pm4py.statistics.attributes.log import get as lg
    from pm4py.statistics.attributes.pandas import get as pg
    from pm4py.statistics.traces.generic.log import case_statistics as lcs
    from pm4py.statistics.traces.generic.pandas import case_statistics as pcs
    from pm4py.algo.filtering.log.timestamp import timestamp_filter as tf
    from pm4py.util import pandas_utils
    log = case["log"]
    el, fr = flt.elog(log), flt.frame(log)
    full = {c["id"]: [e["id"] for e in c["events"]] for c in log["cases"]}
    for c, t in zip(log["cases"], el):
        if "when" in c:
            t.attributes["when"] = build.ts(c["when"])
    f = lambda s: build.ts(s).strftime("%Y-%m-%d %H:%M:%S")
    r = tf.filter_on_trace_attribute(el, f(case["lo"]), f(case["hi"]), parameters={"pm4py:param:timestamp_key": "when"})
    req_eq(flt.content(r), {c["id"]: full[c["id"]] for c in log["cases"] if "when" in c and case["lo"] <= c["when"] <= case["hi"]}, "cases with the attribute between %d and %d" % (case["lo"], case["hi"]))
    pts = case["pts"]
    P = {"graph_points": pts}
    vals = case["vals"]
    if len(set(vals)) > 1:
        r = ac.get_kde_numeric_attribute(vals, parameters=P)
        curve(r, vals, "density of %s" % vals, pts)
        req_eq([tuple(x) for x in json.loads(ac.get_kde_numeric_attribute_json(vals, parameters=P))], [(float(x), float(y)) for x, y in zip(*r)], "JSON of the density")
        ctx.nontrivial()
    X = [float(e["x"]) for c in log["cases"] for e in c["events"] if "x" in e]
    if len(set(X)) > 1:
        for nm, r in (("log", lg.get_kde_numeric_attribute(el, "x", parameters=P)), ("dataframe", pg.get_kde_numeric_attribute(fr, "x", parameters=P))):
            curve(r, X, "density of attribute x of a %s" % nm, pts)
        req_eq(len(json.loads(lg.get_kde_numeric_attribute_json(el, "x", parameters=P))), pts, "points in JSON")
        req_eq(len(json.loads(pg.get_kde_numeric_attribute_json(fr, "x"))), 200, "points in JSON")
    sec = lambda x: x.replace(tzinfo=None).timestamp()
    T = [sec(build.ts(e["t"])) for c in log["cases"] for e in c["events"]]
    if max(T) - min(T) > 100:
        for nm, r, v in (("log", lg.get_kde_date_attribute(el, parameters=P), T), ("dataframe", pg.get_kde_date_attribute(fr, parameters=P), [sec(x) for x in fr["time:timestamp"]])):
            v = [v[i * len(v) // 400] for i in range(400)]      # 400 evenly spaced observations
            curve((r[0], [y for y in r[1]]), v, "density of the timestamps of a %s" % nm, pts, to=lambda x: x.value / 1e9)
        req_eq((len(json.loads(lg.get_kde_date_attribute_json(el))), len(json.loads(pg.get_kde_date_attribute_json(fr)))), (200, 200), "points in JSON")
    D = [float(c["events"][-1]["t"] - c["events"][0]["t"]) for c in log["cases"]]
    if len(set(D)) > 1:
        for nm, r in (("log", lcs.get_kde_caseduration(el, parameters=P)), ("dataframe", pcs.get_kde_caseduration(fr, parameters=P))):
            curve(r, D, "density of the case durations of a %s" % nm, pts)
        for nm, r in (("log", lcs.get_kde_caseduration_json(el, parameters=P)), ("dataframe", pcs.get_kde_caseduration_json(fr, parameters=P))):
            curve(list(zip(*json.loads(r))), D, "JSON density of the case durations of a %s" % nm, pts)
    vd, vl = pcs.get_variants_df_and_list(fr)
    V = Counter(tuple(e["a"] for e in c["events"]) for c in log["cases"])
    req_eq([(tuple(v), n) for v, n in vl], sorted(V.items(), key=lambda x: (x[1], x[0]), reverse=True), "variants list")
    req_eq({str(k): tuple(v) for k, v in vd["variant"].items()}, {c["id"]: tuple(e["a"] for e in c["events"]) for c in log["cases"]}, "variants dataframe")
    d = pandas_utils.insert_feature_activity_position_in_trace(flt.frame(log))
    E = {}
    for c in log["cases"]:
        for i, e in enumerate(c["events"]):
            E[e["id"]] = {"@@position_" + e["a"]: float(i)}
    cols = [k for k in d.columns if k.startswith("@@position_")]
    req_eq({r["eid"]: {k: r[k] for k in cols if r[k] == r[k]} for r in d.to_dict("records")}, E, "positions of the activities")
    from pm4py.objects.log.util import filtering_utils, log_regex
    u = filtering_utils.keep_only_one_attribute_per_event(el, "concept:name")
    req_eq([[dict(e) for e in t] for t in u], [[{"concept:name": e["a"]} for e in c["events"]] for c in log["cases"]], "projection on one attribute")
    m = log_regex.form_encoding_dictio_from_log(el)
    acts = {e["a"] for c in log["cases"] for e in c["events"]}
    req_eq((set(m), len(set(m.values())), {len(x) for x in m.values()}), (acts, len(acts), {1}), "encoding of the activities")
    req_eq(log_regex.get_encoded_log(el, m), ["".join(m[e["a"]] for e in c["events"]) for c in log["cases"]], "encoded log")
    el2 = flt.elog({"cases": [{"id": "zz", "events": [{"a": a, "t": 0, "id": 0, "x": 0, "r": "R"} for a in ("new 1", log["cases"][0]["events"][0]["a"], "new 2")]}]})
    m = log_regex.form_encoding_dictio_from_two_logs(el, el2)
    req_eq((set(m), len(set(m.values()))), (acts | {"new 1", "new 2"}, len(acts | {"new 1", "new 2"})), "encoding of two logs")


# ---- compression
@st.composite
def cmp_case(draw):
    return {"log": draw(gen.log(n_act=4, max_len=6, max_traces=6, resources=True, odd=0.3)), "keys": draw(st.sampled_from([["concept:name"], ["concept:name", "org:resource"], ["org:resource", "concept:name"]])), "un": draw(st.booleans())}


def cmp_check(case, ctx):
    from pm4py.util.compression import util as cu
    log, keys = case["log"], case["keys"]
    fld = {"concept:name": "a", "org:resource": "r"}
    tr = [[e["a"] for e in c["events"]] for c in log["cases"]]
    order = sorted(range(len(tr)), key=lambda i: log["cases"][i]["id"])
    for nm in ("log", "df"):
        o = build.elog(log) if nm == "log" else build.fdf(log)
        cols = None if nm == "log" else o.copy()
        ref = tr if nm == "log" else [tr[i] for i in order]
        raw = [[e for e in log["cases"][i]["events"]] for i in (range(len(tr)) if nm == "log" else order)]
        req_eq(cu.project_univariate(o), ref, "projection of a %s" % nm)
        req_eq(cu.project_univariate(o, key="org:resource"), [[e["r"] for e in c] for c in raw], "projection on the resource")
        cl, lk = cu.compress_univariate(o)
        require(len(set(lk)) == len(lk) and set(lk) == {a for t in tr for a in t}, "lookup %s", lk)
        req_eq([[lk[x] for x in t] for t in cl], ref, "decoded traces of a %s" % nm)
        req_eq(cu.get_alphabet(cl), list(range(len(lk))), "alphabet")
        req_eq({tuple(lk[x] for x in v): n for v, n in cu.get_variants(cl).items()}, dict(Counter(map(tuple, ref))), "variants of the compressed log")
        for g in (cu.discover_dfg(cl), cu.discover_dfg_uvcl(cu.get_variants(cl))):
            req_eq({(lk[a], lk[b]): n for (a, b), n in g.graph.items()}, dict(Counter((x, y) for t in ref for x, y in zip(t, t[1:]))), "DFG of the compressed log")
            req_eq(({lk[a]: n for a, n in g.start_activities.items()}, {lk[a]: n for a, n in g.end_activities.items()}), (dict(Counter(t[0] for t in ref)), dict(Counter(t[-1] for t in ref))), "start/end activities")
        ml, mk = cu.compress_multivariate(o, keys=list(keys), uncompressed=["time:timestamp"] if case["un"] else [])
        require(set(mk) == set(keys), "lookups for %s", list(mk))
        dec = [[tuple(mk[k][x] for k, x in zip(keys, e)) for e in t] for t in ml]
        req_eq(dec, [[tuple(e[fld[k]] for k in keys) for e in c] for c in raw], "decoded traces of a %s on %s" % (nm, keys))
        if case["un"]:
            req_eq([[int(e[len(keys)].timestamp()) for e in t] for t in ml], [[int(build.ts(e["t"]).timestamp()) for e in c] for c in raw], "uncompressed values")
        if nm == "df":
            require(o.equals(cols), "compression edited the dataframe")
    # minimum self-distance and witnesses
    ms = cu.msd(tr)
    E, W = {}, {}
    for a in {x for t in tr for x in t}:
        ds = []
        for t in tr:
            ix = [i for i, x in enumerate(t) if x == a]
            ds += [(j - i - 1, set(t[i + 1:j])) for i, j in zip(ix, ix[1:])]
        if ds:
            E[a] = min(d for d, _ in ds)
            if E[a] > 0:
                W[a] = set().union(*(w for d, w in ds if d == E[a]))
    req_eq(ms, E, "minimum self-distances")
    req_eq(cu.msdw(tr, ms), W, "witnesses of the minimum self-distances")
    if W and len(set(map(tuple, tr))) > 1:
        ctx.nontrivial()


# ---- NetworkX
@st.composite
def nx_case(draw):
    return {"log": draw(flt.flog()), "df": draw(st.booleans()), "frame": draw(st.booleans()), "ev": draw(st.lists(st.sampled_from(["concept:name", "org:resource"]), unique=True)), "ca": draw(st.booleans())}


def nx_check(case, ctx):
    from pm4py.util import nx_utils
    log = case["log"]
    o = flt.frame(log) if case["frame"] else flt.elog(log)
    if case["frame"]:
        o = o.drop(columns=["@@index", "@@case_index"], errors="ignore")
    G = pm4py.convert_log_to_networkx(o, include_df=case["df"], other_case_attributes_as_nodes=["color"] if case["ca"] else None, event_attributes_as_nodes=case["ev"] or None)
    N = Counter(a["attr"]["type"] for _, a in G.nodes(data=True))
    evs = [e for c in log["cases"] for e in c["events"]]
    av = {e[k] for e in evs for f, k in (("concept:name", "a"), ("org:resource", "r")) if f in case["ev"] and k in e} | ({c["color"] for c in log["cases"] if "color" in c} if case["ca"] else set())
    req_eq((N["CASE"], N["EVENT"], N["ATTRIBUTE_NODE"]), (len(log["cases"]), len(evs), len(av)), "nodes of the graph")
    M = Counter(a["attr"]["type"] for _, _, a in G.edges(data=True))
    # one edge per pair of nodes
    na = sum(len({e[k] for f, k in (("concept:name", "a"), ("org:resource", "r")) if f in case["ev"] and k in e}) for e in evs) + (sum("color" in c for c in log["cases"]) if case["ca"] else 0)
    req_eq((M["BELONGS_TO"], M["DF"], M["ATTRIBUTE_EDGE"]), (len(evs), sum(len(c["events"]) - 1 for c in log["cases"]) if case["df"] else 0, na), "edges of the graph")
    if case["df"]:
        dfe = {(G.nodes[u]["attr"]["eid"], G.nodes[v]["attr"]["eid"]) for u, v, a in G.edges(data=True) if a["attr"]["type"] == "DF"}
        req_eq(dfe, {(x["id"], y["id"]) for c in log["cases"] for x, y in zip(c["events"], c["events"][1:])}, "DF edges")
    r = nx_utils.nx_to_event_log(G)
    src = pm4py.convert_to_event_log(o, stream_postprocessing=True) if case["frame"] else o
    def plain(l):
        return {t.attributes["concept:name"]: (dict(t.attributes), [{k: (v.timestamp() if hasattr(v, "timestamp") else v) for k, v in e.items()} for e in t]) for t in l}
    req_eq(plain(r), plain(src), "log after the round trip through NetworkX")
    req_eq({c: x[0].get("color") for c, x in plain(r).items()}, {c["id"]: c.get("color") for c in log["cases"]}, "case attributes")
    if len(log["cases"]) > 1 and len(evs) > 3:
        ctx.nontrivial()


@st.composite
def nxo_case(draw):
    return {"o": draw(oc.spec(two=True, quals=True, dates=True, micro=True)), "df": draw(st.booleans()), "ch": draw(st.booleans())}


def nxo_check(case, ctx):
    from pm4py.util import nx_utils
    c = case["o"]
    seen, keep = set(), []
    for i, j, q in c.get("o2o", []):        # the graph has one edge per pair of nodes
        if (i, j) not in seen:
            seen.add((i, j)); keep.append([i, j, q])
    c["o2o"] = keep
    o = oc.build(c)
    G = pm4py.convert_ocel_to_networkx(o, variant="ocel_to_nx")
    R = oc.ref(c)
    N = Counter(a["attr"]["type"] for _, a in G.nodes(data=True))
    req_eq((N["EVENT"], N["OBJECT"], N["CHANGE"]), (len(c["events"]), len(c["objects"]), len(c.get("changes", []))), "nodes")
    dfe = {(u, v) for u, v, a in G.edges(data=True) if a["attr"]["type"] == "DF"}
    E = set()
    for i in range(len(c["objects"])):
        lif = [e["id"] for e in c["events"] if i in e["objs"]]
        E |= set(zip(lif, lif[1:]))
    req_eq(dfe, E, "directly-follows edges")
    r = nx_utils.nx_to_ocel(G)
    got, exp = oc.norm(r), dict(oc.norm(o))
    for k in ("events", "objects", "relations", "o2o", "changes"):
        req_eq(got[k], exp[k], "%s after the round trip through NetworkX" % k)
        req_eq(exp[k], R[k] if k in R else exp[k], "%s of the input" % k)
    if c["o2o"] or c.get("changes"):
        ctx.nontrivial()


UNITS = [
    Unit("sequence", seq_case(), seq_check, 900, rule="more than 3 operations ending with more than 2 elements"),
    Unit("hof", hof_case(), hof_check, 300, rule="the predicate keeps some but not all traces"),
    Unit("threshold", thr_case(), thr_check, 400, rule="a threshold keeps some but not all cases"),
    Unit("kde", kde_case(), kde_check, 150, rule="at least two distinct values"),
    Unit("compress", cmp_case(), cmp_check, 300, rule="several variants and an activity repeated with events in between"),
    Unit("nx", nx_case(), nx_check, 250, rule="more than one case and more than 3 events"),
    Unit("nxocel", nxo_case(), nxo_check, 200, rule="relations between objects or changes of attributes"),
]

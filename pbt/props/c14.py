"""C14 structures computed from a log: spectra, open paths, splits, merges, correlation, usage"""
import random
from collections import Counter, defaultdict
import numpy as np
import pandas as pd
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Performance spectra, open paths, label splitting, merging, correlation, usage",
    statement="The performance spectrum of a list of activities holds, for every variant and representation, exactly the occurrences of that list (or the maximal runs of consecutive steps of it) among the events of those activities, with their times; the open-paths intervals connect every event with the next one that starts at or after its end. "
              "Label splitting only appends suffixes to the labels of the target activities, consistently with the context of the events, merging logs by a case relation keeps every event of the first log and assigns each related event of the second to its case, and reducing a process tree for a trace keeps every accepted trace over its activities and adds none. "
              "Correlation mining returns a minimum-cost flow whose totals are the activity counts, for any key names, and the element-usage comparison counts, per log, the firings and tokens of the replay.",
    over=["inputs"], quant="generated logs with ties, prefix-related activity names and repeated activities, and generated trees, nets and case relations",
    why="no test looks at the computed values; name prefixes, ties, overlaps and repetitions decide them",
    files=["pm4py/algo/discovery/performance_spectrum", "pm4py/algo/transformation/log_to_interval_tree", "pm4py/algo/label_splitting", "pm4py/algo/merging", "pm4py/algo/reduction", "pm4py/algo/discovery/correlation_mining", "pm4py/algo/comparison"],
    mech=[("apply", "pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py"), ("log_to_intervals", "pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py"), ("apply", "pm4py/algo/label_splitting/variants/contextual.py"), ("reduce", "pm4py/algo/reduction/process_tree/variants/tree_tr_based.py"), ("resolve_LP", "pm4py/algo/discovery/correlation_mining/util.py")],
    limits="Disconnected spectra are judged for lists of distinct activities; the sampled points only as a subset of the right size; the correlation cost up to the solver's tolerance.")
FLAG = st.sampled_from([False] * 4 + [True])
NAMES = [["A", "B", "C", "D"], ["a", "ab", "b", "bc"], ["x", "xx", "xxx", "y"], ["A_0", "A", "A_1", "B"]]


@st.composite
def spec_st(draw):
    log = draw(gen.log(n_act=draw(st.integers(2, 4)), max_len=9, max_traces=4, start_ts=draw(FLAG), gap=draw(st.sampled_from([3, 5000]))))
    acts = draw(st.sampled_from(NAMES))
    k = draw(st.integers(2, 4))
    lst = draw(st.permutations(acts))[:k] if draw(st.booleans()) else draw(st.lists(st.sampled_from(acts), min_size=2, max_size=4))
    return {"log": log, "names": acts, "list": lst, "size": draw(st.sampled_from([10000, 10000, 1, 2, 3])), "keys": draw(FLAG), "shuffle": draw(FLAG)}


def rename(log, names):
    m = dict(zip(gen.ACTS, names + names))
    for c in log["cases"]:
        for e in c["events"]:
            e["a"] = m[e["a"]]
    return log


def keyargs(case):
    """(dataframe keys, parameters)"""
    if not case["keys"]:
        return {}, {}
    return dict(ck="cid", ak="act", tk="when"), {"pm4py:param:case_id_key": "cid", "pm4py:param:activity_key": "act", "pm4py:param:timestamp_key": "when"}


def check_spectrum(case, ctx):
    from pm4py.algo.discovery.performance_spectrum import algorithm as PS
    log = rename(case["log"], case["names"])
    lst = list(case["list"])
    kw, par = keyargs(case)
    df = build.df(log, **kw) if kw else build.fdf(log)
    el = build.elog(log, **({"ak": "act", "tk": "when"} if kw else {}))
    lpar = dict(par)
    if kw:
        lpar["pm4py:param:case_id_key"] = "concept:name"
    if case["shuffle"]:  # events out of order: sorted by time, ties by position
        df = df.iloc[::-1].reset_index(drop=True)
        el = pm4py.objects.log.obj.EventLog([pm4py.objects.log.obj.Trace(list(t)[::-1], attributes=t.attributes) for t in el])
    before = df.copy()
    full, runs = [], []
    for c in log["cases"]:
        evs = list(c["events"])
        if case["shuffle"]:
            evs = evs[::-1]
        evs = sorted([e for e in evs if e["a"] in lst], key=lambda e: e["t"])
        n = len(lst)
        for i in range(len(evs) - n + 1):
            if [e["a"] for e in evs[i:i + n]] == lst:
                full.append(tuple(float(gen.BASE + e["t"]) for e in evs[i:i + n]))
        if len(set(lst)) == n:
            nxt = dict(zip(lst, lst[1:]))
            i = 0
            while i < len(evs):
                j = i
                while j + 1 < len(evs) and nxt.get(evs[j]["a"]) == evs[j + 1]["a"]:
                    j += 1
                if j > i:
                    runs.append((c["id"], tuple((e["a"], float(gen.BASE + e["t"])) for e in evs[i:j + 1])))
                i = j + 1
    size = case["size"]
    for nm, obj, var, p in (("dataframe", df, PS.Variants.DATAFRAME, par), ("log", el, PS.Variants.LOG, lpar)):
        res = PS.apply(obj, lst, variant=var, parameters={**p, "sample_size": size})
        req_eq(res["list_activities"], lst, "list of activities")
        got = [tuple(float(x) for x in pt) for pt in res["points"]]
        require(got == sorted(got, key=lambda x: x[0]), "%s: points not in order of time", nm)
        judge(got, full, size, nm)
    if len(set(lst)) == len(lst):
        for nm, obj, var, p in (("dataframe_disconnected", df, PS.Variants.DATAFRAME_DISCONNECTED, par), ("log_disconnected", el, PS.Variants.LOG_DISCONNECTED, lpar)):
            res = PS.apply(obj, lst, variant=var, parameters={**p, "sample_size": size})
            got = [(x["case_id"], tuple((a, float(t)) for a, t in x["points"])) for x in res["points"]]
            require([g[1][0][1] for g in got] == sorted(g[1][0][1] for g in got), "%s: points not in order of time", nm)
            judge(got, runs, size, nm)
        if any(len(r[1]) < len(lst) for r in runs) and any(len(r[1]) > 2 for r in runs):
            ctx.label("runs of several lengths")
            ctx.nontrivial()
    req_eq(df.equals(before), True, "the dataframe is left as it was")
    if full:
        ctx.nontrivial()


def judge(got, exp, size, nm):
    if len(exp) <= size:
        req_eq(Counter(got), Counter(exp), "points of the %s spectrum" % nm)
    else:
        req_eq(len(got), size, "number of sampled points (%s)" % nm)
        require(not Counter(got) - Counter(exp), "%s: sampled points %s are not points of the log %s", nm, got, exp)


@st.composite
def path_st(draw):
    log = draw(gen.log(n_act=3, max_len=7, max_traces=4, start_ts=draw(st.booleans()), gap=draw(st.sampled_from([3, 5000]))))
    return {"log": log, "pair": draw(st.one_of(st.none(), st.lists(gen.acts(3), min_size=2, max_size=2))), "keys": draw(FLAG), "df": draw(st.booleans())}


def check_paths(case, ctx):
    from pm4py.algo.transformation.log_to_interval_tree.variants import open_paths
    log = case["log"]
    hs = any("s" in e for c in log["cases"] for e in c["events"])
    kw, par = keyargs(case)
    obj = build.df(log, **kw) if case["df"] else build.elog(log, **({"ak": "act", "tk": "when"} if kw else {}))
    if hs:
        par["pm4py:param:start_timestamp_key"] = "start_timestamp"
    if case["pair"]:
        par["filter_activity_couple"] = tuple(case["pair"])
    ak = "act" if kw else "concept:name"
    got = open_paths.log_to_intervals(obj, parameters=dict(par))
    exp = []
    for c in log["cases"]:
        ev = c["events"]
        for i in range(len(ev)):
            j = next((j for j in range(i + 1, len(ev)) if ev[j].get("s", ev[j]["t"]) >= ev[i]["t"]), None)
            if j is not None and (case["pair"] is None or [ev[i]["a"], ev[j]["a"]] == list(case["pair"])):
                exp.append((float(gen.BASE + ev[i]["t"]), float(gen.BASE + ev[j].get("s", ev[j]["t"])), ev[i]["a"], ev[j]["a"], c["id"]))
    g = [(float(x[0]), float(x[1]), x[2][ak], x[3][ak], x[4]["concept:name"]) for x in got]
    req_eq(Counter(g), Counter(exp), "open paths")
    req_eq([x[:2] for x in g], sorted(x[:2] for x in g), "order of the open paths")
    if len(set(x[:2] for x in g)) < len(g):
        ctx.label("ties")
    eps = 0.5
    tree = open_paths.apply(obj, parameters=dict(par, epsilon=eps))
    req_eq({(iv.begin, iv.end, iv.data["source_event"][ak], iv.data["target_event"][ak], iv.data["trace_attributes"]["concept:name"]) for iv in tree},
           {(x[0] - eps, x[1] + eps) + x[2:] for x in exp}, "interval tree")
    if exp:
        t = (exp[0][0] + exp[0][1]) / 2
        req_eq({(iv.data["source_event"][ak], iv.data["trace_attributes"]["concept:name"]) for iv in tree[t]}, {(x[2], x[4]) for x in exp if x[0] - eps <= t < x[1] + eps}, "paths open at %s" % t)
    if not kw:
        tr2 = pm4py.convert_log_to_time_intervals(obj, tuple(case["pair"]) if case["pair"] else None) if not hs else None
        if tr2 is not None:
            req_eq(Counter((float(x[0]), float(x[1]), x[2][ak], x[3][ak]) for x in tr2), Counter(x[:4] for x in exp), "convert_log_to_time_intervals")
    if len(exp) > 2:
        ctx.nontrivial()


@st.composite
def red_st(draw):
    return {"tree": draw(gen.tree(depth=3, max_leaves=7)), "traces": draw(st.lists(st.lists(st.sampled_from("abcde"), max_size=4), min_size=1, max_size=3)), "pick": draw(st.lists(st.integers(0, 400), min_size=2, max_size=4))}


def check_reduce(case, ctx):
    from pm4py.algo.reduction.process_tree import reducer
    tr = case["tree"]
    if not isinstance(tr, list):
        tr = ["X", tr, None]
    lang = sorted(ref.tree_lang(tr, 5))
    trs = list(case["traces"])
    if lang:
        trs += [list(lang[i % len(lang)]) for i in case["pick"]]
    pt = build.tree(tr)
    for t in trs:
        red = reducer.apply(pt, build.variants_log([t])[0], variant=reducer.Variants.TREE_TR_BASED)
        req_eq(build.untree(pt), tr, "the input tree")
        rl = ref.tree_lang(build.untree(red), 5)
        keep = {x for x in lang if set(x) <= set(t)}
        require(keep <= rl, "trace %s: the reduced tree %s lost %s", t, red, sorted(keep - rl)[:3])
        require(rl <= set(lang), "trace %s: the reduced tree %s added %s", t, red, sorted(rl - set(lang))[:3])

        def par(n):
            for c in n.children:
                require(c.parent is n, "child %s of the reduced tree has parent %s", c, c.parent)
                par(c)
        par(red)
        req_eq(red.parent, None, "parent of the reduced root")
        if rl != set(lang):
            ctx.nontrivial()


@st.composite
def lab_st(draw):
    log = draw(gen.log(n_act=3, max_len=7, max_traces=5))
    return {"log": log, "names": draw(st.sampled_from(NAMES)), "targets": draw(st.one_of(st.none(), st.integers(0, 2))), "pre": draw(st.integers(0, 3)), "suf": draw(st.integers(0, 3)),
            "sep": draw(st.sampled_from(["_", "_", "::"])), "min": draw(st.sampled_from([0.0, 0.0, 0.4, 0.9])), "keys": draw(FLAG), "col": draw(FLAG), "df": draw(st.booleans())}


def check_labels(case, ctx):
    from pm4py.algo.label_splitting import algorithm as LS
    log = rename(case["log"], case["names"])
    kw, par = keyargs(case)
    if not kw:
        obj = build.fdf(log) if case["df"] else build.elog(log)
    else:
        obj = build.df(log, **kw)
    ak, ck = ("act", "cid") if kw else ("concept:name", "case:concept:name")
    col = "newname" if case["col"] else ak
    targets = None if case["targets"] is None else case["names"][:case["targets"] + 1]
    par.update({"prefix_length": case["pre"], "suffix_length": case["suf"], "activities_suffix": case["sep"], "min_edge_weight": case["min"], "target_activities": targets, "target_column": col})
    before = obj.copy() if case["df"] or kw else None
    res = LS.apply(obj, parameters=dict(par))
    flat = [(c["id"], e["a"], gen.BASE + e["t"]) for c in log["cases"] for e in c["events"]]
    req_eq([(r[ck], int(r[("when" if kw else "time:timestamp")].timestamp())) for r in res.to_dict("records")], [(x[0], x[2]) for x in flat], "events of the split log")
    if before is not None:
        req_eq(obj.equals(before), True, "the dataframe is left as it was")
    if col != ak:
        req_eq(list(res[ak]), [x[1] for x in flat], "original labels")
    new = list(res[col])
    seg = defaultdict(set)
    k = 0
    split = defaultdict(set)
    for c in log["cases"]:
        a = [e["a"] for e in c["events"]]
        for i, x in enumerate(a):
            n = new[k]
            k += 1
            if targets is not None and x not in targets:
                req_eq(n, x, "label of an activity that is not a target")
            seg[(x, tuple(a[max(0, i - case["pre"]):i]) + tuple(a[i + 1:i + 1 + case["suf"]]))].add(n)
            split[x].add(n)
    for s, ns in seg.items():
        require(len(ns) == 1, "events of %s in the context %s got the labels %s", s[0], s[1], ns)
    for x, ns in split.items():
        req_eq(ns, {x} if len(ns) == 1 else {x + case["sep"] + str(i) for i in range(len(ns))}, "labels of %s" % x)
    if any(len(n) > 1 for n in split.values()):
        ctx.nontrivial()
        # bigger groups come first
        for x, ns in split.items():
            cnt = Counter(n for n, f in zip(new, flat) if f[1] == x)
            if len(ns) > 1:
                v = [cnt[x + case["sep"] + str(i)] for i in range(len(ns))]
                req_eq(v, sorted(v, reverse=True), "sizes of the groups of %s" % x)


@st.composite
def merge_st(draw):
    l1, l2 = draw(gen.log(n_act=3, max_len=4, max_traces=4, extra=True)), draw(gen.log(n_act=3, max_len=4, max_traces=4, resources=True))
    rel = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), max_size=6, unique=True))
    return {"l1": l1, "l2": l2, "rel": rel, "keys": draw(FLAG), "suffix": draw(FLAG)}


def check_merge(case, ctx):
    from pm4py.algo.merging.case_relations import algorithm as M
    kw, par = keyargs(case)
    ck, ak, tk = ("cid", "act", "when") if kw else ("case:concept:name", "concept:name", "time:timestamp")
    for pre, l in (("L", case["l1"]), ("R", case["l2"])):
        for i, c in enumerate(l["cases"]):
            c["id"] = pre + str(i)
    d1, d2 = build.df(case["l1"], **kw), build.df(case["l2"], **kw)
    ls, rs = ("_LEFT", "_RIGHT") if not case["suffix"] else ("_x", "_y")
    if case["suffix"]:
        par.update({"left_suffix": ls, "right_suffix": rs})
    rel = pd.DataFrame({ck + ls: ["L%d" % a for a, _ in case["rel"]], ck + rs: ["R%d" % b for _, b in case["rel"]]}, dtype=object)
    if not case["rel"]:
        return
    b1, b2 = d1.copy(), d2.copy()
    res = M.apply(d1, d2, rel, parameters=dict(par))
    exp = Counter((c["id"], e["a"], gen.BASE + e["t"]) for c in case["l1"]["cases"] for e in c["events"])
    n1 = sum(exp.values())
    ids2 = {c["id"]: c for c in case["l2"]["cases"]}
    for a, b in case["rel"]:
        for e in ids2.get("R%d" % b, {"events": []})["events"]:
            exp[("L%d" % a, e["a"], gen.BASE + e["t"])] += 1
    got = Counter((r[ck], r[ak], int(r[tk].timestamp())) for r in res.to_dict("records"))
    req_eq(got, exp, "merged events")
    order = [(r[ck], r[tk]) for r in res[[ck, tk]].to_dict("records")]
    req_eq(order, sorted(order), "order of the merged events")
    require(d1.equals(b1) and d2.equals(b2), "the merged dataframes were edited")
    if sum(exp.values()) > n1:
        ctx.nontrivial()


@st.composite
def corr_st(draw):
    log = draw(gen.log(n_act=draw(st.integers(2, 4)), max_len=5, max_traces=4, gap=draw(st.sampled_from([3, 50, 5000]))))
    return {"log": log, "keys": draw(FLAG), "df": draw(st.booleans()), "size": draw(st.integers(2, 8)), "exact": draw(FLAG)}


def fifo(ai, aj):
    """every start, in order, takes the next completion after it"""
    out, z = [], 0
    for x in ai:
        while z < len(aj) and aj[z] <= x:
            z += 1
        if z == len(aj):
            break
        out.append((x, aj[z]))
        z += 1
    return out


def lifo(ai, aj):
    """every completion, from the last, takes the last free start before it"""
    out, k = [], len(ai) - 1
    for y in reversed(aj):
        while k >= 0 and ai[k] >= y:
            k -= 1
        if k < 0:
            break
        out.append((ai[k], y))
        k -= 1
    return out


def avg(m):
    return sum(b - a for a, b in m) / len(m) if m else 0


def best(ai, aj):
    """best full assignment: as many pairs in order as possible, then minimal total"""
    from scipy.optimize import linear_sum_assignment
    big = 10 ** 9
    c = np.array([[(y - x) if x <= y else big for y in aj] for x in ai], dtype=float)
    r, k = linear_sum_assignment(c)
    return [(ai[i], aj[j]) for i, j in zip(r, k) if ai[i] <= aj[j]]


def matrices(groups, acts, exact):
    """groups: list of {act: sorted times}; pairs are taken inside a group"""
    n = len(acts)
    ps, du = np.zeros((n, n)), np.zeros((n, n))
    for i, a in enumerate(acts):
        for j, b in enumerate(acts):
            if i == j:
                continue
            tot = cnt = 0
            m0, m1, m2 = [], [], []
            for g in groups:
                ai, aj = g.get(a, []), g.get(b, [])
                tot += len(ai) * len(aj)
                cnt += sum(1 for x in ai for y in aj if x < y)
                if ai and aj:
                    m0 += fifo(ai, aj)
                    m1 += lifo(ai, aj)
                    if exact:
                        m2 += best(ai, aj)
            ps[i, j] = cnt / tot if tot else 0
            du[i, j] = avg(m2) if exact else min(avg(m0), avg(m1))
    return ps, du


def group(evs):
    g = defaultdict(list)
    for t, a in sorted((t, a) for a, t in evs):
        g[a].append(t)
    return g


def check_corr(case, ctx):
    from pm4py.algo.discovery.correlation_mining import algorithm as CM
    from pm4py.algo.discovery.correlation_mining.variants import classic, trace_based
    from scipy.optimize import linprog
    log = case["log"]
    kw, par = keyargs(case)
    obj = build.df(log, **kw) if case["df"] or kw else build.elog(log)
    allev = [(e["a"], float(gen.BASE + e["t"])) for c in log["cases"] for e in c["events"]]
    if not allev:
        return
    acts = sorted({a for a, _ in allev})
    cnt = Counter(a for a, _ in allev)
    n = len(acts)
    res = {}
    p0 = lambda **k: dict(par, **k)
    ps, du = matrices([group(allev)], acts, case["exact"])
    _, ag, ac = classic.preprocess_log(obj, parameters=p0())
    req_eq(list(ac), acts, "activities")
    gps, gdu = classic.get_PS_dur_matrix(ag, ac, parameters=p0(exact_time_matching=case["exact"]))
    close(gps, ps, "precede/succeed matrix")
    close(gdu, du, "duration matrix")
    res["classic"] = (CM.Variants.CLASSIC, ps, du, {"exact_time_matching": case["exact"]})
    ps2, du2 = matrices([group([(e["a"], float(gen.BASE + e["t"])) for e in c["events"]]) for c in log["cases"]], acts, False)
    res["trace_based"] = (CM.Variants.TRACE_BASED, ps2, du2, {})
    if case["df"] or kw:
        tk, ak = ("when", "act") if kw else ("time:timestamp", "concept:name")
        s = obj.sort_values([tk, tk])
        flat = [(r[ak], r[tk].timestamp()) for r in s.to_dict("records")]
    else:
        flat = sorted(allev, key=lambda x: x[1])
    chunks = [flat[i:i + case["size"]] for i in range(0, len(flat), case["size"])]
    if case["df"] or kw:
        ms = [matrices([group(c)], acts, case["exact"]) for c in chunks]
        res["classic_split"] = (CM.Variants.CLASSIC_SPLIT, sum(m[0] for m in ms) / len(ms), np.maximum.reduce([m[1] for m in ms]), {"sample_size": case["size"], "exact_time_matching": case["exact"]})
    else:
        res["classic_split"] = (CM.Variants.CLASSIC_SPLIT, ps, du, {"sample_size": 10 ** 6, "exact_time_matching": case["exact"]})
    edges = [(i, j) for i in range(n) for j in range(n)]
    aeq, beq = [], []
    for k in range(n):
        aeq.append([1 if e[0] == k else 0 for e in edges])
        aeq.append([1 if e[1] == k else 0 for e in edges])
        beq += [cnt[acts[k]]] * 2
    for nm, (var, P, D, extra) in res.items():
        dfg, perf = CM.apply(obj, variant=var, parameters=p0(**extra))
        require(all(type(v) is int and v > 0 for v in dfg.values()), "%s: edge values %s", nm, dfg)
        for k, a in enumerate(acts):
            req_eq(sum(v for e, v in dfg.items() if e[0] == a), cnt[a], "%s: flow out of %s" % (nm, a))
            req_eq(sum(v for e, v in dfg.items() if e[1] == a), cnt[a], "%s: flow into %s" % (nm, a))
        req_eq(set(perf), set(dfg), "%s: edges of the performance graph" % nm)
        for e, v in perf.items():
            x = D[acts.index(e[0]), acts.index(e[1])]
            require(abs(v - x) < 1e-6 * max(1, abs(x)), "%s: performance of %s is %s instead of %s", nm, e, v, x)
        big = 1e11
        C = np.array([[(D[i, j] / P[i, j] / min(cnt[acts[i]], cnt[acts[j]]) if P[i, j] > 0 else 0) or big for j in range(n)] for i in range(n)])
        # avoided edges first, then the rest
        bad = lambda f: sum(v for (i, j), v in f.items() if C[i, j] >= big)
        cost = lambda f: sum(v * C[i, j] for (i, j), v in f.items() if C[i, j] < big)
        got = {(acts.index(a), acts.index(b)): v for (a, b), v in dfg.items()}
        o1 = linprog([1 if C[e] >= big else 0 for e in edges], A_eq=aeq, b_eq=beq)
        nb = round(o1.fun)
        req_eq(bad(got), nb, "%s: flow on edges without evidence" % nm)
        o2 = linprog([0 if C[e] >= big else C[e] for e in edges], A_eq=aeq + [[1 if C[e] >= big else 0 for e in edges]], b_eq=beq + [nb])
        require(cost(got) <= o2.fun + 1e-3 * max(1, abs(o2.fun)), "%s: cost %s, but %s is possible", nm, cost(got), o2.fun)
    if n > 1 and ps.any():
        ctx.nontrivial()


def close(a, b, what):
    require(np.allclose(a, b, rtol=1e-9, atol=1e-6), "%s: %s instead of %s", what, a, b)


@st.composite
def use_st(draw):
    import nets
    t = draw(gen.tree(depth=2, ops=("->", "X", "+", "*"), max_leaves=5, dup=False))
    return {"tree": t if isinstance(t, list) else ["->", t or "a", "b"], "l1": draw(st.lists(st.lists(st.sampled_from("abcd"), max_size=4), min_size=1, max_size=3)), "l2": draw(st.lists(st.lists(st.sampled_from("abcd"), max_size=4), min_size=1, max_size=3)), "pick": draw(st.lists(st.integers(0, 300), min_size=2, max_size=4)), "df": draw(st.booleans())}


def check_usage(case, ctx):
    from pm4py.algo.comparison.petrinet import element_usage_comparison as EU
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    net, im, fm = pm4py.convert_to_petri_net(build.tree(case["tree"]))
    lang = sorted(ref.tree_lang(case["tree"], 5)) or [()]
    l1 = case["l1"] + [list(lang[i % len(lang)]) for i in case["pick"][:2]]
    l2 = case["l2"] + [list(lang[i % len(lang)]) for i in case["pick"][2:]]
    l1, l2 = [t for t in l1 if t] or [["a"]], [t for t in l2 if t] or [["a"]]
    mk = build.variants_df if case["df"] else build.variants_log
    res = EU.compare_element_usage_two_logs(net, im, fm, mk(l1), mk(l2))
    req_eq(set(res), set(net.places) | set(net.transitions) | set(net.arcs), "compared elements")
    occ = []
    for l in (l1, l2):
        tr, pl = Counter(), Counter()
        for t in l:
            r = TR.apply(build.variants_log([t]), net, im, fm)[0]
            tr.update(r["activated_transitions"])
            ex = TR.apply(build.variants_log([t]), net, im, fm, parameters={"enable_pltr_fitness": True})
            for p, d in ex[1].items():
                pl[p] += d["c"] + d["r"]
        occ.append((tr, pl))
    for x in list(net.transitions) + list(net.places):
        k = 0 if x in net.transitions else 1
        a, b = occ[0][k][x], occ[1][k][x]
        d = res[x]
        req_eq((d["log1_occ"], d["log2_occ"], d["total_occ"]), (a, b, a + b), "usage of %s" % x)
        lab = "(%d/%d/%d)" % (a, b, a + b)
        req_eq(d["label"], lab if k or x.label is None else x.label + " " + lab, "label of %s" % x)
        require(abs(d["direction"] - ((b - a) / (a + b) if a + b else 0)) < 1e-9, "direction of %s: %s", x, d["direction"])
        if k == 0:
            for arc in list(x.in_arcs) + list(x.out_arcs):
                req_eq(res[arc], d, "usage of an arc of %s" % x)
            # tokens are consumed by the firings of the output transitions
    for l, (tr, pl), nm in ((l1, occ[0], "log1"), (l2, occ[1], "log2")):
        if all(ref.tree_accepts(case["tree"], tuple(t)) for t in l):
            ctx.label("fitting log")
            for p in net.places:
                exp = sum(tr[a.target] for a in p.out_arcs) + (len(l) if p in fm else 0)
                got = res[p][nm + "_occ"]
                rem = got - exp
                require(rem == 0, "%s: %s uses of %s, %s expected from the firings", nm, got, p, exp)
    ctx.nontrivial()


UNITS = [
    Unit("spectrum", spec_st(), check_spectrum, quick=300, rule="an occurrence of the list, or runs of several lengths"),
    Unit("paths", path_st(), check_paths, quick=250, rule="more than two open paths"),
    Unit("reduce", red_st(), check_reduce, quick=300, rule="the reduced tree has a smaller language"),
    Unit("labels", lab_st(), check_labels, quick=250, rule="some activity is split"),
    Unit("merge", merge_st(), check_merge, quick=250, rule="related events are added"),
    Unit("correlation", corr_st(), check_corr, quick=250, rule="some activity precedes another"),
    Unit("usage", use_st(), check_usage, quick=200, rule="always"),
]

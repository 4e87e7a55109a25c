"""C40 counting statistics: variants, attributes, rework, positions, self distances"""
from collections import Counter, defaultdict
from hypothesis import strategies as st
import gen, build, flt
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Variants, attribute values and the other counting statistics are exact",
    statement="For every event log and dataframe (formatted or raw, rows of a case not necessarily adjacent), the variants and their counts partition the cases by activity sequence, the stochastic language is the relative frequency of the variants, and splitting by variant yields each case whole exactly once with the per-position durations aggregated over the cases of the variant. "
              "Start/end activities, event and trace attribute values (once per event, or once per case), rework per activity and per case, activity positions, minimum self distances and their witnesses, the eventually-follows counts and the distributions of events over calendar periods equal the counts obtained by walking over the cases one by one.",
    over=["inputs"], quant="all generated logs with repeated, equal-time and missing-attribute events",
    why="each statistic is recomputed with pandas group-bys that differ from the event-log loops; tests look at one or two figures on fixed logs",
    files=["pm4py/stats.py", "pm4py/statistics/variants", "pm4py/statistics/attributes", "pm4py/statistics/rework", "pm4py/algo/discovery/minimum_self_distance",
           "pm4py/objects/log/util/pandas_numpy_variants.py", "pm4py/statistics/eventually_follows"],
    mech=[("get_variants*", "pm4py/statistics/variants/log/get.py"), ("get_attribute_values", "pm4py/statistics/attributes/pandas/get.py")])

INST = ["log", "df", "raw", "shuffled"]


@st.composite
def case_st(draw):
    log = draw(flt.flog(equal_ts=0.3))
    n = sum(len(c["events"]) for c in log["cases"])
    return {"log": log, "form": draw(st.sampled_from(INST)), "order": draw(st.permutations(range(n))), "pick": draw(st.integers(0, 20))}


def make(case):
    log = case["log"]
    if case["form"] == "log":
        return flt.elog(log)
    if case["form"] == "df":
        return flt.frame(log)
    d = flt.frame(log, formatted=False)
    if case["form"] == "shuffled":
        # interleave the cases, keeping the order inside each case
        cid = d["case:concept:name"].tolist()
        pos = defaultdict(list)
        for i, c in enumerate(cid):
            pos[c].append(i)
        rows = []
        for i in case["order"]:
            rows.append(pos[cid[i]].pop(0))
        d = d.iloc[rows].reset_index(drop=True)
    return d


def seqs(case):
    """{case id: events in order}; raw dataframes are ordered by time then row"""
    return {c["id"]: c["events"] for c in case["log"]["cases"]}


def ordered(case):
    s = seqs(case)
    return s


def cnt(d):
    return {k: int(v) for k, v in d.items()}


def norm(v):
    return {k: (len(x) if isinstance(x, list) else int(x)) for k, x in v.items()}


def check_variants(case, ctx):
    S = ordered(case)
    acts = {c: tuple(e["a"] for e in ev) for c, ev in S.items()}
    V = Counter(acts.values())
    o = make(case)
    req_eq(norm(pm4py.get_variants(o)), dict(V), "get_variants")
    req_eq(norm(pm4py.get_variants_as_tuples(make(case))), dict(V), "get_variants_as_tuples")
    if case["form"] == "log":
        g = pm4py.get_variants(o)
        for v, trs in g.items():
            req_eq(sorted(t.attributes["concept:name"] for t in trs), sorted(c for c in acts if acts[c] == v), "cases of the variant %s" % (v,))
        from pm4py.statistics.variants.log import get as vget
        a, dur = vget.get_variants_along_with_case_durations(o)
        req_eq(norm(a), dict(V), "variants along with durations")
        for v in V:
            req_eq(sorted(float(x) for x in dur[v]), sorted(float(S[c][-1]["t"] - S[c][0]["t"]) for c in acts if acts[c] == v), "durations of the cases of %s" % (v,))
        sc = vget.get_variants_sorted_by_count(a)
        req_eq({v: n for v, n in sc}, dict(V), "sorted variants")
        require([n for v, n in sc] == sorted(V.values(), reverse=True), "variants are sorted by count")
    else:
        from pm4py.statistics.variants.pandas import get as vget
        req_eq(vget.get_variants_set(make(case)), set(V), "variants set")
    lang = pm4py.get_stochastic_language(make(case))
    n = sum(V.values())
    req_eq({tuple(k): round(p, 9) for k, p in lang.items()}, {v: round(k / n, 9) for v, k in V.items()}, "stochastic language")
    seen = {}
    for v, d in pm4py.split_by_process_variant(make(case)):
        for c, i in zip(d["case:concept:name"].tolist(), d["eid"].tolist()):
            req_eq(tuple(v), acts[c], "the variant of case %s in the split" % c)
            seen.setdefault(c, []).append(int(i))
    req_eq(seen, {c: [e["id"] for e in ev] for c, ev in S.items()}, "the split yields every case whole, once")
    if len(V) < n and len(V) > 1:
        ctx.nontrivial()


def check_paths(case, ctx):
    S = ordered(case)
    if case["form"] == "log" or all(len(e) < 2 for e in S.values()):
        return ctx.label("none")
    agg = ["mean", "min", "max"][case["pick"] % 3]
    if any(S[c][i]["t"] == S[c][i + 1]["t"] for c in S for i in range(len(S[c]) - 1)):
        ctx.label("equal times")
    got = pm4py.get_variants_paths_duration(make(case), times_agg=agg)
    V = defaultdict(list)
    for c, ev in S.items():
        V[tuple(e["a"] for e in ev)].append(c)
    exp = []
    F = {"mean": lambda l: sum(l) / len(l), "min": min, "max": max}[agg]
    for v, cs in V.items():
        occ = Counter()
        for i in range(len(v) - 1):
            exp.append((v, len(cs), i, v[i], v[i + 1], round(float(F([S[c][i + 1]["t"] - S[c][i]["t"] for c in cs])), 4), occ[v[i], v[i + 1]]))
            occ[v[i], v[i + 1]] += 1
    res = [(tuple(r["@@variant_column"]), r["@@variant_count"], r["@@index_in_trace"], r["concept:name"], r["concept:name_2"], round(float(r["@@flow_time"]), 4), r["@@cumulative_occ_path_column"]) for r in got.to_dict("records")]
    req_eq(Counter(res), Counter(exp), "variants paths durations")
    counts = [r[1] for r in res]
    require(counts == sorted(counts, reverse=True), "the most frequent variants come first: %s", counts)
    for v in V:
        ix = [r[2] for r in res if r[0] == v]
        require(ix == sorted(ix), "positions are increasing in a variant")
    if len(V) < len(S):
        ctx.nontrivial()


def check_attr(case, ctx):
    S = ordered(case)
    cases = case["log"]["cases"]
    form = case["form"]
    if not S:
        return
    for sh, attr in (("r", "org:resource"), ("x", "x"), ("a", "concept:name")):
        if form == "log" and not any(sh in e for ev in S.values() for e in ev):
            continue
        exp = Counter(e[sh] for ev in S.values() for e in ev if sh in e)
        once = Counter(v for ev in S.values() for v in {e[sh] for e in ev if sh in e})
        req_eq(cnt(pm4py.get_event_attribute_values(make(case), attr)), dict(exp), "values of %s" % attr)
        req_eq(cnt(pm4py.get_event_attribute_values(make(case), attr, count_once_per_case=True)), dict(once), "values of %s once per case" % attr)
        if exp != once:
            ctx.nontrivial()
    col = Counter(c["color"] for c in cases if "color" in c)
    for a in ("case:color", "color"):
        req_eq(cnt(pm4py.get_trace_attribute_values(make(case), a)), dict(col), "trace attribute values of %s: one per case" % a)
    req_eq(cnt(pm4py.get_trace_attribute_values(make(case), "case:concept:name")), {c: 1 for c in S}, "values of the case identifier")
    ea, ta = set(pm4py.get_event_attributes(make(case))), set(pm4py.get_trace_attributes(make(case)))
    have = {"concept:name", "time:timestamp", "eid"} | ({"x"} if any("x" in e for ev in S.values() for e in ev) else set()) | ({"org:resource"} if any("r" in e for ev in S.values() for e in ev) else set())
    if form == "log":
        req_eq(ea, have, "event attributes")
        req_eq(ta, {"color"} if col else set(), "trace attributes")
    else:
        require(have <= ea, "event attributes %s", ea)
        req_eq(ta, {"case:concept:name", "case:color"}, "trace attributes")
    if case["form"] == "log":
        from pm4py.statistics.attributes.log import get as aget, select
        full = {a for sh, a in (("r", "org:resource"), ("x", "x"), ("a", "concept:name")) if all(any(sh in e for e in ev) for ev in S.values())}
        for a in ("org:resource", "x", "concept:name"):
            req_eq(select.verify_if_event_attribute_is_in_each_trace(make(case), a), a in full, "%s is in each trace" % a)
        req_eq(set(select.check_event_attributes_presence(make(case), ["org:resource", "x", "concept:name"])), full, "event attributes present in each trace")
        req_eq(select.verify_if_trace_attribute_is_in_each_trace(make(case), "color"), all("color" in c for c in cases), "color is in each trace")
        L = {"org:resource", "x", "concept:name"} & have
        st_, se, nt, ne = select.select_attributes_from_log_for_tree(make(case))
        req_eq((set(st_), set(se), set(nt), set(ne)), ({"color"} if all("color" in c for c in cases) else set(), full & L & {"org:resource", "concept:name"}, set(), (full & {"x"}) | {"eid"}), "selected attributes")
    else:
        from pm4py.statistics.attributes.pandas import get as aget
    import datetime
    T = [build.ts(e["t"]) for ev in S.values() for e in ev]
    for k, f, rng in (("days_month", lambda t: t.day, range(1, 32)), ("months", lambda t: t.month, range(1, 13)), ("hours", lambda t: t.hour, range(24)), ("days_week", lambda t: t.weekday(), range(7)),
                      ("weeks", lambda t: t.isocalendar()[1], range(53)), ("years", lambda t: t.year, None)):
        exp = Counter(map(f, T))
        if rng is None:
            rng = range(min(exp), max(exp) + 1)
        e2 = {i: exp.get(i, 0) for i in set(rng) | set(exp)}
        x, y = aget.get_events_distribution(make(case), k)
        names = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
        req_eq(list(zip(x, [int(v) for v in y])), [(names[i] if k == "days_week" else "%02d" % i, e2[i]) for i in sorted(e2)], "distribution of the events over %s" % k)


def check_counts(case, ctx):
    S = ordered(case)
    A = {c: [e["a"] for e in ev] for c, ev in S.items()}
    req_eq(cnt(pm4py.get_start_activities(make(case))), dict(Counter(a[0] for a in A.values())), "start activities")
    req_eq(cnt(pm4py.get_end_activities(make(case))), dict(Counter(a[-1] for a in A.values())), "end activities")
    rw = Counter(x for a in A.values() for x, n in Counter(a).items() if n > 1)
    req_eq(cnt(pm4py.get_rework_cases_per_activity(make(case))), dict(rw), "rework cases per activity")
    if case["form"] == "log":
        from pm4py.statistics.rework.cases.log import get as rc
        from pm4py.statistics.eventually_follows.log import get as ef
    else:
        from pm4py.statistics.rework.cases.pandas import get as rc
        from pm4py.statistics.eventually_follows.pandas import get as ef
    o = make(case)
    P = {}
    if case["pick"] % 2 and case["form"] != "log":
        o = o.rename(columns={"case:concept:name": "cid", "concept:name": "act"})
        P = {"pm4py:param:case_id_key": "cid", "pm4py:param:activity_key": "act"}
    req_eq({c: {k: int(v) for k, v in d.items()} for c, d in rc.apply(o, parameters=P).items()}, {c: {"number_activities": len(a), "rework": len(a) - len(set(a))} for c, a in A.items()}, "rework per case")
    msd, wit = {}, {}
    for c, a in A.items():
        for i in range(len(a)):
            for j in range(i + 1, len(a)):
                if a[j] == a[i]:
                    if a[i] not in msd or j - i - 1 < msd[a[i]]:
                        msd[a[i]], wit[a[i]] = j - i - 1, set()
                    if j - i - 1 == msd[a[i]]:
                        wit[a[i]] |= set(a[i + 1:j])
                    break
    req_eq(cnt(pm4py.get_minimum_self_distances(make(case))), msd, "minimum self distances")
    if len(set(msd.values())) > 1:
        ctx.nontrivial()
    req_eq({k: set(v) for k, v in pm4py.get_minimum_self_distance_witnesses(make(case)).items()}, {a: w for a, w in wit.items() if msd[a] > 0}, "witnesses")
    for x in sorted({y for a in A.values() for y in a} | {"absent"})[:4]:
        req_eq(cnt(pm4py.get_activity_position_summary(make(case), x)), dict(Counter(i for a in A.values() for i, y in enumerate(a) if y == x)), "positions of %s" % x)
    if S:
        for kf in (False, True):
            E = Counter()
            for ev in S.values():
                for i, e in enumerate(ev):
                    for f in ev[i + 1:]:
                        E[e["a"], f["a"]] += 1
                        if kf:
                            break
            req_eq(cnt(ef.apply(make(case), parameters={"keep_first_following": kf})), dict(E), "eventually follows, keep_first_following=%s" % kf)


UNITS = [
    Unit("variants", case_st(), check_variants, 240, rule="at least two variants, one with several cases"),
    Unit("paths", case_st(), check_paths, 160, rule="a variant with several cases"),
    Unit("attributes", case_st(), check_attr, 200, rule="per-event and per-case counts differ"),
    Unit("counts", case_st(), check_counts, 240, rule="different self distances"),
]

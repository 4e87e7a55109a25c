"""C62 coupling of two logs, views and reductions of logs"""
import warnings
from collections import Counter, defaultdict
from hypothesis import strategies as st
import pandas as pd
from core import Unit, require, req_eq
import pm4py
import gen
from pm4py.algo.discovery.ocel.interleavings import algorithm as il
from pm4py.algo.merging.case_relations import algorithm as merging
from pm4py.objects.ocel.util import log_ocel
from pm4py.objects.log.util.pandas_log_wrapper import PandasLogWrapper
from pm4py.objects.conversion.log.variants import df_to_event_log_nv, df_to_event_log_1v
from pm4py.algo.discovery.dfg.variants import case_attributes, clean_time
from pm4py.statistics.util import times_bipartite_matching as tbm

META = dict(
    title="Coupling two logs, and reduced views of a log, follow the events exactly",
    statement="The interleavings of two logs are exactly the alternations of the events of related cases (with the artificial start and end), their index columns designate these events, and the object-centric log of the interleavings relates exactly these events with the objects of the other log; merging two logs moves the related cases. "
              "The matching of start and completion times is feasible and optimal. The log wrapper of a dataframe, the logs with one case per (occurrence of a) variant, the directly-follows graph by case attribute and the mean relative time of activities agree with a direct computation on the cases.",
    over=["inputs"], quant="all couples of logs, case relations, and dataframes within the size bound",
    why="two logs coupled by case relations appear in one example only, and the tests never look at the resulting relations",
    oracle="direct computation over the cases; exhaustive search of matchings",
    limits="Cases with distinct identifiers in the two logs; the events of a case have distinct timestamps in the interleavings.",
    files=["pm4py/algo/discovery/ocel/interleavings", "pm4py/algo/merging/case_relations", "pm4py/objects/ocel/util/log_ocel.py", "pm4py/objects/log/util/pandas_log_wrapper.py", "pm4py/objects/conversion/log/variants", "pm4py/statistics/util/times_bipartite_matching.py", "pm4py/algo/discovery/dfg/variants"],
    mech=[("interleavings", "pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py"), ("case relations", "pm4py/algo/merging/case_relations/variants/pandas.py"), ("wrapper", "pm4py/objects/log/util/pandas_log_wrapper.py"), ("matching", "pm4py/statistics/util/times_bipartite_matching.py")])
C, A, T = "case:concept:name", "concept:name", "time:timestamp"
START, END = "\u25b6", "\u25a0"


@st.composite
def half(draw, pre, distinct):
    n = draw(st.integers(1, 3))
    out = []
    for i in range(n):
        ts = draw(st.lists(st.integers(0, 14), min_size=1, max_size=4, unique=distinct))
        out.append([pre + str(i), [[draw(st.sampled_from("abcd")), t] for t in ts], draw(st.integers(0, 3))])
    return dict(c=out, shuffle=draw(st.sampled_from([False, True])), fmt=draw(st.sampled_from([False, True])), odd=draw(st.sampled_from([False, False, True])), seed=draw(st.integers(0, 99)))


@st.composite
def pair(draw, distinct=True):
    l, r = draw(half("L", distinct)), draw(half("R", distinct))
    cp = st.tuples(st.sampled_from([c[0] for c in l["c"]]), st.sampled_from([c[0] for c in r["c"]]))
    rel = draw(st.lists(cp, min_size=1, max_size=4, unique=True))
    if not distinct:
        rel = list({y: (x, y) for x, y in rel}.values())
    return dict(l=l, r=r, rel=[list(x) for x in rel], suf=draw(st.sampled_from([None, None, ["_1st", "_2nd"]])))


def frame(h):
    import random
    rows = []
    for cid, evs, at in h["c"]:
        for a, t in (evs if h["shuffle"] else sorted(evs, key=lambda x: x[1])):
            rows.append({C: cid, A: a, T: pd.Timestamp(gen.BASE + t, unit="s", tz="UTC"), "case:at": at, "eid": len(rows)})
    if h["shuffle"]:
        random.Random(h["seed"]).shuffle(rows)
    df = pd.DataFrame(rows)
    if h["fmt"]:
        df = pm4py.format_dataframe(df)
    elif h["odd"]:
        df.index = [10 + 3 * i for i in range(len(df))]
    return df


def seqs(h):
    # the events of a case in order: (activity, time, eid)
    df = frame(h)
    out = defaultdict(list)
    for i, r in enumerate(df.to_dict("records")):
        out[r[C]].append((r[T].timestamp(), i, r[A], r["eid"]))
    return {k: [(-1e18, -1, START, -1)] + sorted(v) + [(1e18, -1, END, -1)] for k, v in out.items()}


def check_il(case, ctx):
    ls, rs = case["suf"] or ["_LEFT", "_RIGHT"]
    dl, dr = frame(case["l"]), frame(case["r"])
    rel = pd.DataFrame([{C + ls: x, C + rs: y} for x, y in case["rel"]])
    pr = {"left_suffix": ls, "right_suffix": rs} if case["suf"] else {}
    copies = dl.copy(), dr.copy(), rel.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        md = il.apply(dl, dr, rel, parameters=pr)
    for x, y, nm in zip((dl, dr, rel), copies, ("left", "right", "relations")):
        require(x.equals(y) and list(x.columns) == list(y.columns), "the %s dataframe is not modified", nm)
    SL, SR = seqs(case["l"]), seqs(case["r"])
    want = Counter()
    for x, y in case["rel"]:
        for a, a2 in zip(SL[x], SL[x][1:]):
            for b, b2 in zip(SR[y], SR[y][1:]):
                if a[0] < b[0] < a2[0] < b2[0]:
                    want[("LR", x, y, a[2], b[2], a[1], b[1], a[0], b[0])] += 1
                if b[0] < a[0] < b2[0] < a2[0]:
                    want[("RL", x, y, b2[2], a2[2], a2[1], b2[1], b2[0], a2[0])] += 1
    fin = lambda t: t.timestamp() if abs(t.timestamp()) < 9e9 else (-1e18 if t.timestamp() < 0 else 1e18)
    got = Counter()
    for r in md.to_dict("records"):
        got[(r["@@direction"], r[C + ls], r[C + rs], r["@@source_activity"], r["@@target_activity"], int(r["@@left_index"]), int(r["@@right_index"]), fin(r["@@source_timestamp"]), fin(r["@@target_timestamp"]))] += 1
        if abs(r["@@target_timestamp"].timestamp()) < 9e9 and abs(r["@@source_timestamp"].timestamp()) < 9e9:
            require(abs(r["@@timestamp_diff"] - (r["@@target_timestamp"] - r["@@source_timestamp"]).total_seconds()) < 1e-5, "time difference")
    req_eq(got, want, "interleavings (direction, left case, right case, source, target, left index, right index, times)")
    # object-centric log
    mc = md.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        oc = log_ocel.from_interleavings(dl, dr, md)
    require(md.equals(mc), "interleavings not modified")
    require(dl.equals(copies[0]) and dr.equals(copies[1]), "dataframes not modified")
    key = {}
    ev = Counter()
    for r in oc.events.to_dict("records"):
        key[r["ocel:eid"]] = (r["ocel:eid"].split("_")[0], r["eid"])
        ev[(r["ocel:eid"].split("_")[0], r["eid"], r["ocel:activity"], r["ocel:timestamp"].timestamp())] += 1
    S = {"E1": SL, "E2": SR}
    req_eq(ev, Counter((p, e[3], e[2], e[0]) for p in S for v in S[p].values() for e in v[1:-1]), "events of the object-centric log")
    req_eq(Counter((r["ocel:oid"], r["ocel:type"], r["at"] if "at" in r else r["case:at"]) for r in oc.objects.to_dict("records")),
           Counter((c[0], ty, c[2]) for h, ty in ((case["l"], "OTYPE"), (case["r"], "OTYPE2")) for c in h["c"]), "objects")
    wrel = Counter((p, e[3], c, e[2], ty) for p, ty in (("E1", "OTYPE"), ("E2", "OTYPE2")) for c, v in S[p].items() for e in v[1:-1])
    pos = {p: {e[1]: e for v in S[p].values() for e in v[1:-1]} for p in S}
    for (d, x, y, s, t, li, ri, _, _), n in want.items():
        if li >= 0 and ri >= 0:
            if d == "LR":
                wrel[("E1", pos["E1"][li][3], y, s, "OTYPE2")] += n
            else:
                wrel[("E2", pos["E2"][ri][3], x, s, "OTYPE")] += n
    req_eq(Counter(key[r["ocel:eid"]] + (r["ocel:oid"], r["ocel:activity"], r["ocel:type"]) for r in oc.relations.to_dict("records")), wrel, "relations")
    require(not [c for c in oc.relations.columns if "@#@#" in c], "no auxiliary column in the relations")
    ctx.nontrivial(len({k[0] for k in want if k[5] >= 0 and k[6] >= 0}) == 2)


def check_merge(case, ctx):
    ls, rs = case["suf"] or ["_LEFT", "_RIGHT"]
    dl, dr = frame(case["l"]), frame(case["r"])
    rel = pd.DataFrame([{C + ls: x, C + rs: y} for x, y in case["rel"]])
    pr = {"left_suffix": ls, "right_suffix": rs} if case["suf"] else {}
    m = merging.apply(dl, dr, rel, parameters=pr)
    to = {y: x for x, y in case["rel"]}
    want = Counter((r[C], r[A], r[T], r["eid"], "l") for r in dl.to_dict("records")) + Counter((to[r[C]], r[A], r[T], r["eid"], "r") for r in dr.to_dict("records") if r[C] in to)
    src = lambda r: "r" if isinstance(r.get(C + rs), str) else "l"
    got = [(r[C], r[A], r[T], r["eid"], src(r)) for r in m.to_dict("records")]
    req_eq(Counter(got), want, "merged events")
    require([(g[0], g[2]) for g in got] == sorted((g[0], g[2]) for g in got), "sorted by case and time")
    ctx.nontrivial(len(case["rel"]) >= 2)


# ---------- matching
@st.composite
def mcase(draw):
    a = sorted(draw(st.lists(st.integers(0, 12), min_size=1, max_size=5)))
    b = sorted(draw(st.lists(st.integers(0, 12), min_size=1, max_size=5)))
    return dict(a=a, b=b)


def best(a, b):
    # the maximum number of couples and, among these, the minimum total time
    from functools import lru_cache

    @lru_cache(None)
    def go(i, used):
        if i == len(a):
            return (0, 0)
        r = go(i + 1, used)
        for j in range(len(b)):
            if not used >> j & 1 and a[i] <= b[j]:
                x = go(i + 1, used | 1 << j)
                r = min(r, (x[0] - 1, x[1] + b[j] - a[i]))
        return r
    return go(0, 0)


def check_match(case, ctx):
    a, b = case["a"], case["b"]
    m = tbm.exact_match_minimum_average(list(a), list(b))
    require(not Counter(x for x, _ in m) - Counter(a) and not Counter(y for _, y in m) - Counter(b), "every time is used at most once: %r", m)
    require(all(x <= y for x, y in m), "couples are feasible: %r", m)
    n, c = best(tuple(a), tuple(b))
    req_eq((len(m), sum(y - x for x, y in m)), (-n, c), "number of couples and total time of %r" % (m,))
    ctx.nontrivial(len(a) >= 2 and len(b) >= 2 and max(a) > min(b))


# ---------- views
@st.composite
def vcase(draw):
    n = draw(st.integers(1, 5))
    cs = []
    for i in range(n):
        evs = draw(st.lists(st.tuples(st.sampled_from("abc"), st.integers(0, 50)).map(list), min_size=1, max_size=5))
        cs.append(["c%d" % i, sorted(evs, key=lambda x: x[1]), draw(st.sampled_from(["u", "v"])), draw(st.integers(0, 2))])
    sl = st.one_of(st.none(), st.integers(-5, 6))
    return dict(c=cs, cs=[draw(sl), draw(sl), draw(st.sampled_from([None, None, 1, 2, -1]))], es=[draw(sl), draw(sl), draw(st.sampled_from([None, None, 1, 2, -1]))], inter=draw(st.booleans()), seed=draw(st.integers(0, 99)))


def check_views(case, ctx):
    import random
    rows = [{C: c[0], A: a, T: pd.Timestamp(gen.BASE + t, unit="s", tz="UTC"), "case:x": c[2], "case:y": c[3], "k": i} for c in case["c"] for i, (a, t) in enumerate(c[1])]
    if case["inter"]:
        # the events of the cases are interleaved
        rnd = random.Random(case["seed"])
        keys = [r[C] for r in rows]
        rnd.shuffle(keys)
        its = {c: iter([r for r in rows if r[C] == c]) for c in set(keys)}
        rows = [next(its[k]) for k in keys]
    df = pd.DataFrame(rows)
    cases = {c[0]: c for c in case["c"]}
    names = sorted(cases)
    w = PandasLogWrapper(df)
    ev = lambda tr: [(e[A], e["k"]) for e in tr]
    want = {k: [(a, i) for i, (a, _) in enumerate(cases[k][1])] for k in names}
    req_eq(len(w), len(names), "length of the wrapper")
    req_eq([ev(t) for t in w], [want[k] for k in names], "iteration over the wrapper")
    for i in range(-len(names), len(names)):
        t = w[i]
        c = cases[names[i]]
        req_eq((len(t), ev(t), t.attributes["concept:name"], t.attributes["x"], t.attributes["y"]), (len(c[1]), want[c[0]], c[0], c[2], c[3]), "case %d" % i)
        for j in range(-len(t), len(t)):
            req_eq((t[j][A], t[j]["k"]), want[c[0]][j], "event %d" % j)
        s = slice(*case["es"])
        req_eq(ev(t[s]), want[c[0]][s], "events %r of a case of %d events" % (s, len(t)))
    s = slice(*case["cs"])
    req_eq([ev(t) for t in w[s]], [want[k] for k in names[s]], "cases %r of a log of %d cases" % (s, len(names)))
    # variants
    fdf = pm4py.format_dataframe(df)
    var = Counter(tuple(a for a, _ in c[1]) for c in case["c"])
    seq = lambda lg: Counter(tuple(e[A] for e in t) for t in lg)
    req_eq(seq(df_to_event_log_nv.apply(fdf)), var, "log with the cases of every variant")
    req_eq(seq(df_to_event_log_1v.apply(fdf)), Counter(list(var)), "log with one case per variant")
    lg, idx = df_to_event_log_nv.apply(fdf, parameters={"return_variants": True})
    req_eq({tuple(k): [tuple(e[A] for e in lg[i]) for i in v] for k, v in idx.items()}, {v: [v] * n for v, n in var.items()}, "indices of the variants")
    req_eq(sorted(i for v in idx.values() for i in v), list(range(len(lg))), "every case in one variant")
    # DFG by case attribute
    lg = pm4py.convert_to_event_log(fdf)
    ats = ["x", "y", "missing"]
    dfg, nodes = case_attributes.apply(lg, parameters={"case_attributes": ats, "return_nodes_attributes": True})
    we, wn = {}, {}
    for c in case["c"]:
        for at, v in (("x", c[2]), ("y", c[3])):
            seqa = [a for a, _ in c[1]]
            for d, ks in ((we, zip(seqa, seqa[1:])), (wn, seqa)):
                for k in ks:
                    d.setdefault(k, {}).setdefault(at, Counter())[v] += 1
    norm = lambda d: {k: {a: dict(x) for a, x in v.items()} for k, v in d.items()}
    req_eq(norm(dfg), norm(we), "edges by case attribute")
    req_eq(norm(nodes), norm(wn), "activities by case attribute")
    # mean relative time of the activities
    got = clean_time.apply(fdf)
    rt = defaultdict(list)
    for c in case["c"]:
        per = defaultdict(list)
        for a, t in c[1]:
            per[a].append(t - c[1][0][1])
        for a, x in per.items():
            rt[a].append(sum(x) / len(x))
    req_eq(set(got), set(rt), "activities with a relative time")
    for a in rt:
        require(abs(got[a].total_seconds() - sum(rt[a]) / len(rt[a])) < 1e-5, "mean relative time of %r: %r instead of %r s", a, got[a], sum(rt[a]) / len(rt[a]))
    ctx.nontrivial(len(case["c"]) >= 2 and max(var.values()) < len(case["c"]))
    ctx.label("interleaved rows" if case["inter"] else "rows by case")


UNITS = [
    Unit("interleavings", pair(), check_il, quick=250, shards=2, rule="both directions of interleavings between real events"),
    Unit("merging", pair(distinct=False), check_merge, quick=150, rule="at least two related cases"),
    Unit("matching", mcase(), check_match, quick=400, rule="some couple is not feasible and both sides have at least two times"),
    Unit("views", vcase(), check_views, quick=250, shards=2, rule="at least two variants"),
]

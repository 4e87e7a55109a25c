"""C43 organizational mining"""
import warnings, math, itertools
from collections import Counter, defaultdict
from fractions import Fraction
import pandas as pd
from hypothesis import strategies as st
from core import Unit, require, req_eq
import pm4py
import gen, build
from build import ts
from pm4py.util import constants as K
from pm4py.algo.organizational_mining.sna import algorithm as sna, util as sna_util
from pm4py.algo.organizational_mining.roles import algorithm as roles_alg
from pm4py.algo.organizational_mining.local_diagnostics import algorithm as diag
from pm4py.algo.organizational_mining.resource_profiles.variants import log as rpl, pandas as rpp

META = dict(
    title="Organizational mining is exact: networks, roles, diagnostics, profiles",
    statement="Handover of work (with any decay), subcontracting at distance n, working together and joint-activity similarity have the values of their definitions over the resource sequences of the cases; discovered roles partition the activities, carry the work of their resources, and are merged greedily while two exceed the similarity threshold. "
              "Network analysis links every event to the next one sharing the chosen columns and aggregates frequency or time; group diagnostics and resource profiles (counts, fractions, workload, multitasking, durations, interactions in a time window) equal their definitions, on logs and dataframes alike.",
    over=["inputs"], quant="logs with up to 4 resources, ties and large ones x decay, distance, thresholds, windows, columns and key names",
    why="tests only call these functions on one log; values must be right for any log, window and tie",
    oracle="direct evaluation of the definitions on the generated cases",
    limits="Values of an undefined mean (no event in the window) are not judged; roles are compared to the greedy merge only when no two similarities tie.",
    files=["pm4py/algo/organizational_mining", "pm4py/org.py", "pm4py/algo/discovery/ocel/link_analysis"],
    mech=[("networks", "pm4py/algo/organizational_mining/sna/variants/log/handover.py"), ("roles", "pm4py/algo/organizational_mining/roles/common/algorithm.py"), ("profiles", "pm4py/algo/organizational_mining/resource_profiles/variants/log.py"), ("link analysis", "pm4py/algo/discovery/ocel/link_analysis/variants/classic.py")])
warnings.simplefilter("ignore")
KEYS = {False: ("case:concept:name", "concept:name", "time:timestamp", "org:resource", "start_timestamp"), True: ("cid", "act", "when", "who", "begin")}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def same(got, exp, what):
    req_eq(sorted(got), sorted(exp), "%s: pairs" % what)
    for k in exp:
        require(close(got[k], float(exp[k])), "%s of %s: got %s expected %s", what, k, got[k], float(exp[k]))


def objs(c):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    l = c["log"]
    if c["rep"] == "log":
        return build.elog(l, ak=ak, tk=tk, rk=rk, sk=sk)
    d = build.df(l, ck=ck, ak=ak, tk=tk, rk=rk, sk=sk)
    return d


def networks(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    o = objs(c)
    seqs = [[e["r"] for e in x["events"]] for x in c["log"]["cases"]]
    ctx.label(c["rep"])
    ctx.nontrivial(len({r for s in seqs for r in s}) > 1 and len(seqs) > 1)
    P = {K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_CASEID_KEY: ck, K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk}
    beta, n = c["beta"], c["n"]
    kw = dict(resource_key=rk, timestamp_key=tk, case_id_key=ck)
    # handover
    num, tot = defaultdict(Fraction), Fraction(0)
    b = Fraction(beta)
    for s in seqs:
        for i in range(len(s)):
            for j in range(i + 1, len(s)):
                w = b ** (j - i - 1) if (b or j == i + 1) else 0
                num[s[i], s[j]] += w
                tot += w
    exp = {k: v / tot for k, v in num.items() if v}
    r = pm4py.discover_handover_of_work_network(o, beta=beta, **kw)
    same(r.connections, exp, "handover of work (beta %s)" % beta)
    require(r.is_directed, "handover is directed")
    # subcontracting
    num = Counter()
    for s in seqs:
        for i in range(len(s) - n):
            if s[i] == s[i + n]:
                for j in range(i + 1, i + n):
                    num[s[i], s[j]] += 1
    r = pm4py.discover_subcontracting_network(o, n=n, **kw)
    same(r.connections, {k: Fraction(v, len(seqs)) for k, v in num.items()}, "subcontracting (n=%d)" % n)
    # working together
    num = Counter()
    for s in seqs:
        for x, y in itertools.permutations(sorted(set(s)), 2):
            num[x, y] += 1
    r = pm4py.discover_working_together_network(o, **kw)
    same(r.connections, {k: Fraction(v, len(seqs)) for k, v in num.items()}, "working together")
    require(not r.is_directed, "working together is undirected")
    g = sna_util.sna_result_to_nx_graph(r, parameters={sna_util.Parameters.WEIGHT_THRESHOLD: 0.5})
    req_eq({frozenset(e) for e in g.edges}, {frozenset(k) for k, v in num.items() if Fraction(v, len(seqs)) >= 0.5}, "graph over the threshold")
    # joint activities
    acts = sorted({e["a"] for x in c["log"]["cases"] for e in x["events"]})
    if len(acts) > 1:
        cnt = Counter((e["r"], e["a"]) for x in c["log"]["cases"] for e in x["events"])
        rs = sorted({k[0] for k in cnt})
        r = pm4py.discover_activity_based_resource_similarity(o, activity_key=ak, **kw)
        got = {k: v for k, v in r.connections.items()}
        req_eq(set(got), set(itertools.permutations(rs, 2)), "similarity: pairs")
        for x, y in got:
            u, v = [cnt[x, a] for a in acts], [cnt[y, a] for a in acts]
            mu, mv = sum(u) / len(u), sum(v) / len(v)
            su, sv = math.sqrt(sum((q - mu) ** 2 for q in u)), math.sqrt(sum((q - mv) ** 2 for q in v))
            if su > 1e-9 and sv > 1e-9:
                e = sum((p - mu) * (q - mv) for p, q in zip(u, v)) / su / sv
                require(abs(got[x, y] - e) < 1e-7, "similarity of %s, %s: got %s expected %s", x, y, got[x, y], e)
            else:
                require(got[x, y] != got[x, y], "similarity of a constant profile is undefined")


def sim(a, b):
    sa, sb = sum(a.values()), sum(b.values())
    ks = set(a) | set(b)
    f = lambda m, s, k: Fraction(m.get(k, 0), s)
    return sum(min(f(a, sa, k), f(b, sb, k)) for k in ks) / sum(max(f(a, sa, k), f(b, sb, k)) for k in ks)


def roles(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    o = objs(c)
    th = c["th"]
    got = roles_alg.apply(o, parameters={K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, roles_alg.Parameters.ROLES_THRESHOLD_PARAMETER if hasattr(roles_alg, "Parameters") else "roles_threshold_parameter": th})
    cnt = defaultdict(Counter)
    for x in c["log"]["cases"]:
        for e in x["events"]:
            cnt[e["a"]][e["r"]] += 1
    allacts = [a for r in got for a in r.activities]
    req_eq(sorted(allacts), sorted(cnt), "the roles partition the activities")
    for r in got:
        e = Counter()
        for a in r.activities:
            e += cnt[a]
        req_eq(dict(r.originator_importance), dict(e), "originators of the role %s" % r.activities)
    for r, q in itertools.combinations(got, 2):
        require(sim(r.originator_importance, q.originator_importance) <= Fraction(th) + Fraction(1, 10 ** 9), "roles %s and %s are more similar than %s but were not merged", r.activities, q.activities, th)
    # greedy merge, when unambiguous
    cur = [([a], Counter(m)) for a, m in cnt.items()]
    amb = False
    while len(cur) > 1:
        s = sorted(((sim(x[1], y[1]), i, j) for (i, x), (j, y) in itertools.combinations(enumerate(cur), 2)), reverse=True)
        if abs(float(s[0][0]) - th) < 1e-9 or (len(s) > 1 and s[0][0] - s[1][0] < Fraction(1, 10 ** 9) and s[0][0] > Fraction(th)):
            amb = True
            break
        if s[0][0] <= Fraction(th):
            break
        _, i, j = s[0]
        cur = [x for k, x in enumerate(cur) if k not in (i, j)] + [(cur[i][0] + cur[j][0], cur[i][1] + cur[j][1])]
    ctx.label("ambiguous" if amb else "greedy", "merged" if any(len(r.activities) > 1 for r in got) else "none merged")
    ctx.nontrivial(1 < len(got) < len(cnt))
    if not amb:
        req_eq(sorted(sorted(r.activities) for r in got), sorted(sorted(x[0]) for x in cur), "roles for threshold %s" % th)
    # diagnostics of groups
    l = c["log"]
    l2 = {"cases": [{"id": x["id"], "events": [dict(e) for e in x["events"]]} for x in l["cases"]]}
    grp = lambda e: ["g1", "g2"][(ord(e["r"][-1]) + (c["split"] and ord(e["a"][0]))) % 2]
    o2 = objs(dict(c, log=l2))
    if c["rep"] == "log":
        for t, x in zip(o2, l2["cases"]):
            for ev, e in zip(t, x["events"]):
                ev["group"] = grp(e)
    else:
        o2["group"] = [grp(e) for x in l2["cases"] for e in x["events"]]
    P = {K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_GROUP_KEY: "group"}
    evs = [e for x in l2["cases"] for e in x["events"]]
    G = defaultdict(Counter)
    for e in evs:
        G[grp(e)][e["r"]] += 1
    cases = [("attribute", diag.apply_from_group_attribute(o2, parameters=P), G)]
    tot = Counter(e["r"] for e in evs)
    cases.append(("roles", diag.apply_from_clustering_or_roles(o2, got, parameters=P), {str(i): {r: tot[r] for r in q.originator_importance} for i, q in enumerate(got)}))
    cl = {"x": sorted(tot)[::2], "y": sorted(tot)[1::2]}
    cl = {k: v for k, v in cl.items() if v}
    cases.append(("clusters", diag.apply_from_clustering_or_roles(o2, cl, parameters=P), {k: {r: tot[r] for r in v} for k, v in cl.items()}))
    for name, res, gs in cases:
        for g in gs:
            ing = [e for e in evs if e["r"] in gs[g]]
            f = {a: Fraction(sum(e["a"] == a for e in ing), sum(e["a"] == a for e in evs)) for a in cnt}
            s = {a: Fraction(sum(e["a"] == a for e in ing), len(ing)) for a in cnt}
            cv = {r: Fraction(n, sum(gs[g].values())) for r, n in gs[g].items()}
            same(res["group_relative_focus"][g], f, "%s: relative focus of %s" % (name, g))
            same(res["group_relative_stake"][g], s, "%s: relative stake of %s" % (name, g))
            same(res["group_coverage"][g], cv, "%s: coverage of %s" % (name, g))
            req_eq({r: dict(v) for r, v in res["group_member_contribution"][g].items()}, {r: dict(Counter(e["a"] for e in evs if e["r"] == r)) for r in gs[g]}, "%s: contribution" % name)
        req_eq({k: set(v) for k, v in res.items()}, {k: set(gs) for k in ("group_relative_focus", "group_relative_stake", "group_coverage", "group_member_contribution")}, "groups")


def network(c, ctx):
    rows = []
    for i, (cs, a, r, x, t) in enumerate(c["rows"]):
        rows.append({"case:concept:name": "c%d" % cs, "concept:name": gen.ACTS[a], "org:resource": None if r == 3 and c["null"] else "R%d" % r, "doc": None if x == 3 else "d%d" % x, "ref": None if x == 0 else "d%d" % ((x + cs) % 3), "time:timestamp": ts(t * 60), "other": ts((t * 7 % 11) * 60)})
    d = pd.DataFrame(rows)
    for k in ("time:timestamp", "other"):
        d[k] = pd.to_datetime(d[k], utc=True)
    for k in ("case:concept:name", "concept:name", "org:resource", "doc", "ref"):
        d[k] = d[k].astype("string")
    before = d.copy()
    out, inn, ns, nt, ed = c["cols"]
    sc, tk = c["sort"], c["time"]
    got = pm4py.discover_network_analysis(d, out_column=out, in_column=inn, node_column_source=ns, node_column_target=nt, edge_column=ed, edge_reference=c["ref"], performance=c["perf"], sorting_column=sc, timestamp_column=tk)
    ev = sorted(rows, key=lambda r: r[sc])
    exp = defaultdict(lambda: defaultdict(list))
    for i, e in enumerate(ev):
        if e[out] is None:
            continue
        for f in ev[i + 1:]:
            if f[inn] == e[out]:
                lab = e[ed] if c["ref"] == "_out" else f[ed]
                if e[ns] is not None and f[nt] is not None and lab is not None:
                    exp[e[ns], f[nt]][lab].append((f[tk] - e[tk]).total_seconds())
                break
    E = {k: {l: (sorted(v) if c["perf"] else len(v)) for l, v in m.items()} for k, m in exp.items()}
    ctx.nontrivial(len(E) > 1)
    ctx.label("big" if len(rows) > 20 else "small", "same" if out == inn else "different columns")
    req_eq({k: {l: (sorted(v) if c["perf"] else v) for l, v in m.items()} for k, m in got.items()}, E, "network analysis")
    require(before.equals(d), "the dataframe changed")


def profiles(c, ctx):
    ck, ak, tk, rk, sk = KEYS[c["keys"]]
    m = rpl if c["rep"] == "log" else rpp
    l = c["log"]
    l = {"cases": [{"id": x["id"], "events": [{k: v for k, v in e.items() if k != "s" or c["start"]} for e in x["events"]]} for x in l["cases"]]}
    if c["twin"]:   # another case with the same work at the same times
        l["cases"].append({"id": "twin", "events": [dict(e) for e in l["cases"][0]["events"]]})
    o = objs(dict(c, log=l))
    allt = [e["t"] for x in l["cases"] for e in x["events"]]
    t1, t2 = sorted([allt[c["w"][0] % len(allt)] + c["w"][2], allt[c["w"][1] % len(allt)] + c["w"][3]])
    T1, T2 = ts(t1), ts(t2)
    if c["text"]:
        T1, T2 = T1.strftime("%Y-%m-%d %H:%M:%S"), T2.strftime("%Y-%m-%d %H:%M:%S")
    evs = [(x["id"], e) for x in l["cases"] for e in x["events"]]
    R = sorted({e["r"] for _, e in evs})
    r, r2 = R[c["r"] % len(R)], R[c["r2"] % len(R)]
    A = sorted({e["a"] for _, e in evs})
    a = A[c["r2"] % len(A)]
    P = {K.PARAMETER_CONSTANT_RESOURCE_KEY: rk, K.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, K.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk, K.PARAMETER_CONSTANT_CASEID_KEY: ck if c["rep"] != "log" else "concept:name"}
    if c["start"]:
        P[K.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = sk
    ctx.label(c["rep"], "start" if c["start"] else "no start")
    snap = repr([(dict(t.attributes), [dict(e) for e in t]) for t in o]) if c["rep"] == "log" else o.copy()
    win = [(i, e) for i, e in evs if t1 <= e["t"] < t2 and e["r"] == r]
    ctx.nontrivial(len(win) > 1)
    W = "%s in [%d, %d)" % (r, t1, t2)
    req_eq(m.distinct_activities(o, T1, T2, r, parameters=P), len({e["a"] for _, e in win}), "distinct activities of " + W)
    req_eq(m.activity_completions(o, T1, T2, r, parameters=P), len(win), "completions of " + W)
    f = m.activity_frequency(o, T1, T2, r, a, parameters=P)
    require(close(f, sum(e["a"] == a for _, e in win) / len(win) if win else 0.0), "frequency of %s by %s: %s", a, W, f)
    done = {x["id"] for x in l["cases"] if t1 <= x["events"][-1]["t"] < t2}
    part = {i for i, e in evs if e["r"] == r}
    req_eq(m.case_completions(o, T1, T2, r, parameters=P), len(done & part), "case completions of " + W)
    require(close(m.fraction_case_completions(o, T1, T2, r, parameters=P), len(done & part) / len(done) if done else 0.0), "fraction of case completions of %s", W)
    part2 = {i for i, e in evs if e["r"] == r2}
    req_eq(m.interaction_two_resources(o, T1, T2, r, r2, parameters=P), len(done & part & part2), "interactions of %s and %s" % (W, r2))
    inw = {i for i, e in evs if t1 <= e["t"] < t2}
    mine = {i for i, e in win}
    require(close(m.social_position(o, T1, T2, r, parameters=P), len(mine) / len(inw) if inw else 0.0), "social position of %s: %s", W, m.social_position(o, T1, T2, r, parameters=P))
    # intervals of work
    iv = []
    for x in l["cases"]:
        prev = None
        for e in x["events"]:
            s = e["s"] if c["start"] else (prev if prev is not None else e["t"])
            prev = e["t"]
            iv.append((s, e["t"], e["r"], e["a"]))
    own = [v for v in iv if v[2] == r]
    load = lambda v: sum(u[0] <= v[1] and v[0] <= u[1] for u in own)
    act = [v for v in own if v[0] < t2 <= v[1]]
    num, den = sum(load(v) * (v[1] - v[0]) for v in act), sum(v[1] - v[0] for v in act)
    g = m.average_workload(o, T1, T2, r, parameters=P)
    require(close(g, num / den if den else 0.0), "average workload of %s: got %s expected %s", W, g, num / den if den else 0.0)
    ins = [v for v in own if t1 <= v[0] and v[1] <= t2]
    num, den = sum(v[1] - v[0] for v in ins if load(v) > 1), sum(v[1] - v[0] for v in ins)
    g = m.multitasking(o, T1, T2, r, parameters=P)
    require(close(g, num / den if den else 0.0), "multitasking of %s: got %s expected %s (work: %s)", W, g, num / den if den else 0.0, own)
    dur = [v[1] - v[0] for v in own if v[3] == a and t1 <= v[1] < t2]
    if dur:
        require(close(m.average_duration_activity(o, T1, T2, r, a, parameters=P), sum(dur) / len(dur)), "average duration of %s by %s", a, W)
    hit = [x for x in l["cases"] if x["id"] in part and x["events"][0]["t"] <= t2 and x["events"][-1]["t"] >= t1]
    if hit:
        g = m.average_case_duration(o, T1, T2, r, parameters=P)
        e = sum(x["events"][-1]["t"] - x["events"][0]["s" if c["start"] and c["rep"] == "df" else "t"] for x in hit) / len(hit)
        require(close(g, e), "average case duration of %s: got %s expected %s", W, g, e)
    now = repr([(dict(t.attributes), [dict(e) for e in t]) for t in o]) if c["rep"] == "log" else None
    require(now == snap if c["rep"] == "log" else snap.equals(o), "the log changed")


RES = gen.log(4, 6, 5, resources=True)
REP = st.sampled_from(["log", "df"])
COLS = st.sampled_from([("case:concept:name", "case:concept:name", "org:resource", "org:resource", "concept:name"), ("doc", "ref", "org:resource", "concept:name", "concept:name"), ("org:resource", "org:resource", "concept:name", "concept:name", "doc"), ("doc", "doc", "case:concept:name", "case:concept:name", "org:resource"), ("ref", "doc", "concept:name", "org:resource", "case:concept:name")])
ROW = st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(0, 6)).map(list)
UNITS = [
    Unit("networks", st.fixed_dictionaries({"log": RES, "rep": REP, "keys": st.booleans(), "beta": st.sampled_from([0, 0, 0.5, 0.25, 1]), "n": st.sampled_from([2, 2, 3, 4, 1])}), networks, 500, shards=2, rule="non-trivial: several cases and resources"),
    Unit("roles", st.fixed_dictionaries({"log": gen.log(6, 6, 6, resources=True), "rep": REP, "keys": st.booleans(), "th": st.sampled_from([0.65, 0.65, 0.5, 0.3, 0.9]), "split": st.booleans()}), roles, 500, shards=2, rule="non-trivial: some activities merged, several roles"),
    Unit("network", st.fixed_dictionaries({"rows": st.one_of(st.lists(ROW, min_size=1, max_size=10), st.lists(ROW, min_size=18, max_size=40)), "cols": COLS, "ref": st.sampled_from(["_out", "_in"]), "perf": st.booleans(), "sort": st.sampled_from(["time:timestamp", "time:timestamp", "other"]), "time": st.sampled_from(["time:timestamp", "other"]), "null": st.booleans()}),
         network, 400, shards=1, rule="non-trivial: several edges"),
    Unit("profiles", st.fixed_dictionaries({"log": gen.log(3, 5, 5, resources=True, start_ts=True, gap=20), "rep": REP, "keys": st.booleans(), "start": st.booleans(), "w": st.tuples(st.integers(0, 30), st.integers(0, 30), st.sampled_from([0, -1, 1, -50, -500]), st.sampled_from([500, 0, 1, -1, 50, 500])).map(list), "r": st.integers(0, 3), "r2": st.integers(0, 3), "text": st.booleans(), "twin": st.sampled_from([False] * 3 + [True])}),
         profiles, 500, shards=2, rule="non-trivial: the resource has > 1 event in the window"),
]

"""C54 clustering and anonymization"""
import math, random, warnings
from collections import Counter, defaultdict
import numpy as np
from hypothesis import strategies as st
import build
from core import Unit, require, req_eq
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event

META = dict(
    title="Clustering and differentially private publishing of event logs",
    statement="Profile clusters partition the cases of the log, unchanged and in order, and cases with the same profile share a cluster; attribute-driven clustering returns the average-linkage dendrogram over the values of the attribute under the defined variant distances. "
              "The private variant query only returns variants over known activities within the length and pruning bounds, exactly the true variant counts when the noise vanishes, and PRIPEL keeps the control flow of the query and draws attributes from the domains of the log, leaving the original log as it was.",
    over=["inputs"], quant="generated logs with repeated variants and text, integer, decimal and boolean attributes; any privacy budget, length and pruning bounds, clusterers",
    why="tests run each of them once and only look at the type of the result",
    oracle="partition and profile equality, own implementation of the variant distances with scipy linkage, own zero-noise prefix tree, domain bounds",
    limits="The privacy guarantee itself (the distribution of the noise) is not judged; distances with ties in the dual matching are skipped; activities containing the separators of the prefix tree are out of domain.",
    files=["pm4py/algo/clustering", "pm4py/algo/anonymization", "pm4py/privacy.py", "pm4py/analysis.py"],
    mech=[("apply", "pm4py/algo/clustering/profiles/variants/sklearn_profiles.py"), ("leven_dist", "pm4py/algo/clustering/trace_attribute_driven/leven_dist/leven_dist_calc.py"), ("privatize_tracevariants", "pm4py/algo/anonymization/trace_variant_query/variants/sacofa.py"), ("anonymize", "pm4py/algo/anonymization/pripel/util/AttributeAnonymizer.py")])
warnings.simplefilter("ignore")
ACT = ["a", "b", "c d", "é"]
EV = st.fixed_dictionaries({"a": st.integers(0, 3), "dt": st.sampled_from([1, 5, 60, 3600]), "g": st.sampled_from(["u", "v", "w x"]), "n": st.integers(-5, 40), "x": st.sampled_from([0.5, 2.25, 10.0]), "f": st.booleans()})


@st.composite
def log_st(draw, mn=2, mx=7, ml=5):
    base = draw(st.lists(st.lists(EV, min_size=1, max_size=ml), min_size=1, max_size=4))
    return [{"v": draw(st.integers(0, len(base) - 1)), "t": draw(st.integers(0, 5000)), "k": draw(st.integers(0, 3))} for _ in range(draw(st.integers(mn, mx)))], base


def mk(spec, attrs=("g", "n", "x", "f")):
    cases, base = spec
    log = EventLog()
    for i, c in enumerate(cases):
        t = Trace(attributes={"concept:name": "case %d" % i, "kind": "kind %d" % c["k"]})
        now = c["t"]
        for e in base[c["v"]]:
            now += e["dt"]
            ev = {"concept:name": ACT[e["a"]], "time:timestamp": build.ts(now)}
            for k in attrs:
                ev[k] = e[k]
            t.append(Event(ev))
        log.append(t)
    return log


def dump(log):
    return [(dict(t.attributes), [dict(e) for e in t]) for t in log]


def names(t):
    return tuple(e["concept:name"] for e in t)


def variants(obj):
    if isinstance(obj, EventLog):
        return Counter(names(t) for t in obj)
    r = defaultdict(list)
    if not len(obj):
        # (only cases without events)
        return Counter()
    for c, a in zip(obj["case:concept:name"], obj["concept:name"]):
        r[c].append(a)
    return Counter(map(tuple, r.values()))


def check_profiles(case, ctx):
    from sklearn.cluster import KMeans, AgglomerativeClustering, DBSCAN
    log = mk(case["log"], attrs=("g", "n") if case["attrs"] else ())
    n = len(log)
    before = dump(log)
    k = case["k"]
    cl = {"default": None, "kmeans": KMeans(n_clusters=min(k, n), random_state=0, n_init="auto"), "agg": AgglomerativeClustering(n_clusters=min(k, n)), "dbscan": DBSCAN(eps=case["eps"], min_samples=2)}[case["alg"]]
    obj = pm4py.convert_to_dataframe(log) if case["df"] else log
    out = list(pm4py.cluster_log(obj, sklearn_clusterer=cl))
    if not case["df"]:
        req_eq(dump(log), before, "the log is left as it was")
    where, seen = {}, []
    for i, c in enumerate(out):
        req_eq(type(c).__name__, "EventLog", "type of a cluster")
        ids = [t.attributes["concept:name"] for t in c]
        pos = [int(x.split()[1]) for x in ids]
        req_eq(pos, sorted(pos), "order inside a cluster")
        for t, p in zip(c, pos):
            require(p not in where, "case %s twice", p)
            where[p] = i
            if case["df"]:
                req_eq(names(t), names(log[p]), "trace of case %d" % p)
            else:
                req_eq((dict(t.attributes), [dict(e) for e in t]), before[p], "case %d" % p)
    req_eq(sorted(where), list(range(n)), "cases of the clusters")
    if case["alg"] in ("default", "kmeans", "agg"):
        require(len(out) <= (2 if case["alg"] == "default" else k), "%d clusters", len(out))
    groups = defaultdict(set)
    for p in range(n):
        # the profile only depends on the attributes of the events (no attribute of the case differs)
        groups[(case["log"][0][p]["v"], case["log"][0][p]["k"])].add(p)
    if case["alg"] in ("default", "kmeans"):
        for g in groups.values():
            req_eq(len({where[p] for p in g}), 1, "clusters of cases with the same profile %s" % sorted(g))
    if len({i for i in where.values()}) > 1:
        ctx.nontrivial()


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b):
            cur.append(min(prev[j + 1] + 1, cur[j] + 1, prev[j] + (x != y)))
        prev = cur
    return prev[-1]


def cosd(a, b):
    na, nb = math.sqrt(sum(v * v for v in a.values())), math.sqrt(sum(v * v for v in b.values()))
    if not na or not nb:
        return 1.0
    return 1 - sum(v * b.get(k, 0) for k, v in a.items()) / (na * nb)


def pairs(w):
    return Counter(zip(w, w[1:]))


class Tie(Exception):
    pass


def avg(v1, v2, d):
    tot = sum(v1.values()) * sum(v2.values())
    return sum(d(a, b) * n * m for a, n in v1.items() for b, m in v2.items()) / tot


def dual(v1, v2, d):
    """weighted distance of every variant to its closest counterpart, in both directions"""
    if set(v1) == set(v2):
        return 0.0

    def closest(a, others):
        ds = sorted((d(a, b), m) for b, m in others.items())
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-7 and ds[1][1] != ds[0][1]:
            raise Tie
        return ds[0]
    big, small = (v1, v2) if len(v1) >= len(v2) else (v2, v1)
    num = den = 0
    hit = set()
    for a, n in big.items():
        x, m = closest(a, small)
        if x <= 1e-8:
            near = [b for b in small if d(a, b) <= 1e-8]
            if len(near) > 1:
                raise Tie
            hit.add(near[0])
            den += 2 * n * m
        else:
            num += x * n * m
            den += n * m
    for b, m in small.items():
        if b not in hit:
            x, n = closest(b, big)
            num += x * n * m
            den += n * m
    return num / den


def leaves(t):
    if not t["children"]:
        return [t["name"]]
    return [x for c in t["children"] for x in leaves(c)]


def splits(t, out):
    if t["children"]:
        out.add(frozenset(frozenset(leaves(c)) for c in t["children"]))
        for c in t["children"]:
            splits(c, out)
    return out


def check_driven(case, ctx):
    from pm4py.algo.clustering.trace_attribute_driven import algorithm as A
    from scipy.cluster.hierarchy import linkage
    log = mk(case["log"])
    vals = []
    for t in log:
        if t.attributes["kind"] not in vals:
            vals.append(t.attributes["kind"])
    if len(vals) < 2:
        return
    V = {v: Counter(names(t) for t in log if t.attributes["kind"] == v) for v in vals}
    L = lambda a, b: lev(a, b) / max(len(a), len(b))
    C = lambda a, b: cosd(Counter(a), Counter(b))
    S = lambda a, b: cosd(pairs(a), pairs(b))

    def tot(vs, f):
        c = Counter()
        for w, n in vs.items():
            for k, m in f(w).items():
                c[k] += n * m
        return c
    name = case["variant"]
    var = getattr(A, name)

    def dist(v1, v2):
        if name == "VARIANT_AVG_LEVEN":
            return avg(v1, v2, L)
        if name == "VARIANT_DMM_LEVEN":
            return dual(v1, v2, L)
        if name == "VARIANT_AVG_VEC":
            return (avg(v1, v2, C) + avg(v1, v2, S)) / 2
        if name == "VARIANT_DMM_VEC":
            return (dual(v1, v2, C) + dual(v1, v2, S)) / 2
        return (cosd(tot(v1, Counter), tot(v2, Counter)) + cosd(tot(v1, pairs), tot(v2, pairs))) / 2
    before = dump(log)
    tree, leaf = A.apply(log, "kind", variant=var)
    req_eq(dump(log), before, "the log is left as it was")
    req_eq(sorted(leaf), sorted(vals), "leaves")
    req_eq(sorted(leaves(tree)), sorted(vals), "leaves of the tree")
    try:
        mat = [[dist(V[a], V[b]) if a != b else 0 for b in vals] for a in vals]
    except Tie:
        return ctx.label("tie")
    subs = [EventLog([t for t in log if t.attributes["kind"] == v]) for v in vals]
    y = var(subs, 1, 0.5)
    exp = [mat[i][j] for i in range(len(vals)) for j in range(i + 1, len(vals))]
    require(len(y) == len(exp) and all(abs(a - b) < 1e-6 for a, b in zip(y, exp)), "distances %s expected %s", list(y), exp)
    ctx.nontrivial()
    # same merges as the average linkage, computed here
    D = {(frozenset([a]), frozenset([b])): mat[i][j] for i, a in enumerate(vals) for j, b in enumerate(vals) if i != j}
    cur, exp = {frozenset([v]) for v in vals}, set()
    while len(cur) > 1:
        cand = sorted(((sum(D[frozenset([x]), frozenset([z])] for x in a for z in b) / len(a) / len(b), sorted(a), sorted(b)) for a in cur for b in cur if sorted(a) < sorted(b)))
        if len(cand) > 1 and cand[1][0] - cand[0][0] < 1e-6:
            return ctx.label("equal distances")
        a, b = frozenset(cand[0][1]), frozenset(cand[0][2])
        exp.add(frozenset([a, b]))
        cur = (cur - {a, b}) | {a | b}
    req_eq(splits(tree, set()), exp, "merges of the dendrogram")


def check_query(case, ctx):
    mechanisms()
    from pm4py.algo.anonymization.trace_variant_query import algorithm as Q
    log = mk(case["log"])
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    k, p = case["k"], case["p"]
    true = variants(log)
    zero = case["eps"] is None
    before = dump(log)
    obj = pm4py.convert_to_dataframe(log) if case["df"] else log
    pre = Counter()
    for w, n in true.items():
        for i in range(1, len(w) + 1):
            pre[w[:i]] += n
    exp = Counter()
    if case["variant"] == "LAPLACE":
        for w, n in true.items():
            if len(w) + 1 <= k and n >= p:
                exp[w] = n
    else:
        for w, n in true.items():
            # prefixes below the pruning bound are not extended; the last level is neither pruned nor extended
            ok = all(pre[w[:i]] >= p for i in range(1, min(len(w), k - 1) + 1))
            if ok:
                exp[w[:k]] += n
    try:
        out = Q.apply(obj, variant=getattr(Q.Variants, case["variant"]), parameters={"epsilon": 60.0 if zero else case["eps"], "k": k, "p": p, "show_progress_bar": False})
    except ValueError as e:
        require("empty" in str(e), "unexpected %r", e)
        require(not zero or not exp, "empty although %s is expected", exp)
        return ctx.label("empty")
    req_eq(dump(log), before, "the log is left as it was")
    got = variants(out)
    if zero:
        req_eq(got, exp, "variants without noise")
        ctx.nontrivial()
    known = {a for w in true for a in w}
    for w, n in got.items():
        require(len(w) <= k, "%s is longer than %d", w, k)
        require(set(w) <= known, "unknown activity in %s", w)
        if case["variant"] == "LAPLACE":
            require(n >= p, "%s occurs %d times, pruning bound %d", w, n, p)
            require(len(w) < k, "%s of length %d, limit %d", w, len(w), k)
    if not zero and got != exp:
        ctx.nontrivial()


def mechanisms():
    """the installed diffprivlib cannot be imported as a whole (its models need another scikit-learn): load its mechanisms"""
    import sys, types, importlib.util
    try:
        import diffprivlib.mechanisms
    except ImportError:
        for m in [m for m in sys.modules if m.split(".")[0] == "diffprivlib"]:
            del sys.modules[m]
        spec = importlib.util.find_spec("diffprivlib")
        pk = types.ModuleType("diffprivlib")
        pk.__spec__ = spec
        pk.__path__ = list(spec.submodule_search_locations)
        sys.modules["diffprivlib"] = pk
        import diffprivlib.mechanisms


def check_pripel(case, ctx):
    mechanisms()
    from pm4py.algo.anonymization.pripel import algorithm as P
    log = mk(case["log"])
    if max(len(t) for t in log) < 2:
        return
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    acts = sorted({e["concept:name"] for t in log for e in t})
    q = EventLog()
    for i, w in enumerate(case["query"]):
        t = Trace(attributes={"concept:name": i})
        for a in w:
            t.append(Event({"concept:name": acts[a % len(acts)], "time:timestamp": build.ts(0)}))
        q.append(t)
    expv = [names(t) for t in q]
    before = dump(log)
    block = ["g"] if case["block"] else None
    obj = pm4py.convert_to_dataframe(log) if case["df"] else log
    out = P.apply(obj, pm4py.convert_to_dataframe(q) if case["qdf"] else q, case["eps"], parameters={"blocklist": block} if block else {})
    req_eq(dump(log), before, "the log is left as it was")
    rows = defaultdict(list)
    for r in out.to_dict("records"):
        rows[r["case:concept:name"]].append(r)
    req_eq([tuple(e["concept:name"] for e in rows[str(i)]) for i in range(len(expv))], expv, "control flow of the published log")
    req_eq(len(rows), len(expv), "number of cases")
    ev = [e for t in log for e in t]
    ts = [e["time:timestamp"] for e in ev]
    for c in rows.values():
        for e in c:
            require(set(e) <= {"concept:name", "time:timestamp", "case:concept:name", "g", "n", "x", "f"}, "columns %s", sorted(e))
            if block:
                require("g" not in e, "the blocked attribute is published")
            else:
                require(e["g"] in {x["g"] for x in ev}, "value %r", e["g"])
            require(min(x["n"] for x in ev) <= e["n"] <= max(x["n"] for x in ev) and e["n"] == int(e["n"]), "value %r", e["n"])
            require(min(x["x"] for x in ev) - 1e-9 <= e["x"] <= max(x["x"] for x in ev) + 1e-9, "value %r", e["x"])
            require(e["f"] in (True, False), "value %r", e["f"])
        for a, b in zip(c, c[1:]):
            require(a["time:timestamp"] <= b["time:timestamp"], "times in a case go back: %s, %s", a["time:timestamp"], b["time:timestamp"])
    if any(len(w) > 1 for w in expv):
        ctx.nontrivial()


UNITS = [
    Unit("profiles", st.fixed_dictionaries({"log": log_st(), "attrs": st.booleans(), "df": st.booleans(), "k": st.integers(1, 4), "eps": st.sampled_from([0.1, 1.0, 3.0]), "alg": st.sampled_from(["default", "kmeans", "agg", "dbscan"])}), check_profiles, quick=200, rule="at least two clusters"),
    Unit("driven", st.fixed_dictionaries({"log": log_st(mn=3, mx=9), "variant": st.sampled_from(["VARIANT_DMM_LEVEN", "VARIANT_AVG_LEVEN", "VARIANT_DMM_VEC", "VARIANT_AVG_VEC", "DFG"])}), check_driven, quick=200, rule="distances compared"),
    Unit("query", st.fixed_dictionaries({"log": log_st(ml=4), "variant": st.sampled_from(["LAPLACE", "SACOFA"]), "k": st.sampled_from([1, 2, 3, 4, 5, 5, 6]), "p": st.sampled_from([1, 1, 1, 2, 2, 3]), "eps": st.sampled_from([None, None, 0.3, 1.0, 3]), "df": st.booleans(), "seed": st.integers(0, 999)}), check_query, quick=300, rule="zero noise, or the noise changed the counts"),
    Unit("pripel", st.fixed_dictionaries({"log": log_st(), "query": st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=4), min_size=1, max_size=5), "eps": st.sampled_from([0.1, 1.0, 10.0]), "block": st.booleans(), "df": st.booleans(), "qdf": st.booleans(), "seed": st.integers(0, 999)}), check_pripel, quick=150, rule="a published case with two events"),
]

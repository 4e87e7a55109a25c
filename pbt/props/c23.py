"""C23 heuristics miner"""
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref
from core import Unit, require, req_eq
import pm4py
from props.c21 import some_log

META = dict(
    title="The heuristics miner returns the dependency net that defines it",
    statement="For every log and every choice of thresholds, the heuristics net has exactly the nodes, edges, dependency values, frequencies and AND bindings that the definition of the (classic or plus-plus) heuristics miner gives, the same from an event log and from a dataframe. "
              "The Petri net converted from a heuristics net has one visible transition per node, and replays exactly the sequences that the input and output bindings of the heuristics net allow.",
    over=["inputs"], quant="generated logs up to 6 activities, thresholds over their ranges, overlapping intervals for plus-plus",
    why="tests run the miner on the running example with default thresholds and check that a net comes out",
    files=["pm4py/algo/discovery/heuristics", "pm4py/objects/heuristics_net", "pm4py/objects/conversion/heuristics_net", "pm4py/discovery.py"],
    mech=[("classic", "pm4py/algo/discovery/heuristics/variants/classic.py"), ("plus-plus", "pm4py/algo/discovery/heuristics/variants/plusplus.py"), ("AND measures, length-two loops", "pm4py/objects/heuristics_net/node.py"), ("Petri net", "pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py")])


def dump(hn):
    nodes = {}
    for nm, x in hn.nodes.items():
        out = {o.node_name: [(round(float(e.dependency_value), 9), e.dfg_value) for e in es] for o, es in x.output_connections.items()}
        inn = {o.node_name: [(round(float(e.dependency_value), 9), e.dfg_value) for e in es] for o, es in x.input_connections.items()}
        rv = {o.node_name: [round(float(e.repr_value), 6) for e in es] for o, es in x.output_connections.items()}
        am = lambda d: {(a, b): round(float(v), 9) for a, r in d.items() for b, v in r.items()}
        nodes[nm] = {"occ": x.node_occ, "out": out, "in": inn, "repr": rv, "and_in": am(x.and_measures_in), "and_out": am(x.and_measures_out)}
    return nodes


def and_ref(d, name, others, out, th, strict, conc=None):
    others = sorted(others)
    r = {}
    for i, a in enumerate(others):
        for b in others[i + 1:]:
            fa, fb = (d.get((name, a), 0), d.get((name, b), 0)) if out else (d.get((a, name), 0), d.get((b, name), 0))
            v = d.get((a, b), 0) + d.get((b, a), 0)
            v = (v + conc.get((a, b), 0)) / (fa + fb) if conc is not None else v / (fa + fb + 1)
            if v > th or (not strict and v == th):
                r[(a, b)] = round(v, 9)
    return r


def clean(d, noise):
    if noise <= 0:
        return dict(d)
    mx = {}
    for (a, b), v in d.items():
        mx[a], mx[b] = max(mx.get(a, 0), v), max(mx.get(b, 0), v)
    return {k: v for k, v in d.items() if v >= min(mx[k[0]] * noise, mx[k[1]] * noise)}


def classic_ref(occ, d, tri, p, perf=None):
    d = clean(d, p["noise"])
    dep = {(a, b): v / (v + 1) if a == b else (v - d.get((b, a), 0)) / (v + d.get((b, a), 0) + 1) for (a, b), v in d.items()}
    big = {a for a in occ if occ[a] >= p["act"]}
    edges = {k: dep[k] for k in d if k[0] in big and k[1] in big and d[k] >= p["dfg"] and dep[k] >= p["dep"]}
    names = {a for k in edges for a in k}
    base_out = {a: {y for x, y in edges if x == a} for a in names}
    base_in = {a: {x for x, y in edges if y == a} for a in names}
    extra = set()
    if tri is not None:
        for a in sorted(names):
            for b in sorted({y for x, y, z in tri if x == z == a and y != a}):
                v = tri.get((a, b, a), 0) + tri.get((b, a, b), 0)
                if v / (v + 1) >= p["l2"] and d.get((a, b), 0) >= p["dfg"] and a in big and b in big and (a, b) in d and not (dep[(a, b)] >= p["dep"] or dep.get((b, a), -9) >= p["dep"]):
                    extra |= {(a, b), (b, a)}
    allnames = names | {a for k in extra for a in k}
    if not allnames:
        allnames = set(occ)
    w = lambda k: d.get(k, 0)
    pv = lambda k: round(float((perf if perf is not None else d).get(k, 0)) if k in d else 0.0, 6)
    nodes = {}
    for a in allnames:
        out = {b: [(round(edges[(a, b)], 9), w((a, b)))] for b in base_out.get(a, ())}
        inn = {b: [(round(edges[(b, a)], 9), w((b, a)))] for b in base_in.get(a, ())}
        for x, y in extra:
            if x == a:
                out.setdefault(y, []).append((0.0, w((a, y))))
            if y == a:
                inn.setdefault(x, []).append((0.0, w((x, a))))
        nodes[a] = {"occ": occ[a], "out": out, "in": inn, "repr": {b: [pv((a, b))] for b in out},
                    "and_out": and_ref(d, a, base_out.get(a, ()), True, p["and"], False), "and_in": and_ref(d, a, base_in.get(a, ()), False, p["and"], False)}
    return nodes, len(extra) > 0


def compare(hn, exp, what):
    got = dump(hn)
    req_eq(sorted(got), sorted(exp), what + ": nodes")
    for a in sorted(exp):
        for k in ("occ", "out", "in", "and_in", "and_out", "repr"):
            req_eq(got[a][k], exp[a][k], "%s: %s of node %s" % (what, k, a))


def check_classic(case, ctx):
    from pm4py.algo.discovery.heuristics.variants import classic
    traces = [tuple(t) for t in case["traces"] if t]
    if not traces:
        return
    p = case["p"]
    occ = Counter(a for t in traces for a in t)
    d = Counter(q for t in traces for q in zip(t, t[1:]))
    tri = Counter(q for t in traces for q in zip(t, t[1:], t[2:]))
    sa, ea = Counter(t[0] for t in traces), Counter(t[-1] for t in traces)
    exp, l2 = classic_ref(occ, d, tri, p)
    P = classic.Parameters
    par = {P.DEPENDENCY_THRESH: p["dep"], P.AND_MEASURE_THRESH: p["and"], P.MIN_ACT_COUNT: p["act"], P.MIN_DFG_OCCURRENCES: p["dfg"], P.DFG_PRE_CLEANING_NOISE_THRESH: p["noise"], P.LOOP_LENGTH_TWO_THRESH: p["l2"]}
    el, df = build.variants_log(traces), build.variants_df(traces)
    for nm, hn in (("event log", classic.apply_heu(el, parameters=dict(par))), ("dataframe", classic.apply_heu_pandas(df, parameters=dict(par)))):
        compare(hn, exp, nm)
        req_eq((dict(hn.start_activities[0]), dict(hn.end_activities[0])), (dict(sa), dict(ea)), nm + ": start and end activities")
    expd, _ = classic_ref(occ, d, None, p)
    compare(classic.apply_heu_dfg(dict(d), activities=list(occ), activities_occurrences=dict(occ), start_activities=dict(sa), end_activities=dict(ea), parameters=dict(par)), expd, "graph")
    if p["noise"] == 0.05:
        for nm, o in (("event log", el), ("dataframe", df)):
            hn = pm4py.discover_heuristics_net(o, dependency_threshold=p["dep"], and_threshold=p["and"], loop_two_threshold=p["l2"], min_act_count=p["act"], min_dfg_occurrences=p["dfg"])
            compare(hn, exp, "discover_heuristics_net on the " + nm)
        hn = pm4py.discover_heuristics_net(df, dependency_threshold=p["dep"], and_threshold=p["and"], loop_two_threshold=p["l2"], min_act_count=p["act"], min_dfg_occurrences=p["dfg"], decoration="performance")
        pd_ = pm4py.discover_performance_dfg(df)[0]
        exq, _ = classic_ref(occ, d, tri, p, perf={k: v["mean"] if isinstance(v, dict) else v for k, v in pd_.items()})
        compare(hn, exq, "with performance decoration")
    ctx.label("two-loop" if l2 else "no two-loop")
    ctx.label("AND" if any(x["and_in"] or x["and_out"] for x in exp.values()) else "no AND")
    ctx.nontrivial(0 < sum(len(x["out"]) for x in exp.values()) < len(d) or l2)


def check_plus(case, ctx):
    from pm4py.algo.discovery.heuristics.variants import plusplus as pp
    p, log = case["p"], case["log"]
    srt = {"cases": [{"id": c["id"], "events": sorted(c["events"], key=lambda e: (e["s"], e["t"]))} for c in log["cases"] if c["events"]]}
    if not srt["cases"]:
        return
    trs = [c["events"] for c in srt["cases"]]
    occ, d, conc = Counter(e["a"] for t in trs for e in t), Counter(), Counter()
    for t in trs:
        for i, e in enumerate(t):
            fol = [f for f in t[i + 1:] if f["s"] >= e["t"]]
            if fol:
                d[(e["a"], fol[0]["a"])] += 1
            for f in t[i + 1:]:
                conc[tuple(sorted((e["a"], f["a"])))] += min(e["t"], f["t"]) - max(e["s"], f["s"]) > 0 if case["strict"] else min(e["t"], f["t"]) >= max(e["s"], f["s"])
    occ2 = {a: n for a, n in occ.items() if n >= p["act"]}
    d2 = {k: v for k, v in d.items() if v >= p["dfg"] and k[0] in occ2 and k[1] in occ2}
    dep = {(a, b): (v - d2.get((b, a), 0)) / (v + d2.get((b, a), 0) + conc.get(tuple(sorted((a, b))), 0)) for (a, b), v in d2.items()}
    edges = {k: v for k, v in dep.items() if v > p["dep"]}
    exp = {}
    for a in occ2:
        O, I = {y for x, y in edges if x == a}, {x for x, y in edges if y == a}
        exp[a] = {"occ": occ2[a], "out": {b: [(round(edges[(a, b)], 9), d2[(a, b)])] for b in O}, "in": {b: [(round(edges[(b, a)], 9), d2[(b, a)])] for b in I},
                  "repr": {b: [float(d2[(a, b)])] for b in O}, "and_out": and_ref(d2, a, O, True, p["and"], True, conc), "and_in": and_ref(d2, a, I, False, p["and"], True, conc)}
    P = pp.Parameters
    par = {P.DEPENDENCY_THRESH: p["dep"], P.AND_MEASURE_THRESH: p["and"], P.MIN_ACT_COUNT: p["act"], P.MIN_DFG_OCCURRENCES: p["dfg"], P.START_TIMESTAMP_KEY: "begin", "strict": case["strict"]}
    S = lambda x, k: Counter(t[k]["a"] for t in x if t[k]["a"] in occ2)
    for nm, hn in (("event log", pp.apply_heu(build.elog(srt, sk="begin"), parameters=dict(par))), ("dataframe", pp.apply_heu_pandas(build.df(srt, sk="begin"), parameters=dict(par)))):
        compare(hn, exp, "plus-plus, " + nm)
        req_eq(dict(hn.start_activities[0]), dict(S(trs, 0)), nm + ": start activities")
    ctx.nontrivial(any(x["and_in"] or x["and_out"] for x in exp.values()))


def cliques(pairs):
    adj = {}
    for a, b in pairs:
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    out = []

    def bk(R, P, X):
        if not P and not X:
            out.append(frozenset(R))
        for v in sorted(P):
            bk(R | {v}, P & adj[v], X & adj[v])
            P = P - {v}
            X = X | {v}
    bk(set(), set(adj), set())
    return [c for c in out if c]


def bindings(conn, ands):
    cl = cliques(ands)
    in_cl = {a for c in cl for a in c}
    return [frozenset([a]) for a in conn if a not in in_cl] + cl


def cnet_lang(nodes, starts, ends, L, cap=40000):
    """sequences of the binding semantics: obligations are a multiset of (from, to); the start obligation is consumed by the first start activity"""
    ib = {a: [frozenset((x, a) for x in b) for b in bindings(x["in"], x["and_in"])] + ([frozenset([("", a)])] if a in starts else []) for a, x in nodes.items()}
    ob = {a: [frozenset((a, y) for y in b) for b in bindings(x["out"], x["and_out"])] + ([frozenset([("", "")])] if a in ends else []) for a, x in nodes.items()}
    END = ("", "")
    front = {((), (("start", ""),))}
    res, seen = set(), 0
    while front:
        nxt = set()
        for w, ob_t in front:
            m = Counter(ob_t)
            if m == Counter([END]):
                res.add(w)
            if len(w) == L:
                continue
            for a in nodes:
                for i in (ib[a] or [frozenset()]):
                    need = [("start", "") if k[0] == "" else k for k in i]
                    if any(m[k] < 1 for k in need):
                        continue
                    for o in (ob[a] or [frozenset()]):
                        n = m - Counter(need)
                        n.update(o)
                        nxt.add((w + (a,), tuple(sorted(n.elements()))))
        seen += len(nxt)
        if seen > cap:
            raise ref.Overflow()
        front = nxt
    return res


def check_petri(case, ctx):
    from pm4py.algo.discovery.heuristics.variants import classic
    from pm4py.objects.conversion.heuristics_net import converter
    traces = [tuple(t) for t in case["traces"] if t]
    if not traces:
        return
    p = case["p"]
    P = classic.Parameters
    par = {P.DEPENDENCY_THRESH: p["dep"], P.AND_MEASURE_THRESH: p["and"], P.MIN_ACT_COUNT: p["act"], P.MIN_DFG_OCCURRENCES: p["dfg"], P.DFG_PRE_CLEANING_NOISE_THRESH: p["noise"], P.LOOP_LENGTH_TWO_THRESH: p["l2"]}
    log = build.variants_log(traces)
    hn = classic.apply_heu(log, parameters=dict(par))
    nodes = dump(hn)
    starts, ends = {t[0] for t in traces}, {t[-1] for t in traces}
    k = case["via"]
    if k == 0:
        net, im, fm = converter.apply(hn)
    elif k == 1:
        net, im, fm = classic.apply(log, parameters=dict(par))
    else:
        net, im, fm = classic.apply_pandas(build.variants_df(traces), parameters=dict(par))
    req_eq(sorted(t.label for t in net.transitions if t.label is not None), sorted(nodes), "visible transitions")
    require(len(im) == 1 == sum(im.values()) and len(fm) == 1 == sum(fm.values()) and set(im) <= net.places and set(fm) <= net.places, "markings %s %s", im, fm)
    ctx.label("AND" if any(x["and_in"] or x["and_out"] for x in nodes.values()) else "no AND")
    loose = any((not x["in"] and a not in starts) or (not x["out"] and a not in ends) for a, x in nodes.items())
    ctx.label("dangling" if loose else "connected")
    L = 6
    exp = cnet_lang(nodes, starts, ends, L)
    got = ref.rnet_lang(ref.RNet(net, im, fm), L)
    require(got == exp, "Petri net of %s: missing %s extra %s", {a: (sorted(x["out"]), sorted(x["and_in"]), sorted(x["and_out"])) for a, x in nodes.items()}, sorted(exp - got)[:3], sorted(got - exp)[:3])
    ctx.nontrivial(len(exp) > 1 and any(len(x["out"]) > 1 for x in nodes.values()))


TH = st.fixed_dictionaries({"dep": st.sampled_from([0.0, 0.3, 0.5, 0.5, 0.66, 0.75, 0.9, -0.5]), "and": st.sampled_from([0.65, 0.65, 0.3, 0.5, 1.0, 0.0, 5.0]), "act": st.sampled_from([1, 1, 1, 2, 4]),
                            "dfg": st.sampled_from([1, 1, 1, 2, 3]), "noise": st.sampled_from([0.05, 0.05, 0.0, 0.3, 0.6, 1.0]), "l2": st.sampled_from([0.5, 0.5, 0.7, 0.0, 0.9])})


@st.composite
def l2_log(draw):
    """logs with alternations, so that length-two loops appear"""
    out = draw(some_log(5))
    for _ in range(draw(st.integers(0, 3))):
        a, b = draw(st.sampled_from(["ab", "ba", "bc", "cd"]))
        n = draw(st.integers(0, 3))
        out.append(tuple(draw(st.sampled_from([(), ("a",), ("e",)]))) + (a, b) * n + (a,) * draw(st.integers(0, 1)) + tuple(draw(st.sampled_from([(), ("d",)]))))
    return [list(t) for t in out]


UNITS = [
    Unit("classic", st.fixed_dictionaries({"traces": l2_log(), "p": TH}), check_classic, quick=500, shards=3, rule="some edges are dropped or a length-two loop is added"),
    Unit("plusplus", st.fixed_dictionaries({"log": gen.log(max_len=6, start_ts=True, gap=6), "p": TH.map(lambda p: {**p, "dep": max(p["dep"], 0.0)}), "strict": st.booleans()}), check_plus, quick=300, shards=2, rule="an AND binding"),
    Unit("petri", st.fixed_dictionaries({"traces": l2_log(), "p": TH, "via": st.integers(0, 2)}), check_petri, quick=600, shards=3, rule="a choice and more than one sequence"),
]

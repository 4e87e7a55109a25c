"""C35 precision, generalization, simplicity"""
import heapq, math
from collections import Counter
from hypothesis import strategies as st
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py
from props.c34 import visible

META = dict(
    title="Precision, generalization and simplicity equal their definitions",
    statement="For every log and accepting net, alignment-based precision is one minus the share of escaping edges over the states reached by the optimal prefix alignments, and on nets without invisible or duplicate transitions token-based precision and generalization are exactly those of the token game; directly-follows precision is exactly that of the graph. "
              "Simplicity metrics are those of the net's structure and state space. "
              "The values do not depend on the representation or order of the log, on renaming, or on repeating the whole log (precision), and lie in [0, 1] where specified.",
    over=["inputs"], quant="generated logs (walks with noise) against nets from process trees (silent steps, loops, duplicate labels), weighted and arbitrary nets, and directly-follows graphs",
    why="tests call each metric on one log/model pair and compare with nothing",
    files=["pm4py/algo/evaluation/precision", "pm4py/algo/evaluation/generalization", "pm4py/algo/evaluation/simplicity", "pm4py/algo/evaluation/algorithm.py", "pm4py/conformance.py"],
    mech=[("align etconformance", "pm4py/algo/evaluation/precision/variants/align_etconformance.py"), ("prefix search", "pm4py/algo/evaluation/precision/utils.py"), ("token etconformance", "pm4py/algo/evaluation/precision/variants/etconformance_token.py"), ("generalization", "pm4py/algo/evaluation/generalization/variants/token_based.py")],
    limits="Optimal prefix alignments use as few silent steps as possible (the default cost function). Token-based precision on nets with silent transitions depends on the replay heuristic: there it is only compared between representations and bounded.")


def tau_closure(r, ms):
    seen, todo = set(ms), list(ms)
    while todo:
        m = todo.pop()
        for k in r.enabled(m):
            if r.trans[k][0] is None:
                n = r.fire(m, k)
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
                    if len(seen) > 3000:
                        raise ref.Overflow()
    return seen


def activated(r, ms):
    return {r.trans[k][0] for m in tau_closure(r, ms) for k in r.enabled(m)} - {None}


def prefix_markings(r, w):
    """markings reached by replaying w with a minimum number of silent steps"""
    heap, n, best, out, closed = [(0, 0, r.im)], len(w), None, set(), set()
    while heap:
        c, i, m = heapq.heappop(heap)
        if best is not None and c > best:
            break
        if (i, m) in closed:
            continue
        closed.add((i, m))
        if len(closed) > 5000:
            raise ref.Overflow()
        if i == n:
            best = c
            out.add(m)
            continue
        for k in r.enabled(m):
            l = r.trans[k][0]
            if l is None:
                heapq.heappush(heap, (c + 1, i, r.fire(m, k)))
            elif l == w[i]:
                heapq.heappush(heap, (c, i + 1, r.fire(m, k)))
    return out


def prefixes(traces):
    nxt, cnt = {}, Counter()
    for t in traces:
        for i in range(1, len(t)):
            nxt.setdefault(t[:i], set()).add(t[i])
            cnt[t[:i]] += 1
    return nxt, cnt


def align_precision(r, traces):
    nxt, cnt = prefixes(traces)
    ini = activated(r, [r.im])
    at = len(traces) * len(ini)
    ee = len(traces) * len(ini - {t[0] for t in traces if t})
    for w in nxt:
        ms = prefix_markings(r, w)
        if ms:
            a = activated(r, ms)
            at += len(a) * cnt[w]
            ee += len(a - nxt[w]) * cnt[w]
    return 1 - ee / at if at else 1.0


@st.composite
def align_st(draw):
    s = draw(nets.tree_net(depth=3, max_leaves=6, mutations=draw(st.sampled_from([0, 0, 1, 2]))))
    return {"net": s, "traces": draw(nets.walks(s, n=(1, 6), labels=["A", "B", "C", "D", "zz"])), "k": draw(st.integers(2, 3)), "mp": False}


def check_align(case, ctx):
    net, im, fm, ps, ts = build.net(case["net"])
    r = ref.RNet(net, im, fm)
    reach = r.reach(cap=1500, bound=20)[0]
    traces = [tuple(t) for t in case["traces"]]
    if r.fm not in reach:
        try:
            pm4py.precision_alignments(build.variants_log(traces), net, im, fm)
        except Exception as e:
            require("easy sound" in str(e), "unexpected error %r", e)
            ctx.label("not easy sound")
            return
        require(False, "alignment-based precision on a net whose final marking is not reachable")
    e = align_precision(r, traces)
    log = build.variants_log(traces)
    got = pm4py.precision_alignments(log, net, im, fm)
    require(abs(got - e) < 1e-9, "precision_alignments %s expected %s", got, e)
    require(0 <= got <= 1, "precision %s", got)
    if all(traces):
        got = pm4py.precision_alignments(build.variants_df(traces), net, im, fm)
        require(abs(got - e) < 1e-9, "precision_alignments of the dataframe %s expected %s", got, e)
    got = pm4py.precision_alignments(build.variants_log(traces[::-1] * case["k"]), net, im, fm)
    require(abs(got - e) < 1e-9, "precision_alignments of the repeated log %s expected %s", got, e)
    # token-based: bounds and representations
    t = pm4py.precision_token_based_replay(log, net, im, fm)
    require(0 <= t <= 1, "token-based precision %s", t)
    if all(traces):
        t2 = pm4py.precision_token_based_replay(build.variants_df(traces), net, im, fm)
        require(abs(t - t2) < 1e-9, "token-based precision of the log %s, of the dataframe %s", t, t2)
    ctx.nontrivial(0 < e < 1)
    ctx.label("perfect" if e == 1 else "imprecise")


@st.composite
def exact_st(draw):
    s = draw(visible())
    labels = [l for _, l in s["trans"]]
    return {"net": s, "traces": draw(nets.walks(s, n=(1, 6), labels=labels)), "w": draw(st.tuples(*[st.integers(0, 3)] * 4).filter(any).map(list))}


def check_exact(case, ctx):
    from pm4py.algo.evaluation import algorithm as E
    s = case["net"]
    net, im, fm, ps, ts = build.net(s)
    r = ref.RNet(net, im, fm)
    traces = [tuple(t) for t in case["traces"]]
    nxt, cnt = prefixes(traces)
    idx = {x[0]: k for k, x in enumerate(r.trans)}
    en = lambda m: {r.trans[k][0] for k in r.enabled(m)}
    ini = en(r.im)
    at, ee, fits = len(traces) * len(ini), len(traces) * len(ini - {t[0] for t in traces if t}), 0
    for w in nxt:
        m = r.im
        for a in w:
            if idx[a] not in r.enabled(m):
                break
            m = r.fire(m, idx[a])
        else:
            fits += 1
            a = en(m)
            at += len(a) * cnt[w]
            ee += len(a - nxt[w]) * cnt[w]
    e = 1 - ee / at if at else 1.0
    log = build.variants_log(traces)
    got = pm4py.precision_token_based_replay(log, net, im, fm)
    require(abs(got - e) < 1e-9, "token-based precision %s expected %s", got, e)
    occ = Counter(a for t in traces for a in t)
    g = 1 - sum(1 / math.sqrt(occ[l]) if occ[l] else 1 for l in idx) / len(idx) if idx else 1.0
    got = pm4py.generalization_tbr(log, net, im, fm)
    require(abs(got - g) < 1e-9, "generalization %s expected %s", got, g)
    if all(traces):
        df = build.variants_df(traces)
        require(abs(pm4py.precision_token_based_replay(df, net, im, fm) - e) < 1e-9, "token-based precision of the dataframe")
        require(abs(pm4py.generalization_tbr(df, net, im, fm) - g) < 1e-9, "generalization of the dataframe")
    # simplicity
    deg = [len(p.in_arcs) + len(p.out_arcs) for p in net.places] + [len(t.in_arcs) + len(t.out_arcs) for t in net.transitions]
    n_arcs, n_nodes = len(s["arcs"]), len(s["places"]) + len(s["trans"])
    simp = 1 / (1 + max(2 * n_arcs / n_nodes - 2, 0)) if n_nodes else 1.0
    require(abs(pm4py.simplicity_petri_net(net, im, fm, variant="arc_degree") - simp) < 1e-9, "arc degree simplicity %s expected %s", pm4py.simplicity_petri_net(net, im, fm), simp)
    # overall evaluation
    w = dict(zip(("fitness", "precision", "generalization", "simplicity"), case["w"]))
    ev = E.apply(log, net, im, fm, parameters={k + "_weight": v for k, v in w.items()})
    fit = pm4py.fitness_token_based_replay(log, net, im, fm)
    f = fit["log_fitness"]
    req_eq(ev["fitness"], fit, "fitness in the evaluation")
    vals = {"fitness": f, "precision": e, "generalization": g, "simplicity": simp}
    for k in vals:
        if k != "fitness":
            require(abs(ev[k] - vals[k]) < 1e-9, "%s in the evaluation: %s expected %s", k, ev[k], vals[k])
    avg = sum(w[k] * vals[k] for k in vals) / sum(w.values())
    require(abs(ev["metricsAverageWeight"] - avg) < 1e-9, "weighted average %s expected %s", ev["metricsAverageWeight"], avg)
    require(abs(ev["fscore"] - (2 * f * e / (f + e) if f + e > 0 else 0)) < 1e-9, "fscore %s", ev["fscore"])
    card = sum(len({frozenset(a.target for a in arc.target.out_arcs) for arc in p.out_arcs}) for p in net.places)
    req_eq(pm4py.simplicity_petri_net(net, im, fm, variant="extended_cardoso"), card, "extended Cardoso metric")
    # state space
    try:
        sp, edges = r.reach(cap=120, bound=15)
    except ref.Overflow:
        ctx.label("large")
    else:
        import networkx as nx
        G = nx.DiGraph([(a, b) for a, _, b in edges])
        G.add_nodes_from(sp)
        req_eq(pm4py.simplicity_petri_net(net, im, fm, variant="extended_cyclomatic"), G.number_of_edges() - G.number_of_nodes() + nx.number_strongly_connected_components(G), "extended cyclomatic metric")
    ctx.nontrivial(0 < e < 1 and fits > 0)


@st.composite
def dfg_st(draw):
    traces = draw(gen.traces(4, 6, 6))
    model = draw(gen.traces(4, 6, 6)) if draw(st.booleans()) else traces + draw(gen.traces(4, 4, 2))
    return {"traces": traces, "model": model}


def check_dfg(case, ctx):
    from pm4py.algo.evaluation.precision.dfg import algorithm as P
    traces = [tuple(t) for t in case["traces"]]
    model = [tuple(t) for t in case["model"]]
    d, s, e = Counter(p for t in model for p in zip(t, t[1:])), Counter(t[0] for t in model), Counter(t[-1] for t in model)
    nxt, cnt = {}, Counter()
    for t in traces:
        for i in range(len(t)):
            nxt.setdefault(t[:i], set()).add(t[i])
            cnt[t[:i]] += 1
    at = ee = 0
    for w in nxt:
        if (not w or w[0] in s) and all(p in d for p in zip(w, w[1:])):
            a = {y for x, y in d if x == w[-1]} if w else set(s)
            at += len(a) * cnt[w]
            ee += len(a - nxt[w]) * cnt[w]
    exp = 1 - ee / at if at else 1.0
    got = P.apply(build.variants_log(traces), dict(d), dict(s), dict(e))
    require(abs(got - exp) < 1e-9, "precision of the graph %s expected %s", got, exp)
    got = P.apply(build.variants_df(traces), dict(d), dict(s), dict(e))
    require(abs(got - exp) < 1e-9, "precision of the graph (dataframe) %s expected %s", got, exp)
    ctx.nontrivial(0 < exp < 1)


UNITS = [
    Unit("align", align_st(), check_align, quick=700, shards=4, rule="precision strictly between 0 and 1"),
    Unit("exact", exact_st(), check_exact, quick=800, shards=3, rule="precision strictly between 0 and 1 and a fitting prefix"),
    Unit("dfg", dfg_st(), check_dfg, quick=400, shards=1, rule="precision strictly between 0 and 1"),
]

"""C32 Petri net alignments"""
from collections import Counter
from hypothesis import strategies as st
import math, statistics
import gen, build, ref, nets
from core import Unit, require, req_eq
import pm4py

META = dict(
    title="Petri-net alignments are valid firing sequences of minimal cost",
    statement="For every trace and every bounded accepting net whose final marking is reachable, the alignment returned by each exact variant (A*, tweaked A*, Dijkstra, memory-efficient Dijkstra) reads the trace on its log side and a firing sequence from the initial to the final marking on its model side, and its cost is the minimum over all alignments (standard costs, or user-given log/model/synchronous costs). "
              "Its fitness is 1 - cost/(trace cost + cheapest run of the model), with 1 exactly for accepted traces; aligning a log, a dataframe, several processes or single traces gives the same results per case, and a net whose final marking is unreachable is rejected.",
    over=["inputs"], quant="generated bounded nets (block-structured and mutated, loops, duplicate and invisible labels, weighted arcs, several tokens) and noisy traces",
    why="tests align two logs with nets discovered from them and check little; optimality must hold for every net, trace and search variant",
    files=["pm4py/algo/conformance/alignments/petri_net", "pm4py/objects/petri_net/utils/align_utils.py", "pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/objects/petri_net/utils/incidence_matrix.py", "pm4py/algo/analysis/marking_equation", "pm4py/conformance.py", "pm4py/util/lp"],
    mech=[("__search", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py"), ("__dijkstra", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py"), ("construct_cost_aware", "pm4py/objects/petri_net/utils/synchronous_product.py"), ("apply_trace", "pm4py/algo/conformance/alignments/petri_net/algorithm.py")],
    limits="The discounted variant is a documented heuristic: only its validity is checked. Zero-cost cycles on unbounded nets are outside the domain (nets are bounded).")
VAR = ["STATE_EQUATION_A_STAR", "TWEAKED_STATE_EQUATION_A_STAR", "DIJKSTRA_NO_HEURISTICS", "DIJKSTRA_LESS_MEMORY"]
K = 10000


@st.composite
def net_st(draw):
    return draw(st.one_of(nets.tree_net(depth=3, max_leaves=6, mutations=2), nets.tree_net(depth=3, max_leaves=5), nets.conserving_net(), nets.free_net(max_p=4, max_t=4), weighted()))


@st.composite
def weighted(draw):
    """a sequence-of-batches net: k tokens, transitions moving w of them forward"""
    k, P = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    s = {"places": ["p%d" % i for i in range(P)], "trans": [], "arcs": [], "im": {"0": k}, "fm": {str(P - 1): k}}
    for _ in range(draw(st.integers(1, 5))):
        a, b, w = draw(st.integers(0, P - 1)), draw(st.integers(0, P - 1)), draw(st.integers(1, k))
        i = len(s["trans"])
        s["trans"].append(["t%d" % i, draw(st.sampled_from([None] + gen.ACTS[:3] * 2))])
        s["arcs"] += [["pt", a, i, w], ["tp", i, b, w]]
    for p in range(P - 1):
        i = len(s["trans"])
        s["trans"].append(["t%d" % i, draw(st.sampled_from([None] + gen.ACTS[:3] * 2))])
        s["arcs"] += [["pt", p, i, 1], ["tp", i, p + 1, 1]]
    return s


@st.composite
def case_st(draw, n=(1, 3), custom=True):
    s = draw(net_st())
    c = {"net": s, "traces": draw(nets.walks(s, n=n)), "scipy": draw(st.booleans())}
    if custom:
        cost = st.sampled_from([5000, 10000, 20000, 30000])
        c["costs"] = {"log": {a: draw(cost) for a in gen.ACTS[:8]}, "model": [draw(cost) if l else draw(st.sampled_from([0, 1, 2000])) for _, l in s["trans"]], "sync": draw(st.sampled_from([0, 0, 1, 500])), "pos": draw(st.booleans())}
    return c


def tr(acts):
    from pm4py.objects.log.obj import Trace, Event
    return Trace([Event({"concept:name": a}) for a in acts])


class solver_variant:
    def __init__(self, scipy):
        self.scipy = scipy

    def __enter__(self):
        from pm4py.util.lp import solver
        self.old = solver.DEFAULT_LP_SOLVER_VARIANT
        if self.scipy:
            solver.DEFAULT_LP_SOLVER_VARIANT = solver.SCIPY

    def __exit__(self, *a):
        from pm4py.util.lp import solver
        solver.DEFAULT_LP_SOLVER_VARIANT = self.old


def usable(case, ctx):
    x = nets.state_space(case["net"])
    if x is None or not x[1]:
        ctx.label("unbounded or unreachable")
        return None
    return nets.SNet(case["net"])


def replay(r, case, moves, trace, what):
    """moves: ((log name, model name), (log label, model label))"""
    idx = {n: i for i, (n, l) in enumerate(case["net"]["trans"])}
    m, logp, nsync = r.im, [], 0
    for (ln, mn), (ll, ml) in moves:
        require(not (ln == ">>" and mn == ">>"), "%s: empty move", what)
        if ln != ">>":
            logp.append(ll)
        else:
            require(ll == ">>", "%s: log label %s without log move", what, ll)
        if mn != ">>":
            k = idx[mn]
            require(r.trans[k][0] == ml, "%s: model label %s of %s", what, ml, mn)
            require(k in r.enabled(m), "%s: %s is not enabled in the model (alignment %s)", what, mn, moves)
            m = r.fire(m, k)
            if ln != ">>":
                require(ll == ml, "%s: synchronous move of different labels %s %s", what, ll, ml)
                nsync += 1
        else:
            require(ml == ">>", "%s: model label %s without model move", what, ml)
    require(m == r.fm, "%s: the final marking is not reached (alignment %s)", what, moves)
    req_eq(logp, list(trace), "%s: log side" % what)
    return nsync


def plain_ok(r, al, trace, what):
    """labels only: some firing sequence must carry the model side"""
    req_eq([a for a, _ in al if a != ">>"], list(trace), what + ": log side")
    cur = {r.im}
    for a, b in al:
        if a != ">>" and b != ">>":
            require(a == b, "%s: sync %s", what, (a, b))
        if b != ">>":
            cur = {r.fire(m, k) for m in cur for k in r.enabled(m) if r.trans[k][0] == b}
            require(cur, "%s: model side of %s cannot fire", what, al)
    require(r.fm in cur, "%s: model side of %s misses the final marking", what, al)


def check_optimal(case, ctx):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = usable(case, ctx)
    if r is None:
        return
    net, im, fm, ps, ts = build.net(case["net"])
    worst = 0
    best = ref.align_cost(r, (), move_model=lambda l, k: K if l else 1)
    for t in case["traces"]:
        exp = ref.align_cost(r, t, move_log=lambda a: K, move_model=lambda l, k: K if l else 1)
        dev = ref.align_cost(r, t)
        acc = ref.net_accepts(r, t)
        worst = max(worst, dev)
        with solver_variant(case["scipy"]):
            for v in VAR:
                for desc in (True, False):
                    res = A.apply(tr(t), net, im, fm, variant=A.Variants["VERSION_" + v], parameters={"ret_tuple_as_trans_desc": True} if desc else {})
                    w = "%s %s" % (v, t)
                    require(res is not None, "%s: no alignment", w)
                    if desc:
                        replay(r, case, res["alignment"], t, w)
                    else:
                        plain_ok(r, res["alignment"], t, w)
                        n = sum(1 for a, b in res["alignment"] if a == ">>" and b is not None or b == ">>")
                        req_eq(n, dev, w + ": deviations of the alignment")
                    if v == "DIJKSTRA_LESS_MEMORY":
                        req_eq(res["cost"] // K, dev, w + ": deviations in the cost")
                    else:
                        require(abs(res["cost"] - exp) < 1e-3, "%s: cost %s, optimal %s", w, res["cost"], exp)
                    # fitness
                    den = len(t) + best // K
                    fit = 1 - dev / den if den else (1 if dev == 0 else 0)
                    require(abs(res["fitness"] - fit) < 1e-9, "%s: fitness %s expected %s (cost %s bwc %s)", w, res["fitness"], fit, res["cost"], res["bwc"])
                    require((res["fitness"] == 1) == acc, "%s: fitness %s of an %s trace", w, res["fitness"], "accepted" if acc else "unaccepted")
                    req_eq(res["bwc"] // K, den, w + ": bwc")
    ctx.nontrivial(worst > 0)
    ctx.label("accepted" if worst == 0 else "deviating")


def check_custom(case, ctx):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = usable(case, ctx)
    if r is None or "costs" not in case:
        return
    net, im, fm, ps, ts = build.net(case["net"])
    c = case["costs"]
    best = ref.align_cost(r, (), move_model=lambda l, k: c["model"][k])
    for t in case["traces"]:
        # the cost of a log move depends on the position in the trace
        lc = [c["log"][a] + (5000 * (i % 2) if c["pos"] else 0) for i, a in enumerate(t)]
        exp = cost_pos(r, t, lc, c)
        with solver_variant(case["scipy"]):
            for v in VAR:
                p = {"trace_cost_function": list(lc), "model_cost_function": {x: c["model"][i] for i, x in enumerate(ts)}, "sync_cost_function": {x: c["sync"] for x in ts if x.label is not None},
                     "std_sync_cost": c["sync"], "ret_tuple_as_trans_desc": True}
                res = A.apply(tr(t), net, im, fm, variant=A.Variants["VERSION_" + v], parameters=p)
                w = "%s %s" % (v, t)
                replay(r, case, res["alignment"], t, w)
                require(abs(res["cost"] - exp) < 1e-3, "%s: cost %s, optimal %s (alignment %s)", w, res["cost"], exp, res["alignment"])
                tot, pos = 0, 0
                idx = {n: i for i, (n, l) in enumerate(case["net"]["trans"])}
                for (ln, mn), _ in res["alignment"]:
                    tot += c["sync"] if ln != ">>" and mn != ">>" else lc[pos] if mn == ">>" else c["model"][idx[mn]]
                    pos += ln != ">>"
                require(abs(res["cost"] - tot) < 1e-3, "%s: cost %s but the moves sum to %s", w, res["cost"], tot)
                require(abs(res["bwc"] - sum(lc) - best) < 1e-3, "%s: bwc %s expected %s", w, res["bwc"], sum(lc) + best)
                den = (sum(lc) + best) // K
                if den > 0:
                    require(abs(res["fitness"] - (1 - exp // K / den)) < 1e-9, "%s: fitness %s expected %s", w, res["fitness"], 1 - exp // K / den)
        ctx.nontrivial(exp > 0)


def cost_pos(r, t, lc, c):
    class Ev(str):
        pass
    evs = []
    for a, x in zip(t, lc):
        e = Ev(a)
        e.cost = x
        evs.append(e)
    return ref.align_cost(r, evs, move_log=lambda a: a.cost, move_model=lambda l, k: c["model"][k], sync=lambda l, k: c["sync"])


@st.composite
def log_st(draw):
    c = draw(case_st(n=(1, 5), custom=False))
    c["traces"] = [t for t in c["traces"] if t] or [["A"]]
    c.update(v=draw(st.sampled_from(VAR + ["DISCOUNTED_A_STAR"])), df=draw(st.booleans()), mp=draw(st.integers(0, 30)) == 0, other=draw(nets.tree_net(depth=2, max_leaves=3)))
    return c


def check_log(case, ctx):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    from pm4py.algo.evaluation.replay_fitness.variants import alignment_based
    net, im, fm, ps, ts = build.net(case["net"])
    x = nets.state_space(case["net"])
    if x is None:
        return
    T = case["traces"]
    log = build.variants_df(T) if case["df"] else build.variants_log(T)
    order = [T[i] for i in sorted(range(len(T)), key=lambda i: str(i))] if case["df"] else T
    if case["df"]:
        order = [list(g["concept:name"]) for _, g in log.groupby("case:concept:name", sort=True)]
    v = A.Variants["VERSION_" + case["v"]]
    if not x[1]:
        ctx.label("not easy sound")
        for f in (lambda: pm4py.conformance_diagnostics_alignments(log, net, im, fm), lambda: A.apply(log, net, im, fm, variant=v)):
            try:
                f()
            except Exception:
                continue
            require(False, "a net whose final marking is unreachable is aligned")
        return
    r = nets.SNet(case["net"])
    params = {}
    res = A.apply(log, net, im, fm, variant=v, parameters=params)
    req_eq(len(res), len(T), "one alignment per case")
    require(not params, "the given parameters are altered: %s", params)
    for t, a in zip(order, res):
        plain_ok(r, a["alignment"], t, "log %s" % case["v"])
        if case["v"] != "DISCOUNTED_A_STAR":
            req_eq(round(a["cost"]) // K, ref.align_cost(r, t), "deviations of %s" % t)
        single = A.apply(tr(t), net, im, fm, variant=v)
        require(abs(single["fitness"] - a["fitness"]) < 1e-9, "fitness of %s in the log %s, alone %s", t, a["fitness"], single["fitness"])
    # the parameters can be reused on another model
    if case["v"] != "DISCOUNTED_A_STAR":
        n2, i2, f2, _, _ = build.net(case["other"])
        r2 = nets.SNet(case["other"])
        a2 = A.apply(tr(T[0]), n2, i2, f2, variant=v, parameters=params)
        req_eq(a2["bwc"] // K, len(T[0]) + ref.align_cost(r2, ()), "bwc on a second model with the same parameters")
        got = pm4py.conformance_diagnostics_alignments(log, net, im, fm, variant_str=str(v), multi_processing=case["mp"])
        for a, b, t in zip(res, got, order):
            require(abs(a["fitness"] - b["fitness"]) < 1e-9 and round(a["cost"]) // K == round(b["cost"]) // K, "simplified interface (mp=%s) on %s: %s / %s", case["mp"], t, a, b)
        dd = pm4py.conformance_diagnostics_alignments(log, net, im, fm, variant_str=str(v), return_diagnostics_dataframe=True)
        ids = sorted(set(log["case:concept:name"])) if case["df"] else [x.attributes["concept:name"] for x in log]
        by = dict(zip(ids, order))
        req_eq(sorted(dd["case_id"]), sorted(ids), "cases of the diagnostics dataframe")
        for row in dd.to_dict("records"):
            t = by[row["case_id"]]
            d = ref.align_cost(r, t)
            den = len(t) + ref.align_cost(r, ())
            require(round(row["cost"]) // K == d and abs(row["fitness"] - (1 - d / den if den else 1)) < 1e-9 and bool(row["is_fit"]) == ref.net_accepts(r, t), "diagnostics row %s of %s", row, t)
        # log fitness
        fit = [1 - ref.align_cost(r, t) / (len(t) + ref.align_cost(r, ())) for t in order]
        for got in (alignment_based.evaluate(res), pm4py.fitness_alignments(log, net, im, fm)):
            require(abs(got["average_trace_fitness"] - statistics.mean(fit)) < 1e-9, "average trace fitness %s of %s", got, fit)
            tc, bw = sum(ref.align_cost(r, t) for t in order), sum(len(t) + ref.align_cost(r, ()) for t in order)
            require(abs(got["log_fitness"] - (1 - tc / bw)) < 1e-3, "log fitness %s expected %s", got, 1 - tc / bw)
            require(abs(got["percentage_of_fitting_traces"] - 100.0 * sum(ref.net_accepts(r, t) for t in order) / len(T)) < 1e-9, "fitting traces %s", got)
    ctx.nontrivial(len(set(map(tuple, T))) > 1)
    ctx.label(case["v"] + (" mp" if case["mp"] else ""))


UNITS = [
    Unit("optimal", case_st(custom=False), check_optimal, quick=800, shards=3, rule="some trace deviates from the net"),
    Unit("custom", case_st(), check_custom, quick=500, shards=2, rule="some trace has a positive optimal cost under user costs"),
    Unit("log", log_st(), check_log, quick=200, shards=3, rule="at least two different traces"),
]
